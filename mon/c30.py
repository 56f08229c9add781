import c12, gen, model, respmodel
from core import talk, Inconclusive, Reply, connect
RULE = ('a case is an app of 1-6 chained handlers that perform random response operations and take snapshots of the response (status, '
        'version, length, headers, charset, cookies, the header getter) before, between and after them, served by 1-4 threads; before '
        'and between the judged requests others run that panic halfway, send nothing, are malformed or are cut off. Every snapshot must '
        'equal the state given by the operations of this request so far, the first one a fresh response. Distinct by operation sequence.')
CASES = (26000, 150000)
FLOOR = 4000


def make(rng, i, tier):
    used, hs = [], []
    for k in range(rng.choice([1, 2, 3, 4, 6])):
        acts = [['snap']]
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            r = rng.random()
            if r < .15:
                a = ['cookie', {'name': gen.token(rng, 3), 'value': gen.token(rng, 4), 'plain': 1}]
            elif r < .25:
                a = ['get', rng.choice(used + ['Content-Type', 'Content-Length', 'X-None', 'Location'])]
            elif r < .3:
                a = ['send_file', '/nonexistent/f.txt']
            else:
                a = c12.act(rng, used, tier, 5000)
            acts.append(a)
            if rng.random() < .4:
                acts.append(['snap'])
        hs.append(acts + [['snap']])
    c12.fix(hs)
    at = rng.randrange(len(hs))
    hs[at].insert(rng.randrange(len(hs[at]) + 1), ['panic_if_hdr'])
    return {'hs': hs, 'reqs': [rng.choice(['good', 'good', 'good', 'panic', 'malformed', 'notfound', 'cut', 'rst']) for _ in range(6)], 'sends': rng.random() < .8,
            'm': rng.choice(['GET', 'POST', 'PUT', 'DELETE', 'PATCH']), 'd': gen.dress(rng, .3)}


def differs(m, s, started):
    """Problem with snapshot s against model state m or None."""
    for k, w in (('code', m.code), ('reason', m.reason), ('version', m.version), ('length', m.length), ('charset', m.charset)):
        if s[k] != w:
            return f'{k} is {s[k]!r}, expected {w!r}'
    if set(s['headers']) != set(m.headers):
        return f'headers {sorted(s["headers"])}, expected {sorted(m.headers)}'
    for n, w in m.headers.items():
        v = s['headers'][n]
        if n == 'Date':
            if len(v) != 29:
                return f'Date {v!r}'
        elif n == 'Content-Type' and m.ctype_loose:
            if not v.startswith('text/html') or m.ctype_loose not in v:
                return f'Content-Type {v!r} with charset {m.ctype_loose!r}'
        elif isinstance(w, tuple):
            if not v.startswith(w[0]) or w[1] not in v:
                return f'{n}: {v!r}, expected {w}'
        elif v != w:
            return f'{n}: {v!r}, expected {w!r}'
    if s['cookies'] != [[c['name'], c['value']] for c in m.cookies]:
        return f'cookies {s["cookies"]}, expected {[[c["name"], c["value"]] for c in m.cookies]}'
    if not started and s['sent'] or m.body is not None and not s['sent']:
        return f'headers_sent() is {s["sent"]}'
    return None


def expected(hs):
    """What the notes of one complete run must be: list of (handler, kind, judge)."""
    m = respmodel.Model()
    started = False
    for k, acts in enumerate(hs):
        for a in acts:
            if a[0] == 'snap':
                yield k, 'snap', (lambda s, m=m, st=started: differs(m, s, st))
            elif a[0] == 'get':
                def j(s, m=m, n=a[1]):
                    w = m.headers.get(n)
                    if s[0] != n or (s[1] is None) != (n not in m.headers):
                        return f'get({n!r}) gives {s[1]!r}, expected {w!r}'
                    if n != 'Date' and isinstance(w, str) and not (n == 'Content-Type' and m.ctype_loose) and s[1] != w:
                        return f'get({n!r}) gives {s[1]!r}, expected {w!r}'
                yield k, 'get', j
            elif a[0] == 'panic_if_hdr':
                yield k, 'panic', None
            else:
                started = True
                m.apply(a, files={})


def check(env, case):
    env.sut_args = {'workers': [4, 1, 2, 1][env.worker % 4]}
    sut = env.sut
    hs = case['hs'] + ([[['send_str', 'end'], ['snap']]] if case['sends'] else [])
    ops = [{'op': 'route', 'method': 'all', 'path': '/r', 'h': {'rid': k, 'flow': 'next', 'obs': 'none', 'acts': acts}} for k, acts in enumerate(hs)]
    sut.events()
    aid, port, _ = sut.start(ops)
    try:
        toks = {}
        for kind in case['reqs']:
            tok = env.tok()
            env.add('request_' + kind)
            hdr = [('X-Tok', tok)]
            if kind == 'malformed':
                raw = f'GET /r HTTP/1.1\r\nX-Tok: {tok}\r\nbad line\r\n\r\n'.encode()
            elif kind == 'notfound':
                raw = gen.request('GET', '/none', hdr)
            elif kind in ('cut', 'rst'):
                s = connect(port)
                s.sendall(gen.request('POST', '/r', hdr, b'x' * 600)[:-1 if kind == 'cut' else -590])
                s.close()
                continue
            elif kind == 'panic':
                raw = gen.request('POST', '/r', hdr + [('X-Panic', '1')], b'p')
                toks[tok] = True
            else:
                raw = gen.dressed(case['m'], '/r', hdr, case['d'])
                toks[tok] = False
            rep = talk(port, raw, sut)
            if rep.end in ('timeout', 'limit'):
                raise Inconclusive(rep.end)
            if rep.end == 'hang':
                return f'{raw[:200]!r} was not answered; handlers {str(hs)[:600]}'
        by = {}
        for e in sut.events():
            if 'snap' in e or 'get' in e:
                by.setdefault(e['tok'], []).append(e)
        for tok in by:
            if tok not in toks:
                return f'handlers ran for {tok}, which was not a complete request'
        for tok, panic in toks.items():
            got = by.get(tok, [])
            env.add('evaluations')
            pos = 0
            for k, kind, judge in expected(hs):
                if kind == 'panic':
                    if panic:
                        break
                    continue
                if pos >= len(got):
                    return f'only {pos} of the snapshots of a request were taken; handlers {str(hs)[:600]}'
                e = got[pos]
                if e['note'] != k or kind not in e:
                    return f'snapshot {pos} is of handler {e["note"]}, expected {k} ({kind}); handlers {str(hs)[:600]}'
                p = judge(e[kind])
                env.add('snapshots')
                if p:
                    return f'handler {k}, snapshot {pos}: {p}; handlers {str(hs)[:800]}'
                pos += 1
            if pos != len(got):
                return f'{len(got)} snapshots of a request, expected {pos}'
            env.seen(hs)
            env.sample({'operations': str(hs)[:300], 'snapshots': len(got)})
    finally:
        if sut.alive():
            sut.stop(aid)
    return None
