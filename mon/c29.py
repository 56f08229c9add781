import gen, model
from core import talk, reply_problem, dictionary, giants, Inconclusive
RULE = ('a case is an app of 1-5 handlers (global ones and routes, some of which change the response, read the body or panic in other '
        'requests) that record the request line they see, and a batch of requests: all methods, HTTP/1.0 and 1.1, paths with empty, '
        'dot, cancelled, percent-encoded and multi-byte segments, query strings of arbitrary text, with other headers and bodies around. '
        'Every record must equal the line that was sent. Distinct by (method, version, target).')
CASES = (22000, 130000)
VARIANT = 'lines'
FLOOR = 20000
QCH = "abcXYZ019-._~!$&'()*+,;=:@/?%[]{}|\\^`\"<>#é日😀"
NAMES = {m: m.capitalize() for m in model.METHODS + model.OTHER_METHODS}
CAPS = {'path': 1 << 20, 'query': 1 << 20, 'segs': 5000}
GIANT = [(k, n) for k in ('path', 'query') for n in (257, 1025, 4097, 8193, 65537, 131073, 1048577)] + [('segs', 300), ('segs', 2000), ('segs', 5000)]


def query(rng):
    r = rng.random()
    if r < .35:
        return None
    if r < .45:
        return ''
    q = ''.join(rng.choice(QCH) for _ in range(rng.choice([1, 2, 5, 12, 40])))
    if r < .6:
        q = gen.magic_text(rng, q, lambda c: c > ' ' and c != '\x7f' and not '\x80' <= c <= '\xa0')
    if r > .9:
        q += rng.choice(['?', '??', '/..', '/../..', '&', '=', '#', '#f', '%', '%2', '%00', '%0d%0a', '+', '?a=b', '/'])
    return q


def make(rng, i, tier):
    g = giants(GIANT, CAPS)
    hs, reqs = [], []
    for k in range(rng.choice([1, 2, 3, 5])):
        acts = [['line']]
        for _ in range(rng.choice([0, 0, 1, 2])):
            acts.append(rng.choice([['status', 'Created'], ['send_str', 'x'], ['send_size', 3000, 1], ['redirect', '/other?z'], ['http_version', '1.0'], ['set', 'X-A', 'b'],
                                    ['panic_if_hdr'], ['echo_body'], ['get', 'X-A']]))
        acts += [['line']] * rng.choice([0, 1])
        hs.append({'m': rng.choice(['use', 'use', 'all', 'get', 'post']), 'p': rng.choice(['/', '/a', '/:x', '/:x/:y', '/a/:y']), 'acts': acts})
    hs[0]['m'] = 'use'
    if 12 <= i < 12 + len(g):
        k, n = g[i - 12]
        w = (''.join(rng.choice('abXY01') for _ in range(997)) * (n // 997 + 1))[:n]
        t = {'path': '/' + w + '?q', 'query': '/a?' + w, 'segs': '/s' * n + '/end?q'}[k]
        return {'hs': hs, 'reqs': [['GET', t, 'HTTP/1.1', [], 0, 0]]}
    for _ in range(12):
        segs = gen.instantiate(rng, gen.pattern_segs(rng)) if rng.random() < .7 else rng.choice([[], ['a'], ['a', 'b'], ['x']])
        path = gen.decorate(rng, segs) if rng.random() < .5 else gen.plain(segs)
        if model.norm(path) is None or not path.startswith('/'):
            path = '/' + 'a'
        q = query(rng)
        t = path + ('' if q is None else '?' + q)
        if reqs and rng.random() < .15:
            n = gen.near(rng, reqs[-1][1])
            if (model.norm(n.partition('?')[0]) is not None):
                t = n
        m = rng.choice(model.METHODS + model.OTHER_METHODS) if rng.random() < .5 else rng.choice(['GET', 'POST', 'PUT'])
        reqs.append([m, t, rng.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0']), gen.lines(rng, .4), rng.choice([0, 0, 0, 5, 700, 3000]),
                     rng.random() < .05])
    return {'hs': hs, 'reqs': reqs}


def check(env, case):
    env.sut_args = {'workers': [4, 1, 2, 1][env.worker % 4]}
    sut = env.sut
    ops = [{'op': 'route', 'method': h['m'], 'path': h['p'] if h['m'] != 'use' else '', 'h': {'rid': k, 'flow': 'next', 'obs': 'none', 'acts': h['acts']}}
           for k, h in enumerate(case['hs'])]
    flat, _ = model.flatten(ops)
    sut.events()
    aid, port, _ = sut.start(ops)
    try:
        sent = []
        for m, t, v, hdr, n, panic in case['reqs']:
            tok = env.tok()
            raw = gen.request(m, t, [tuple(x) for x in hdr] + [('X-Tok', tok)] + ([('X-Panic', '1')] if panic else []), b'z' * n, v)
            rep = talk(port, raw, sut)
            if rep.end in ('timeout', 'limit'):
                raise Inconclusive(rep.end)
            if rep.end == 'hang':
                return f'{raw[:300]!r} was not answered'
            sent.append((tok, m, t, v, panic))
        by = {}
        for e in sut.events():
            if 'line' in e:
                by.setdefault(e['tok'], []).append((e['note'], e['line']))
        if set(by) - {x[0] for x in sent}:
            return 'a handler ran for a request that was never sent'
        for tok, m, t, v, panic in sent:
            path, _, q = t.partition('?')
            segs = model.norm(path)
            want = [NAMES[m], 'Http11' if v == 'HTTP/1.1' else 'Http10', segs, q]
            ran = [h['rid'] for h, _ in model.dispatch(flat, m, segs)]
            runs = [k for k in ran for a in case['hs'][k]['acts'] if a[0] == 'line']
            got = by.get(tok, [])
            env.add('evaluations')
            env.add('records', len(got))
            for rid, l in got:
                if l != want:
                    return f'{m} {t[:300]!r} {v}: handler {rid} saw the request line {str(l)[:500]}, expected {str(want)[:500]}'
            if not panic and [r for r, _ in got] != runs:
                return f'{m} {t[:300]!r} {v}: records of handlers {[r for r, _ in got]}, expected {runs}'
            env.seen([m, t, v])
            env.sample({'request': f'{m} {t[:80]} {v}', 'handlers': len(ran)})
    finally:
        if sut.alive():
            sut.stop(aid)
    return None
