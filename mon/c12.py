import string
import gen, model, respmodel
from core import giants, talk, reply_problem, dictionary, size_pool, Inconclusive
RULE = ('a case is an app whose 1-5 chained handlers perform random sequences of response operations (status, version, '
        'headers, redirect, content type, charset, attachment, bodies of boundary sizes, several sends) and some whose text '
        'contains CR, LF or NUL; the bytes on the wire, read by a strict parser until the connection ends, must equal the '
        'model. Distinct by operation sequence; non-trivial: at least two operations and a body, or an injection attempt.')
CASES = (48000, 288000)
FLOOR = 1500
AVOID = {'content-length', 'date', 'content-type', 'set-cookie', 'transfer-encoding', 'connection'}


def hname(rng):
    r = rng.random()
    if r < .3:
        return rng.choice(['X-A', 'X-B', 'Server', 'Location', 'Cache-Control', 'ETag', 'Vary', 'Allow', 'Content-Language', 'Content-Disposition'])
    if r < .45:
        for _ in range(8):
            n = rng.choice(dictionary()['str'])
            if all(c in model.TOKEN for c in n) and n.lower() not in AVOID:
                return n
    return gen.token(rng, rng.choice([1, 3, 8, 20, 100]))


def hvalue(rng):
    r = rng.random()
    if r < .08:
        return ''
    if r < .15:
        return gen.text(rng, rng.choice([200, 512, 1024, 5000, 20000])).strip(' \t')
    if r < .25:
        s = rng.choice(dictionary()['str'])
        if all(ord(c) >= 32 and ord(c) != 127 for c in s):
            return s.strip(' \t')
    v = gen.text(rng, rng.randrange(1, 40), .1).strip(' \t')
    if r > .85:
        v = gen.magic_text(rng, v, lambda c: ord(c) >= 32 and ord(c) != 127).strip(' \t')
    return v


EVIL = ['\r\nX-Evil: 1', '\nX-Evil: 1', '\r\n\r\nEVILBODY', '\n\nEVILBODY', '\r\nSet-Cookie: evil=1', '\rX-Evil: 1', '\r\nContent-Length: 0\r\n\r\n', '\0',
        '\r', '\n', '\r\n', '\n\r', '\r\r\n\n']


def body_act(rng, tier, cap):
    r = rng.random()
    if r < .45:
        t = gen.text(rng, rng.randrange(0, 60), .2)
        return ['send_str', gen.magic_text(rng, t, lambda c: True) if r < .15 else t]
    if r < .6:
        return ['send', (rng.randbytes(rng.randrange(0, 300)) if rng.random() < .4 else gen.magic_bytes(rng)).hex()]
    if r < .65:
        return ['send_str', '']
    return ['send_size', rng.choice(size_pool(cap)), rng.randrange(1, 1 << 30)]


def act(rng, used, tier, cap):
    r = rng.random()
    if r < .3:
        n = rng.choice(used) if used and rng.random() < .4 else hname(rng)
        if n.lower() in AVOID or any(n.lower() == u.lower() and n != u for u in used):
            return ['attachment']
        used.append(n)
        return ['set', n, hvalue(rng)]
    if r < .45:
        return ['status', rng.choice([k for k, v in respmodel.STATUS.items()])]
    if r < .5:
        return ['status_other', rng.choice([299, 418, 599, 200, 999, 100]), rng.choice(['Fine', 'A B', 'x', 'OK'])]
    if r < .56:
        if any(u.lower() == 'location' and u != 'Location' for u in used):
            return ['attachment']
        used.append('Location')
        return ['redirect', rng.choice(['/', 'http://e.x/?a=b#c', hvalue(rng)])]
    if r < .61:
        return ['charset', rng.choice(['utf-8', 'latin1', 'x'])]
    if r < .67:
        return ['with_type', rng.choice(['application/json', 'text/plain', 'json', 'a/b; c=d', 'text/html', '', hvalue(rng)])]
    if r < .7:
        used.append('Content-Disposition')
        return ['attachment']
    if r < .74:
        used.append('Content-Disposition')
        return ['attachment_fn', rng.choice(['image.png', 'a.HTML', 'noext', 'x.tar.gz', 'f.unknown', 'doc.pdf'])]
    if r < .8:
        return ['http_version', rng.choice(['1.0', '1.1', '1.1', '2.0', '0.9'])]
    if r < .83:
        return ['default_headers']
    return body_act(rng, tier, cap)


def fix(acts_per_handler):
    """Drop header names that differ only by case from an earlier one (left open)."""
    seen = {'content-length': 'Content-Length', 'date': 'Date', 'content-type': 'Content-Type'}
    for acts in acts_per_handler:
        for a in acts:
            nm = {'set': a[1] if len(a) > 1 else '', 'redirect': 'Location', 'attachment': 'Content-Disposition',
                  'attachment_fn': 'Content-Disposition'}.get(a[0])
            if nm:
                if seen.setdefault(nm.lower(), nm) != nm:
                    a[:] = ['default_headers']


CAPS = {'body': 150 << 20, 'lines': 20000, 'value': 6 << 20, 'name': 1 << 20, 'ops': 10000}
GIANT = [('body', 5 << 20), ('body', 10 << 20), ('body', 17 << 20), ('body', 34 << 20), ('body', 68 << 20), ('body', 130 << 20), ('lines', 257), ('lines', 1025), ('lines', 5000),
         ('lines', 20000), ('value', 33000), ('value', 66000), ('value', 140000), ('value', 1048577), ('value', 5000000), ('name', 300), ('name', 5000), ('name', 66000),
         ('ops', 1100), ('ops', 10000)]


def giant(rng, kn):
    """One dimension far beyond the usual: body, header lines, value, name, number of operations."""
    k, n = kn
    word = lambda n: (''.join(rng.choice('abcdefgXYZ0189-') for _ in range(min(n, 997))) * (n // 997 + 1))[:n]
    if k == 'body':
        h = [['set', 'X-A', 'b'], ['send_size', n + rng.randrange(1, 9), rng.randrange(1, 1 << 30)]]
    elif k == 'lines':
        h = [['set', f'X-{j}', str(j)] for j in range(n)] + [['send_str', 'body']]
    elif k == 'value':
        h = [['set', 'X-V', word(n)], ['send_str', 'body']]
    elif k == 'name':
        h = [['set', word(n), 'v'], ['send_str', 'body']]
    else:
        h = [x for j in range(n) for x in (['send_str', f's{j}'], ['set', f'X-{j % 5}', str(j)], ['status', 'Created' if j % 2 else 'NotFound'])]
    return {'hs': [h], 'evil': False, 'm': 'GET', 'reps': 1, 'd': None}


def make(rng, i, tier):
    g = giants(GIANT, CAPS)
    if 12 <= i < 12 + len(g):
        return giant(rng, g[i - 12])
    cap = 70000 if tier == 'quick' and i % 20 else 1100000
    evil = rng.random() < .25
    used, hs = [], []
    for k in range(rng.choice([1, 1, 2, 3, 5])):
        hs.append([act(rng, used, tier, cap) for _ in range(rng.choice([1, 2, 3, 5, 8, 14]))])
    if rng.random() < .1:
        hs[0] = [['set', f'X-H{j}', str(j)] for j in range(rng.choice([20, 64, 150]))] + hs[0]
    if rng.random() < .9:
        hs[-1].append(body_act(rng, tier, cap))
    fix(hs)
    where = None
    if evil:
        # a marker value with line breaks somewhere
        e = rng.choice(['', 'v']) + rng.choice(EVIL) + rng.choice(['', 'tail', '\r\nX-Evil2: 2'])
        a = rng.choice([['set', 'X-Inj', e], ['set', 'X-Inj' + e, 'v'], ['redirect', '/x' + e], ['with_type', 'text/x' + e],
                        ['cookie', {'name': 'n', 'value': 'v' + e}], ['cookie', {'name': 'n' + e, 'value': 'v'}],
                        ['cookie', {'name': 'n', 'value': 'v', 'path': '/' + e, 'domain': 'd' + e}], ['charset', 'utf' + e],
                        ['attachment_fn', 'a' + e + '.png']])
        if a[0] == 'redirect' and any(x[0] == 'set' and x[1].lower() == 'location' for h in hs for x in h):
            a = ['set', 'X-Inj', e]
        where = a
        hs[rng.randrange(len(hs))].insert(0, a)
    return {'hs': hs, 'evil': evil, 'm': rng.choice(['GET', 'POST', 'PUT', 'DELETE', 'PATCH']), 'reps': rng.choice([1, 1, 2]),
            'd': gen.dress(rng, .5), 'up': gen.upset(rng, .2), 'at': [rng.random(), rng.random()]}


def check(env, case):
    ops = [{'op': 'route', 'method': 'use', 'path': '', 'h': {'rid': k, 'flow': 'next', 'obs': 'none', 'acts': acts}}
           for k, acts in enumerate(gen.trapped(case['hs'], case.get('at')))]
    sut = env.sut
    aid, port, _ = sut.start(ops)
    try:
        m = respmodel.Model()
        for acts in case['hs']:
            for a in acts:
                m.apply(a)
        for _ in range(case['reps']):
            gen.disturb(port, '/r', case.get('up', []), sut)
            rep = talk(port, gen.dressed(case['m'], '/r', [('X-Tok', env.tok())], case['d']), sut)
            env.add('evaluations')
            env.add('wire_bytes', len(rep.data))
            what = f'request {case["m"]} {case["d"]}, handlers {str(case["hs"])[:700]}'
            if rep.end in ('timeout', 'limit'):
                raise Inconclusive(rep.end)
            if case['evil']:
                p = judge_evil(m, rep)
                env.add('injection_attempts')
                env.seen(case['hs'])
            else:
                r, p = reply_problem(rep)
                p = p or m.compare(r)
                if m.body is not None and sum(map(len, case['hs'])) > 1:
                    env.seen(case['hs'])
                    env.sample({'operations': str(case['hs'])[:300], 'status': r and r.code, 'body_bytes': len(m.body)})
            if p:
                return f'{p}; {what}'
    finally:
        if sut.alive():
            sut.stop(aid)
    return None


def judge_evil(m, rep):
    """Line breaks in handler text: number of lines, absence of injected lines, and the body must be right."""
    if rep.end == 'hang':
        return 'no complete response'
    i = rep.data.find(b'\r\n\r\n')
    if i < 0:
        return f'no complete head: {rep.data[:300]!r}'
    if m.body is None:
        return None
    head, body = rep.data[:i], rep.data[i + 4:]
    # any bare CR or LF also ends a line for lenient readers
    lines = head.replace(b'\r\n', b'\n').replace(b'\r', b'\n').split(b'\n')
    want = 1 + len(m.headers) + len(m.cookies)
    if b'\0' in head:
        return f'NUL byte in the head: {head[:300]!r}'
    if len(lines) != want:
        return f'{len(lines)} head lines, expected {want}: {head[:400]!r}'
    for l in lines[1:]:
        if l.lower().startswith((b'x-evil', b'evil')):
            return f'injected line {l[:80]!r}'
    if body != m.body:
        return f'body {body[:100]!r} ({len(body)} bytes), expected {m.body[:100]!r} ({len(m.body)} bytes)'
    return None
