import gen, model
from core import giants, talk, reply_problem, dictionary
RULE = ('a case is a batch of requests with 1-300 random header lines (all token characters, repeated names in mixed case, '
        'values with UTF-8, colons, blanks around, empty, long, names from the sources), with and without a body that looks '
        'like headers; the header map and raw list recorded in the handler must equal the reference. Distinct by header '
        'lines; non-trivial: more than the two fixed lines.')
CASES = (7200, 43200)
FLOOR = 4000
OPS = [{'op': 'route', 'method': 'use', 'path': '', 'h': {'rid': 1, 'flow': 'next', 'obs': 'full', 'acts': [['send_str', 'x'], ['panic_if_hdr']]}}]
AVOID = {'content-length', 'transfer-encoding', 'host', 'x-tok', 'expect', 'x-panic'}


def name(rng, used):
    r = rng.random()
    if used and r < .35:
        n = rng.choice(used)
        return ''.join(c.upper() if rng.random() < .5 else c.lower() for c in n)
    if r < .55:
        for _ in range(10):
            n = rng.choice(dictionary()['str'])
            if n and all(c in model.TOKEN for c in n):
                return n
    if r < .7:
        return rng.choice(list(gen.COMMON) + ['Cookie2', 'Cookie', 'Cookie', 'Set-Cookie', 'cookies'])
    return gen.token(rng, rng.choice([1, 2, 5, 12, 40, 200]))


def value(rng):
    r = rng.random()
    if r < .1:
        return ''
    if r < .2:
        return rng.choice(['keep-alive', 'close', 'timeout=5, max=1000', 'timeout=, max', 'gzip, deflate', ':', ': a: b', ',', ', ,', 'a, b', '"q"',
                           'Keep-Alive', 'timeout=99999999999999999999999', 'timeout=18446744073709551615, max=1', '=', 'chunked'])
    if r < .3:
        return rng.choice([s for s in dictionary()['str'] if all(ord(c) >= 32 and ord(c) != 127 for c in s)] or ['v']).strip(' \t')
    if r < .36:
        return gen.text(rng, rng.choice([100, 500, 512, 1000, 4000] if rng.random() < .95 else [4097, 8193, 9000, 16385, 33000])).strip(' \t')
    v = gen.text(rng, rng.randrange(1, 40), .1).strip(' \t')
    if r > .85:
        v = gen.magic_text(rng, v, lambda c: ord(c) >= 32 and ord(c) != 127).strip(' \t')
    return v


def giant(rng, kn):
    """One dimension far beyond the usual: number of lines, a value's or name's length, many repetitions of a name."""
    k, n = kn
    word = lambda n: ''.join(rng.choice('abcdefgXYZ0189-') for _ in range(min(n, 997))) * (n // 997 + 1)
    if k == 'lines':
        ls = [[f'X-{j}', ' ', str(j), ''] for j in range(n)]
    elif k == 'same':
        ls = [['X-Same', ' ', str(j), ''] for j in range(n)]
    elif k == 'value':
        ls = [['X-Val', ' ', word(n)[:n], ''], ['X-After', ' ', 'a', '']]
    else:
        ls = [['N' + word(n)[:n], ' ', 'v', ''], ['X-After', ' ', 'a', '']]
    ls.insert(rng.randrange(len(ls) + 1), ['Host', ' ', 'h', ''])
    ls.insert(rng.randrange(len(ls) + 1), ['X-Tok', ' ', '@', ''])
    return {'reqs': [{'m': 'GET', 't': '/', 'v': 'HTTP/1.1', 'lines': ls, 'body': ''}]}


CAPS = {'lines': 40000, 'same': 20000, 'value': 20 << 20, 'name': 1 << 20}
GIANT = [('lines', 501), ('lines', 1025), ('lines', 4097), ('lines', 10001), ('same', 1025), ('same', 5000), ('value', 8193), ('value', 16385), ('value', 32769),
         ('value', 65537), ('value', 131073), ('value', 262145), ('value', 1048577), ('value', 2200000), ('value', 5300000), ('value', 17000000), ('name', 1025), ('name', 8193), ('name', 65537), ('lines', 33000)]


def make(rng, i, tier):
    g = giants(GIANT, CAPS)
    if 12 <= i < 12 + len(g):
        return giant(rng, g[i - 12])
    out = []
    for k in range(14):
        used, lines = [], []
        r = rng.random()
        cnt = rng.randrange(0, 9) if r < .8 else rng.randrange(9, 40) if r < .97 else rng.choice([64, 100, 128, 256, 300, 513])
        one = gen.token(rng, 5) if rng.random() < .02 else None
        for _ in range(cnt):
            n = one or name(rng, used)
            if n.lower() in AVOID:
                continue
            used.append(n)
            v = rng.choice(gen.COMMON[n]) if n in gen.COMMON and rng.random() < .4 else value(rng)
            lines.append([n, rng.choice(['', ' ', '  ', '\t', ' \t ']), v, rng.choice(['', '', '', ' ', '\t', '  \t'])])
        if out and rng.random() < .2:
            lines = [[n, a, gen.near(rng, v) if rng.random() < .5 else v, b] for n, a, v, b in out[-1]['lines'] if n.lower() not in AVOID]
        lines.insert(rng.randrange(len(lines) + 1), [rng.choice(['Host', 'host', 'HOST']), ' ', 'h', ''])
        lines.insert(rng.randrange(len(lines) + 1), [rng.choice(['X-Tok', 'x-tok', 'X-TOK']), ' ', '@', ''])
        body = ''
        if rng.random() < .3:
            body = 'X-Body: evil\r\nHost: b\r\n\r\n'
            lines.insert(rng.randrange(len(lines) + 1), ['Content-Length', ' ', str(len(body)), ''])
        out.append({'m': rng.choice(model.METHODS), 't': gen.plain(gen.instantiate(rng, gen.pattern_segs(rng, 0))) + rng.choice(['', '', '?' + rng.choice(gen.QUERIES)]), 'v': rng.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0']), 'lines': lines, 'body': body, 'up': gen.upset(rng, .04)})
    return {'reqs': out}


def check(env, case):
    sut = env.sut
    sut.events()
    aid, port, _ = sut.start(OPS)
    try:
        for d in case['reqs']:
            gen.disturb(port, '/', d.get('up', []), sut, [('Accept', 'upset'), ('X-Left', 'over')])
            tok = env.tok()
            ls = [[n, a, tok if v == '@' and n.lower() == 'x-tok' else v, b] for n, a, v, b in d['lines']]
            raw = (f'{d["m"]} {d["t"]} {d["v"]}\r\n' + ''.join(f'{n}:{a}{v}{b}\r\n' for n, a, v, b in ls) + '\r\n' + d['body']).encode('utf8')
            rep = talk(port, raw, sut)
            env.add('evaluations')
            env.add('header_lines', len(ls))
            ev = sut.events()
            r, p = reply_problem(rep)
            if p:
                return f'{raw[:400]!r}: {p}'
            if len(ev) != 1:
                return f'{raw[:400]!r}: handler ran {len(ev)} times, answer {r.code}'
            e = ev[0]
            want = model.headers([(n, v) for n, _, v, _ in ls])
            if e['headers'] != want:
                diff = {k: (e['headers'].get(k), want.get(k)) for k in set(want) | set(e['headers']) if e['headers'].get(k) != want.get(k)}
                return f'{raw[:400]!r}: header map differs (got, expected): {str(diff)[:600]}'
            got = [[n, v.strip(' \t')] for n, v in e['raw']]
            if got != [[n, v] for n, _, v, _ in ls]:
                return f'{raw[:400]!r}: raw header list is {str(got)[:600]}'
            if len(ls) > 2:
                env.seen([[n, v] for n, _, v, _ in d['lines']])
                env.sample({'lines': [x[0] + ': ' + x[2][:30] for x in d['lines'][:6]], 'map_entries': len(want)})
    finally:
        if sut.alive():
            sut.stop(aid)
    return None
