import zlib
import gen, model
from core import giants, talk, reply_problem, size_pool
RULE = ('a case is a batch of requests with declared body lengths from a pool of boundary sizes (constants of the sources +-1, '
        'powers of two, up to MBs), random contents and head lengths chosen around read-buffer boundaries, some with surplus '
        'bytes, some truncated, in several write patterns; the body digest recorded by the handler and the echoed body must '
        'equal the declared bytes, truncated ones must give a 400 and no run. Distinct by (head length, length, surplus, '
        'truncation, write pattern); non-trivial: declared length > 0 or surplus > 0.')
CASES = (3000, 18000)
FLOOR = 3000
CAPS = {'': 150 << 20}
GIANT = [x << 20 for x in (4, 5, 8, 10, 16, 20, 32, 50, 64, 100, 128)]
OPS = [{'op': 'route', 'method': 'use', 'path': '', 'h': {'rid': 1, 'flow': 'next', 'obs': 'full', 'acts': [['echo_body']]}}]


def make(rng, i, tier):
    out = []
    g = giants(GIANT, CAPS)
    if 12 <= i < 12 + len(g):
        # one far larger body than usual each
        n = g[i - 12] + rng.randrange(1, 9)
        out = [{'n': n, 'pad': 0, 'tgt': None, 'kind': k, 'seed': rng.randrange(1 << 30), 'm': rng.choice(['POST', 'PUT', 'GET']), 'cl': 'Content-Length', 'clv': '{}',
                'parts': rng.choice(['one', 'headbody']), 'dress': None, 'keep': n - 1} for k in (['exact', 'trunc'] if n < 20 << 20 else ['exact'])]
        return {'reqs': out}
    cap = 140000 if tier == 'quick' else 3100000
    pool = size_pool(cap)
    if i % 40 == 0:
        pool = [200000, 262144, 1 << 20, (1 << 20) + 1, 2000003]
    for k in range(16 if i % 40 else 2):
        r = rng.random()
        n = rng.choice(pool) if r < .6 else rng.randrange(0, 40) if r < .8 else rng.randrange(0, 4000)
        # make head length land near a multiple of 512, or head + body
        j = rng.random()
        pad = rng.choice([0, 0, 1, 7]) if j < .3 else rng.randrange(0, 1100)
        tgt = None
        if j > .65:
            tgt = 512 * rng.choice([1, 1, 2, 3, 4, 8]) + rng.randrange(-6, 7) - (n if rng.random() < .4 and n < 4000 else 0)
        kind = rng.choice(['exact', 'exact', 'exact', 'surplus', 'surplus', 'trunc', 'none', 'zero'])
        d = {'n': n, 'pad': pad, 'tgt': tgt, 'kind': kind, 'seed': rng.randrange(1 << 30),
             'm': rng.choice(['POST', 'PUT', 'PATCH', 'DELETE', 'GET']) if rng.random() < .7 else rng.choice(model.METHODS + model.OTHER_METHODS),
             'cl': rng.choice(['Content-Length', 'content-length', 'CONTENT-LENGTH', 'Content-length']),
             'clv': rng.choice(['{}', '{}', '{}', ' {}', '{} ', '\t{}\t', '0{}', '00000{}']),
             'parts': rng.choice(['one', 'one', 'headbody', 'mid', 'tail1', 'chunks']), 'dress': gen.dress(rng, .35, body=False)}
        if rng.random() < .03:
            d['pad'], d['tgt'] = rng.choice(size_pool(70000)), None
        if kind == 'surplus':
            d['extra'] = rng.choice([1, 2, 4, 17, 511, 512, 513, 1000, 3000])
        if kind == 'trunc':
            d['keep'] = rng.choice([0, max(0, n - 1), n // 2, rng.randrange(0, n + 1)])
            if n == 0:
                d['kind'] = 'exact'
            elif rng.random() < .12:  # far more declared than anybody sends
                d['declare'] = rng.choice([1 << 31, (1 << 32) - 1, 1 << 32, 1 << 33, 3 << 40, (1 << 62) - 1, (1 << 63) - 1]) + rng.choice([0, 0, 1, d['keep']])
        if out and rng.random() < .15:
            d = dict(out[-1], seed=rng.randrange(1 << 30), kind='exact')
            d.pop('declare', None)
        out.append(d)
    return {'reqs': out}


def compose(d, tok):
    import random
    rng = random.Random(d['seed'])
    n = d['n'] if d['kind'] not in ('none', 'zero') else 0
    body = gen.random_bytes(rng, n)
    hs = [('Host', 'l'), ('X-Tok', tok)]
    if d['kind'] != 'none':
        hs.insert(rng.randrange(len(hs) + 1), (d['cl'], d['clv'].format(d.get('declare', n))))
    v, t = 'HTTP/1.1', '/b'
    if d['dress']:
        x = d['dress']
        v, t = x['v'], t + ('?' + x['q'] if 'q' in x else '')
        hs = x['pre'] + hs + x['post']

    def head(pad):
        h = f'{d["m"]} {t} {v}\r\n' + ''.join(f'{a}: {b}\r\n' for a, b in hs)
        if pad:
            h += 'P: ' + 'p' * pad + '\r\n'
        return (h + '\r\n').encode()
    pad = d['pad']
    if d['tgt'] is not None:
        pad = max(0, d['tgt'] - len(head(1)) + 1)
    h = head(pad)
    stream = body
    if d['kind'] == 'surplus':
        stream = body + gen.random_bytes(rng, d['extra'])
    elif d['kind'] == 'trunc':
        stream = body[:min(d['keep'], max(0, n - 1))]
    elif d['kind'] in ('none', 'zero') and rng.random() < .5:
        stream = gen.random_bytes(rng, rng.choice([1, 5, 600]))
    raw = h + stream
    p = d['parts']
    if p == 'one' or len(raw) < 3:
        parts = [raw]
    elif p == 'headbody':
        parts = [h, stream] if stream else [h]
    elif p == 'mid':
        c = rng.randrange(1, len(raw))
        parts = [raw[:c], raw[c:]]
    elif p == 'tail1':
        parts = [raw[:-1], raw[-1:]]
    else:
        cuts = sorted({rng.randrange(1, len(raw)) for _ in range(5)})
        parts = [raw[a:b] for a, b in zip([0] + cuts, cuts + [len(raw)])]
    return body, h, stream, parts


def check(env, case):
    sut = env.sut
    sut.events()
    aid, port, _ = sut.start(OPS)
    try:
        for d in case['reqs']:
            tok = env.tok()
            body, h, stream, parts = compose(d, tok)
            rep = talk(port, parts, sut, half=d['kind'] == 'trunc', delay=.002 if len(parts) > 1 else 0)
            env.add('evaluations')
            env.add('kind_' + d['kind'])
            ev = [e for e in sut.events() if e.get('tok') == tok]
            what = f'{d} (head {len(h)} bytes, {len(stream)} bytes after it)'
            r, p = reply_problem(rep, surplus=len(stream) > len(body))
            if p:
                return f'{what}: {p}'
            if d['kind'] == 'trunc':
                if ev:
                    return f'{what}: a handler ran on a truncated body, seeing {ev[0]["blen"]} of {d["n"]} bytes'
                if r.code != 400:
                    return f'{what}: truncated body answered with {r.code}'
            else:
                if len(ev) != 1:
                    return f'{what}: handler ran {len(ev)} times (answer {rep!r})'
                e = ev[0]
                env.add('body_bytes', e['blen'])
                if e['blen'] != len(body) or e['badler'] != zlib.adler32(body):
                    return f'{what}: handler saw a body of {e["blen"]} bytes, digest {e["badler"]}; declared {len(body)}'
                if r is not None and r.body != body:
                    return f'{what}: echoed body differs ({len(r.body)} bytes)'
            if d['n'] or stream:
                env.seen([len(h), len(body), len(stream), d['kind'], [len(x) for x in parts]])
                env.sample({k: d[k] for k in ('kind', 'n', 'm', 'parts')} | {'head_bytes': len(h), 'answer': r and r.code})
    finally:
        if sut.alive():
            sut.stop(aid)
    return None
