import string
import gen, model
from core import giants, talk, reply_problem, dictionary
RULE = ('a case is a batch of requests with a Cookie header of 0-80 items, well-formed (token names, values of any allowed '
        'character, "=" inside, UTF-8) mixed with malformed ones (no "=", no name, empty), separated by ";" with varying '
        'blanks; the cookies recorded in the handler must equal the reference list in order and the request must be '
        'answered. Requests without the header in between must have none. Distinct by header value; non-trivial: at least '
        'one well-formed cookie.')
CASES = (12000, 72000)
FLOOR = 5000
OPS = [{'op': 'route', 'method': 'use', 'path': '', 'h': {'rid': 1, 'flow': 'next', 'obs': 'full', 'acts': [['send_str', 'x'], ['panic_if_hdr']]}}]
VCH = string.ascii_letters + string.digits + "!#$%&'()*+-./:<=>?@[]^_`{|}~"


def cname(rng):
    if rng.random() < .2:
        return rng.choice(['Path', 'path', 'Expires', 'HttpOnly', 'Secure', 'SameSite', 'Max-Age', 'Domain', '$Version', 'session', 'SID',
                           '__Host-id', '__Secure-x', 'name', 'a', 'A'])
    if rng.random() < .15:
        v = gen.magic_text(rng, '', lambda c: c in model.TOKEN)
        if v:
            return v
    return gen.token(rng, rng.choice([1, 2, 4, 8, 30, 200]) if rng.random() < .1 else rng.randrange(1, 9))


def cvalue(rng):
    r = rng.random()
    if r < .08:
        return ''
    if r < .13:
        return rng.choice(['日本', 'é', 'a b', 'a\u00a0b'.replace('\u00a0', '_'), 'x=y', '=', '==', 'a=', '%20', '%', '%zz', 'Thu, 01 Jan 1970 00:00:00 GMT', 'a,b'])
    if r < .25:
        v = gen.magic_text(rng, ''.join(rng.choice(VCH) for _ in range(rng.randrange(0, 9))), lambda c: c in VCH)
        return v
    n = rng.randrange(1, 30) if rng.random() < .95 else rng.choice([100, 512, 4000])
    v = ''.join(rng.choice(VCH) for _ in range(n))
    if rng.random() < .12:
        j = rng.randrange(0, len(v))
        v = v[:j + 1] + ''.join(rng.choice(gen.UNI) for _ in range(rng.randrange(1, 4))) + rng.choice(VCH) + v[j + 1:]
    return v


CAPS = {'items': 70000, 'value': 10 << 20, 'name': 1 << 20, 'bad': 20000}
GIANT = [('items', 513), ('items', 2049), ('items', 5000), ('items', 10001), ('items', 66000), ('value', 4097), ('value', 8193), ('value', 16385), ('value', 33000),
         ('value', 66000), ('value', 140000), ('value', 1048577), ('value', 2200000), ('value', 8500000), ('name', 300), ('name', 4097), ('name', 66000), ('bad', 5000)]


def giant(rng, kn):
    k, n = kn
    word = lambda n: (''.join(rng.choice(VCH) for _ in range(min(n, 997))) * (n // 997 + 1))[:n]
    if k == 'items':
        v = '; '.join(f'c{j % 5000}={j}' for j in range(n))
    elif k == 'bad':
        v = '; '.join('x' * (j % 5) for j in range(n)) + '; a=b; ' + '; '.join('=' + 'x' * (j % 5) for j in range(n)) + '; c=d'
    elif k == 'value':
        v = f'a={word(n)}; b=c'
    else:
        v = f'{gen.token(rng, n)}=v; b=c'
    return {'reqs': [[v, 'GET', None]], 'hn': 'Cookie'}


def make(rng, i, tier):
    g = giants(GIANT, CAPS)
    if 12 <= i < 12 + len(g):
        return giant(rng, g[i - 12])
    out = []
    for _ in range(20):
        n = rng.choice([0, 1, 1, 2, 3, 5, 8]) if rng.random() < .96 else rng.choice([20, 50, 80]) if rng.random() < .95 else rng.choice([129, 257, 400, 1100])
        items = []
        pm = rng.choice([0, 0, .2, .5])
        for _ in range(n):
            if rng.random() < pm:
                items.append(rng.choice(['foo', '', ' ', '=v', '=', ' =x', 'nothing here', 'a b c', '日本', 'Secure', 'HttpOnly', '==', '= =', '"', '"x', 'x"', 'a "b', '"""']))
            else:
                nm = cname(rng) if not items or rng.random() < .8 else cname(rng)
                items.append(nm + '=' + cvalue(rng))
        if items and rng.random() < .2:
            items.append(rng.choice(items))
        seps = rng.choice([['; '], ['; '], ['; ', ';'], [';'], [';  ', '; ', ' ; ']])
        v = ''
        for k, it in enumerate(items):
            v += (rng.choice(seps) if k else '') + it
        if rng.random() < .08:
            v += rng.choice([';', '; ', ';;'])
        if out and rng.random() < .2 and out[-1][0]:
            v, items = gen.near(rng, out[-1][0]), 1
        out.append([v.strip(' \t') if items or rng.random() < .3 else None, rng.choice(model.METHODS) if rng.random() < .3 else 'GET',
                    gen.dress(rng, .3)])
    return {'reqs': out, 'hn': rng.choice(['Cookie', 'cookie', 'COOKIE']), 'up': [gen.upset(rng, .04) for _ in out]}


def check(env, case):
    sut = env.sut
    sut.events()
    aid, port, _ = sut.start(OPS)
    try:
        for k, (v, meth, d) in enumerate(case['reqs']):
            gen.disturb(port, '/c', case['up'][k] if 'up' in case else [], sut, [('Cookie', 'upset=1; b=2')])
            t = env.tok()
            hs = [('X-Tok', t)] + ([(case['hn'], v)] if v is not None else [])
            rep = talk(port, gen.dressed(meth, '/c', hs, d), sut)
            env.add('evaluations')
            ev = sut.events()
            r, p = reply_problem(rep)
            if p:
                return f'Cookie {v!r:.400}: {p}'
            if len(ev) != 1:
                return f'Cookie {v!r:.400}: handler ran {len(ev)} times, answer {r.code}'
            want = model.cookies(v) if v is not None else []
            got = ev[0]['cookies']
            env.add('cookies', len(got))
            if got != want:
                return f'Cookie {v!r:.400}: handler saw {str(got)[:400]}, expected {str(want)[:400]}'
            if want:
                env.seen(v)
                env.sample({'header': v[:100], 'cookies': len(want)})
    finally:
        if sut.alive():
            sut.stop(aid)
    return None
