import string
import gen, model, respmodel
from core import giants, talk, reply_problem
RULE = ('a case is an app whose handlers set 0-60 cookies with random names, values and attributes, spread over several '
        'handlers and interleaved with other response operations; two clients alternate with an app without cookies. Each '
        'Set-Cookie line is parsed and compared in order with the cookies added (attribute set, names, values); headers and '
        'body must equal the model without cookies. Distinct by cookie list; non-trivial: at least one cookie.')
CASES = (70000, 420000)
FLOOR = 2000
VCH = string.ascii_letters + string.digits + "!#$%&'()*+-./:<=>?@[]^_`{|}~"


def cookie(rng):
    c = {'name': gen.token(rng, rng.randrange(1, 12)),
         'value': ''.join(rng.choice(VCH) for _ in range(rng.choice([0, 1, 5, 20]) if rng.random() < .97 else 3000))}
    if rng.random() < .15:
        c['value'] = gen.magic_text(rng, c['value'], lambda ch: ch in VCH)
    if rng.random() < .2:
        c['plain'] = 1
        return c
    if rng.random() < .4:
        c['path'] = rng.choice(['/', '/a/b', '/x?', '/é'])
    if rng.random() < .3:
        c['domain'] = rng.choice(['example.com', 'a.b.c', 'localhost'])
    if rng.random() < .3:
        c['max_age'] = rng.choice([0, 1, 60, 3600, 86400 * 365, 2147483648, 999999999])
    if rng.random() < .25:
        c['expires'] = rng.randrange(0, 253402300799)
    if rng.random() < .4:
        c['secure'] = rng.random() < .7
    if rng.random() < .4:
        c['http_only'] = rng.random() < .7
    if rng.random() < .4:
        c['same_site'] = rng.choice(['Strict', 'Lax', 'None'])
    return c


def attrs(c):
    """Expected attributes as a dict of lower-case name to value."""
    if 'plain' in c:
        return {}
    out = {}
    if c.get('http_only'):
        out['httponly'] = None
    if 'same_site' in c:
        out['samesite'] = c['same_site']
    if c.get('secure'):
        out['secure'] = None
    if 'path' in c:
        out['path'] = c['path']
    if 'domain' in c:
        out['domain'] = c['domain']
    if 'max_age' in c:
        out['max-age'] = str(c['max_age'])
    if 'expires' in c:
        out['expires'] = model.http_date(c['expires'])
    return out


def judge_line(c, line):
    items = line.split('; ')
    if items[0] != f'{c["name"]}={c["value"]}':
        return f'cookie {items[0][:80]!r}, expected {c["name"]}={c["value"][:60]}'
    got = {}
    for it in items[1:]:
        k, eq, v = it.partition('=')
        if k.lower() in got:
            return f'attribute {k} twice'
        got[k.lower()] = v if eq else None
    want = attrs(c)
    if c.get('same_site') == 'None' and 'secure' not in want and c.get('secure') is None:
        got.pop('secure', None)  # SameSite=None implies Secure
    if got != want:
        return f'attributes {got}, expected {want}'
    return None


CAPS = {'cookies': 20000, 'value': 2 << 20, 'name': 1 << 20, 'path': 1 << 20, 'domain': 1 << 20}
GIANT = [('cookies', 129), ('cookies', 257), ('cookies', 1025), ('cookies', 5000), ('cookies', 20000), ('value', 4097), ('value', 8193), ('value', 66000), ('value', 1048577),
         ('name', 257), ('name', 5000), ('name', 66000), ('path', 300), ('path', 5000), ('path', 66000), ('domain', 300), ('domain', 66000)]


def giant(rng, kn):
    k, n = kn
    if k == 'cookies':
        cs = [{'name': f'c{j}', 'value': str(j), 'path': '/'} for j in range(n)]
    else:
        c = {'name': 'n', 'value': 'v', 'path': '/', 'domain': 'd', 'secure': True}
        c[k] = ('/' if k == 'path' else '') + (''.join(rng.choice('abcdefgXYZ0189') for _ in range(min(n, 997))) * (n // 997 + 1))[:n]
        cs = [{'name': 'first', 'value': '1'}, c, {'name': 'last', 'value': '2'}]
    return {'hs': [[['cookie', c] for c in cs] + [['send_str', 'body']]], 'd': [None] * 3, 'm': 'GET'}


def make(rng, i, tier):
    g = giants(GIANT, CAPS)
    if 12 <= i < 12 + len(g):
        return giant(rng, g[i - 12])
    hs = []
    for k in range(rng.choice([1, 1, 2, 3])):
        acts = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 6]) if rng.random() < .97 else rng.choice([20, 60])):
            acts.append(['cookie', cookie(rng)])
        if acts and rng.random() < .2:
            acts.append(['cookie', dict(rng.choice(acts)[1])])
        for _ in range(rng.choice([0, 0, 1, 3])):
            acts.insert(rng.randrange(len(acts) + 1), rng.choice([['set', f'X-{rng.randrange(9)}', gen.text(rng, 6).strip(' \t')], ['status', 'Created'],
                        ['send_str', 'early'], ['redirect', '/n'], ['attachment']]))
        hs.append(acts)
    hs[-1].insert(rng.randrange(len(hs[-1]) + 1), ['send_str', gen.text(rng, rng.choice([0, 5, 40, 700]))])
    return {'hs': hs, 'd': [gen.dress(rng, .3) for _ in range(3)], 'm': rng.choice(['GET', 'GET', 'POST', 'PUT', 'DELETE', 'PATCH']), 'up': gen.upset(rng, .12), 'at': [rng.random(), rng.random()]}


def check(env, case):
    sut = env.sut
    hs = case['hs']
    hs = gen.trapped(hs, case.get('at'))
    def app(h):
        return [{'op': 'route', 'method': 'all', 'path': '/c', 'h': {'rid': k, 'flow': 'next', 'obs': 'none', 'acts': a}} for k, a in enumerate(h)] + \
               [{'op': 'route', 'method': 'all', 'path': '/n', 'h': {'rid': 99, 'flow': 'next', 'obs': 'none', 'acts': [x for a in h for x in a if x[0] != 'cookie']}}]
    aid, port, _ = sut.start(app(hs))
    try:
        m = respmodel.Model()
        for a in [x for h in hs for x in h]:
            m.apply(a)
        for path, d in zip(('/c', '/n', '/c'), case['d']):
            gen.disturb(port, '/c', case.get('up', []), sut)
            rep = talk(port, gen.dressed(case['m'], path, [('X-Tok', env.tok())], d), sut)
            env.add('evaluations')
            r, p = reply_problem(rep)
            if p:
                return f'{path}: {p}; handlers {str(hs)[:700]}'
            p = m.compare(r)
            if p:
                return f'{path}: {p}; handlers {str(hs)[:700]}'
            lines = r.all('set-cookie')
            want = m.cookies if path == '/c' else []
            if len(lines) != len(want):
                return f'{path}: {len(lines)} Set-Cookie lines, expected {len(want)}; handlers {str(hs)[:700]}'
            for c, l in zip(want, lines):
                p = judge_line(c, l)
                env.add('cookie_lines')
                if p:
                    return f'{path}: {p}; line {l[:200]!r}, cookie {c}'
            if want:
                env.seen(want)
                env.sample({'lines': [l[:80] for l in lines[:3]], 'cookies': len(want)})
    finally:
        if sut.alive():
            sut.stop(aid)
    return None
