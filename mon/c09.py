import random, string
import gen, model
from core import giants, talk, reply_problem, dictionary
RULE = ('a case is a batch of requests whose targets carry random query strings (percent escapes in any case, multi-byte and '
        'ASCII, broken escapes, missing "=", empty names and items, repeated names, "/", "?", ".." inside) on paths with '
        'literal and variable routes; handlers that run must not depend on the query and the recorded map must equal the '
        'reference decoder. Distinct by query string; non-trivial: the map has at least one entry.')
CASES = (7500, 45000)
FLOOR = 5000


def h(rid):
    return {'rid': rid, 'flow': 'next', 'obs': 'full', 'acts': [['send_str', 'x'], ['panic_if_hdr']]}


OPS = [{'op': 'route', 'method': 'get', 'path': '/', 'h': h(1)},
       {'op': 'route', 'method': 'get', 'path': '/q', 'h': h(2)},
       {'op': 'route', 'method': 'all', 'path': '/q/:v', 'h': h(3)},
       {'op': 'route', 'method': 'get', 'path': '/:v', 'h': h(4)}]
PATHS = ['/', '/q', '/q/', '/q/x', '/q/é', '/z', '/q/x/y', '//q', '/q/..', '/a/b/c']
CH = string.ascii_letters + string.digits + '-_.~!*\'(),;:@$/+|"<>\\^`{}#'


def enc(rng, s, p):
    out = ''
    for c in s:
        if rng.random() < p or c in '%&= ?\r\n\t\0' or ord(c) < 32:
            out += ''.join((f'%{b:02x}' if rng.random() < .5 else f'%{b:02X}') for b in c.encode('utf8'))
        else:
            out += c
    return out


def word(rng):
    r = rng.random()
    n = rng.choice([1, 1, 2, 3, 6, 12]) if r < .93 else rng.choice([60, 255, 256, 600, 2000])
    pool = CH if rng.random() < .6 else CH + gen.UNI + ' %&=?#[]\x00\x01\x7f\n'
    return ''.join(rng.choice(pool) for _ in range(n))


def part(rng, brackets=True):
    r = rng.random()
    if r < .12:
        s = rng.choice(dictionary()['str'])
    else:
        s = word(rng)
    if not brackets:
        s = s.replace('[', '').replace(']', '') or 'b'
    s = enc(rng, s, rng.choice([0, 0, .2, 1]))
    if rng.random() < .12:
        j = rng.randrange(len(s) + 1)
        s = s[:j] + rng.choice(['%', '%%', '%4', '%g1', '%1g', '%zz', '%4%31', '%é1', '%1é', '%+1', '%-1', '% 1'.replace(' ', '_'), '%0x']) + s[j:]
    return ''.join(c for c in s if c not in ' \r\n\t\0&' and ord(c) > 32 and ord(c) != 127)


def make_query(rng):
    n = rng.choice([0, 1, 1, 2, 3, 4, 6, 12]) if rng.random() < .97 else rng.choice([64, 100, 257]) if rng.random() < .95 else rng.choice([513, 1001, 1100, 2100])
    names, items = [], []
    for _ in range(n):
        k = rng.random()
        nm = rng.choice(names) if names and k < .25 else part(rng).replace('=', '')
        if nm:
            names.append(nm)
        j = rng.random()
        if j < .72:
            items.append(nm + '=' + part(rng))
        elif j < .8:
            items.append(nm)
        elif j < .86:
            items.append(nm + '=')
        elif j < .9:
            items.append('=' + part(rng))
        elif j < .94:
            items.append('')
        elif j < .97:
            items.append(nm + '=a=b=' + part(rng))
        else:
            items.append(nm + '=x?y/../z?')
    return '&'.join(items if n < 60 else [x for x in items if model.query(x) is not None])


def extra(rng):
    return [rng.choice(model.METHODS) if rng.random() < .3 else 'GET', gen.dress(rng, .25, query=False)]


CAPS = {'items': 70000, 'same': 20000, 'value': 10 << 20, 'esc': 1 << 20, 'name': 1 << 20}
GIANT = [('items', 1025), ('items', 5000), ('items', 10001), ('items', 33000), ('items', 66000), ('value', 4097), ('value', 8193), ('value', 16385), ('value', 33000),
         ('value', 65537), ('value', 140000), ('value', 1048577), ('value', 2200000), ('value', 8500000), ('esc', 8193), ('esc', 66000), ('name', 8193), ('name', 66000), ('same', 10001)]


def giant(rng, kn, brackets=False):
    """One dimension far beyond the usual."""
    k, n = kn
    if k == 'items':
        q = '&'.join((f'k{j}={j}' if not brackets else f'a[]={j}' if n % 2 else f'o[k{j}]={j}') for j in range(n))
    elif k == 'same':
        q = '&'.join(f'k{j % 7}{"" if not brackets else "[]" if j % 2 else "[x]"}=v{j}' for j in range(n))
    elif k == 'value':
        q = ('a=' if not brackets else 'a[]=') + ''.join(rng.choice(CH[:60]) for _ in range(997)) * (n // 997) + 'end&b=c'
    elif k == 'esc':
        q = ('a=' if not brackets else 'a[k]=') + ''.join(f'%{rng.choice("234567")}{rng.choice("0123456789abcde")}' for _ in range(499)) * (n // 499) + 'end&b=c'
    else:
        q = ''.join(rng.choice(CH[:60]) for _ in range(997)) * (n // 997) + ('=v&b=c' if not brackets else '[]=v&b[c]=d')
    return {'reqs': [[rng.choice(PATHS[:4]), q, 'GET', None]]}


def make(rng, i, tier):
    g = giants(GIANT, CAPS)
    if 12 <= i < 12 + len(g):
        return giant(rng, g[i - 12])
    out = []
    while len(out) < 20:
        q = make_query(rng) if not out or not out[-1][1] or rng.random() < .8 else gen.near(rng, out[-1][1])
        if model.query(q) is None:
            continue
        out.append([rng.choice(PATHS), q if rng.random() < .97 else None, *extra(rng)])
    return {'reqs': out}


def check(env, case, key='query', ref=None):
    ref = ref or model.query
    flat, _ = model.flatten(OPS)
    sut = env.sut
    sut.events()
    aid, port, _ = sut.start(OPS)
    try:
        rng = random.Random(str(case['reqs'][0])[:300])
        for path, q, meth, d in case['reqs']:
            gen.disturb(port, '/q/up?left=over&a[]=1', gen.upset(rng, .03), sut)
            t = env.tok()
            target = path if q is None else path + '?' + q
            rep = talk(port, gen.dressed(meth, target, [('X-Tok', t)], d), sut)
            env.add('evaluations')
            ev = sut.events()
            r, p = reply_problem(rep)
            if p:
                return f'{meth} {target[:300]!r} ({d}): {p}'
            want = [[h['rid'], v] for h, v in model.dispatch(flat, meth, model.norm(path))]
            got = [[e['rid'], e['vars']] for e in ev]
            if got != want:
                return f'{meth} {target[:300]!r} ({d}): handlers ran with {got}, expected {want}'
            w = ref(q or '')
            for e in ev:
                env.add('maps_compared')
                env.add('entries', len(w))
                if e[key] != w:
                    diff = {k: (e[key].get(k), w.get(k)) for k in set(w) | set(e[key]) if e[key].get(k) != w.get(k)}
                    return f'{meth} {target[:300]!r} ({d}): {key} differs (got, expected): {str(diff)[:500]}'
                if w:
                    env.seen(q)
                    env.sample({'target': target[:100], 'map': str(w)[:100]})
    finally:
        if sut.alive():
            sut.stop(aid)
    return None
