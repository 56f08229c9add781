import gen, model, c09
from core import giants
RULE = ('a case is a batch of requests with extended queries: few names used as plain strings, arrays and objects in random '
        'order, percent-escaped and multi-byte names, keys and values, and names that are prefixes of each other; the '
        'recorded structure must equal the reference. Distinct by query; non-trivial: at least one array or object.')
CASES = (3900, 23400)
FLOOR = 5000


def make_query(rng):
    def nm():
        for _ in range(50):
            s = c09.part(rng, False).replace('=', '').replace('[', '').replace(']', '')
            if s and '%5b' not in s.lower() and '%5d' not in s.lower():
                return s
        return 'n'
    base = [nm() for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < .3:
        base.append(base[0] + 'x')
    if rng.random() < .3:
        # same name spelled with escapes
        base.append(''.join(f'%{b:02x}' for b in model.unpercent(base[0])))
    keys = [nm() for _ in range(rng.choice([1, 2, 3]))] + ['0', 'a']
    items = []
    n = rng.randrange(1, 14) if rng.random() < .95 else rng.choice([40, 100, 300]) if rng.random() < .96 else rng.choice([513, 1001, 1100, 2100])
    kinds = rng.choice([['arr'], ['obj'], ['arr', 'obj'], ['arr', 'obj', 'str'], ['arr', 'obj', 'arr', 'obj', 'str', 'bare', 'empty', 'noname'],
                        ['str', 'arr']])
    for _ in range(n):
        b, k = rng.choice(base), rng.choice(kinds)
        v = c09.part(rng) if rng.random() < .8 else rng.choice(['', '1', 'x'])
        if k == 'arr':
            items.append(f'{b}[]={v}')
        elif k == 'obj':
            items.append(f'{b}[{rng.choice(keys)}]={v}')
        elif k == 'str':
            items.append(f'{b}={v}')
        elif k == 'bare':
            items.append(b)
        elif k == 'empty':
            items.append('')
        else:
            items.append('=' + v)
    return '&'.join(items if n < 40 else [x for x in items if model.equery(x) is not None])


def make(rng, i, tier):
    g = giants(c09.GIANT, c09.CAPS)
    if 12 <= i < 12 + len(g):
        return c09.giant(rng, g[i - 12], True)
    out = []
    while len(out) < 20:
        q = make_query(rng) if not out or rng.random() < .8 else gen.near(rng, out[-1][1])
        if model.equery(q) is None:
            continue
        out.append([rng.choice(c09.PATHS), q, *c09.extra(rng)])
    return {'reqs': out}


def check(env, case):
    return c09.check(env, case, 'equery', model.equery)
