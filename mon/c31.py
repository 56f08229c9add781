import gen, model
from core import talk, reply_problem, giants
RULE = ('a case is an app whose handler takes the path of each request as a path value and records its segments, its text, both conversions '
        'to a file system path (as the components the operating system would walk) and, for up to 12 other paths parsed from text, what '
        'joining, subtracting, comparing and matching them gives; requests cover decorated, climbing, multi-byte and percent-encoded '
        'paths, and the other paths are prefixes, extensions, near copies and patterns of them. Everything must equal the operations on '
        'lists of segments. Distinct by (path, other path).')
CASES = (16000, 90000)
FLOOR = 20000
VARIANT = 'paths'
CAPS = {'seg': 1 << 19, 'depth': 5000}
GIANT = [('seg', 257), ('seg', 4097), ('seg', 66000), ('depth', 129), ('depth', 1025), ('depth', 5000)]


def others(rng, segs):
    """Texts of paths related to the segments."""
    out = []
    for _ in range(rng.choice([1, 3, 6, 12])):
        r = rng.random()
        s = list(segs)
        if r < .3:
            s = s[:rng.randrange(len(s) + 1)]
        elif r < .4:
            s += gen.instantiate(rng, gen.pattern_segs(rng))
        elif r < .6 and s:
            k = rng.randrange(len(s))
            s[k] = gen.near(rng, s[k]) or 'x'
            if rng.random() < .3:
                s = s[:k + 1]
        elif r < .85:
            k = rng.randrange(12)
            s = [':' + (f'v{j}' if j != k else '') if rng.random() < .4 else x for j, x in enumerate(s)]
            if rng.random() < .2:
                s = s[:-1] if rng.random() < .5 else s + [':more']
        else:
            s = gen.pattern_segs(rng)
        names = [x for x in s if x.startswith(':')]
        if len(set(names)) != len(names):
            s = [x for x in s if not x.startswith(':')]
        t = gen.decorate(rng, s, registration=True) if rng.random() < .4 else gen.plain(s)
        if rng.random() < .08:
            t = rng.choice(['..', '/..', '/../a', 'a/../..', '/a/../../b', './..', t + '/..' * (len(s) + 1), '../' + t])
        if rng.random() < .2:
            t = t.lstrip('/')
        out.append(t)
    return out


def make(rng, i, tier):
    g = giants(GIANT, CAPS)
    if 12 <= i < 12 + len(g):
        k, n = g[i - 12]
        w = (''.join(rng.choice('abXY01') for _ in range(997)) * (n // 997 + 1))[:n]
        segs = ['a', w, 'b'] if k == 'seg' else ['d'] * n
        return {'reqs': ['/' + '/'.join(segs)], 'others': ['/' + '/'.join(x) for x in (segs[:-1], segs[:1] + [':x'] + segs[2:], segs + ['q'], segs)], 'm': 'GET', 'd': None}
    reqs, txt = [], []
    base = gen.instantiate(rng, gen.pattern_segs(rng))
    for _ in range(6):
        segs = base if rng.random() < .4 else gen.mutate_segs(rng, base) if rng.random() < .5 else gen.instantiate(rng, gen.pattern_segs(rng))
        segs = [s for s in segs if s]
        p = gen.decorate(rng, segs) if rng.random() < .5 else gen.plain(segs)
        if not p.startswith('/') or model.norm(p) is None:
            p = '/'
        reqs.append(p)
        if len(txt) < 12:
            txt += others(rng, segs)
    return {'reqs': reqs, 'others': txt[:12], 'm': rng.choice(model.METHODS), 'd': gen.dress(rng, .2)}


def judge_own(e, s):
    for k, w in (('chunks', s), ('std', s), ('into', s), ('shown', ''.join(x + '/' for x in s)), ('same', True)):
        if e[k] != w:
            return f'{k} is {str(e[k])[:300]}, expected {str(w)[:300]}'
    return None


def judge_other(e, s, t):
    o = model.norm(t)
    if o is None:
        return None if e.get('err') else f'{t!r} leads above the root but is taken as {e["chunks"]}'
    if e.get('err'):
        return f'{t!r} is refused'
    pre = lambda a, b: a[len(b):] if a[:len(b)] == b else None
    want = {'chunks': o, 'std': o, 'eq': o == s, 'cat': s + o, 'cato': s + o, 'tac': o + s, 'sub': pre(s, o), 'bus': pre(o, s), 'matches': match(o, s)}
    if len(o) <= len(s):
        want['starts'] = s[:len(o)] == o
    if len(s) <= len(o):
        want['stratec'] = o[:len(s)] == s
    for k, w in want.items():
        if e[k] != w:
            return f'{k} with {t[:300]!r} is {str(e[k])[:300]}, expected {str(w)[:300]}'
    return None


def match(pat, segs):
    if len(pat) != len(segs):
        return None
    out = {}
    for p, s in zip(pat, segs):
        if p[0] == ':':
            out[p[1:]] = s
        elif p != s:
            return None
    return out


def check(env, case):
    env.sut_args = {'workers': [4, 1, 2, 1][env.worker % 4]}
    sut = env.sut
    sut.events()
    aid, port, _ = sut.start([{'op': 'route', 'method': 'use', 'path': '', 'h': {'rid': 1, 'flow': 'next', 'obs': 'none', 'acts': [['paths', case['others']], ['send_str', 'x']]}}])
    try:
        for p in case['reqs']:
            tok = env.tok()
            rep = talk(port, gen.dressed(case['m'], p, [('X-Tok', tok)], case['d']), sut)
            r, bad = reply_problem(rep)
            if bad:
                return f'{p[:300]!r}: {bad}'
            ev = [e for e in sut.events() if e.get('tok') == tok]
            own, oth = [e['own'] for e in ev if 'own' in e], [e['other'] for e in ev if 'other' in e]
            env.add('evaluations')
            if len(own) != 1 or len(oth) != len(case['others']):
                return f'{p[:300]!r}: {len(own)} and {len(oth)} records, expected 1 and {len(case["others"])}; answer {r.code}'
            segs = model.norm(p)
            bad = judge_own(own[0], segs)
            for e, t in zip(oth, case['others']):
                env.add('pairs')
                bad = bad or judge_other(e, segs, t)
                env.seen([segs, t])
            if bad:
                return f'path {p[:300]!r}: {bad}'
            env.sample({'path': p[:100], 'others': [t[:60] for t in case['others'][:4]]})
    finally:
        if sut.alive():
            sut.stop(aid)
    return None
