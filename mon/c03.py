import core, disp, model, gen, c01
RULE = ('a case is an app with many variable patterns (overlapping patterns on the same request, all methods, global '
        'handlers, mounted routers) and requests instantiating them, some with a query string; every handler run must see '
        'exactly the variables of its own pattern, bound to the segments as sent. Non-trivial: at least one variable is '
        'bound; distinct by pattern and segments.')
CASES = (24000, 144000)
FLOOR = 5000


def make(rng, i, tier):
    if 12 <= i < 12 + len(core.giants(disp.GIANT, disp.CAPS)):
        ops, reqs = disp.giant(rng, i - 12)
        return {'ops': ops, 'reqs': [['GET', s, None] for s in reqs], 'qs': ['', '?a/b', '', '?', ''][:len(reqs)]}
    pats, ops = [], []
    base = gen.pattern_segs(rng, .4)
    n = rng.randrange(2, 16)
    methods = [m.lower() for m in rng.sample(model.METHODS, rng.choice([1, 2, 3]))]
    for k in range(n):
        if rng.random() < .5:
            # variations of one base pattern: different names on the same segments
            p = []
            for j, x in enumerate(base):
                if rng.random() < .5:
                    p.append(':' + rng.choice(['x', 'y', 'z', 'id', 'n']) + (str(j) if rng.random() < .7 else 'q' * j))
                else:
                    p.append(x)
            names = [x for x in p if x.startswith(':')]
            if len(set(names)) != len(names):
                p = base
            pats.append(p)
            op = {'op': 'route', 'method': rng.choice(methods + ['all']), 'path': gen.plain(p),
                  'h': disp.handler(rng, k + 1, .03)}
            ops.append(op)
        else:
            ops.append(disp.route(rng, k + 1, pats, puse=.15, pstop=.03, methods=methods, deco=.05, pvar=.6))
    if rng.random() < .3:
        cut = rng.randrange(len(ops) + 1)
        for o in ops[cut:]:
            o['on'] = 0
        ops.append({'op': 'mount', 'router': 0})
    reqs = disp.requests(rng, pats, rng.randrange(6, 24), [m.upper() for m in methods])
    qs = [rng.choice(['', '', '', '?', '?a=b', '?x=/y/z', '?a/b', '?:x=1', '?' + 'q' * 600]) for _ in reqs]
    return {'ops': ops, 'reqs': reqs, 'qs': qs}


def check(env, case):
    flat, _ = model.flatten(case['ops'])
    results, got, bad = disp.run_batch(env, case['ops'], [(m, gen.plain(s) + q, d) for (m, s, d), q in zip(case['reqs'], case['qs'])])
    if bad:
        return bad
    for (m, segs, d), q, (rep, ev) in zip(case['reqs'], case['qs'], got):
        want = disp.expected(flat, m, segs)
        env.add('evaluations')
        if ev != want:
            return f'{m} {gen.plain(segs) + q!r} ({d}): handlers ran with {ev}, expected {want}; registrations {disp.describe(case["ops"])}'
        if any(v for _, v in want):
            env.add('bindings', sum(len(v) for _, v in want))
            env.seen([want, [f[1] for f in flat]])
            env.sample({'ops': disp.describe(case['ops'], 6), 'request': [m, gen.plain(segs) + q], 'ran': ev})
    return None
