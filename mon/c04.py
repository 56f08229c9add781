import core, disp, model, gen
from core import reply_problem
RULE = ('a case is an app registered through decorated paths (plus climbing ones, which must be refused) and groups of '
        'request paths that differ only by empty, "." or cancelling ".." segments; all members must run the same handlers '
        'with the same variables as the reference. Climbing request paths must give a complete 400 and no handler run '
        '(a global handler is always registered). Distinct by path string; non-trivial: contains noise or climbs.')
CASES = (18000, 108000)
FLOOR = 4000


GIANT = [('n', n) for n in (257, 513, 1025, 4097, 10001, 33000, 66000)]


def giant(rng, n):
    """Very long noise: thousands of empty, '.' and cancelling segments, and climbs at the far end."""
    ops = [{'op': 'route', 'method': 'use', 'path': '', 'h': {'rid': 0, 'flow': 'next', 'obs': 'id', 'acts': [['send_str', 'g']]}}]
    ops += [{'op': 'route', 'method': 'get', 'path': p, 'h': {'rid': k + 1, 'flow': 'next', 'obs': 'id', 'acts': []}} for k, p in
            enumerate(['/a/b', '/a/:v', '/' + 'x/' * n + '../' * n + 'a/b', '/' + '/' * n + 'a/b', '/' + 'x/../' * n + ':v/b', '/' + 'x/' * n + '../' * (n + 1) + 'a'])]
    r = ['/' * n + 'a/b', '/' + './' * n + 'a/b', '/' + 'x/' * n + '../' * n + 'a/b', '/' + 'x/../' * n + 'a/b', '/a/b' + '/' * n, '/a/' + 'y/..//./' * n + 'b/.', '/a/b' + '/.' * n]
    reqs = [['GET', p, ['a', 'b'], None] for p in r]
    reqs += [['GET', p, None, None] for p in ('/' + '../' * n, '/' + 'x/' * n + '../' * (n + 1) + 'a/b', '/' + 'x/../' * n + '../a/b', '/a/b/' + '/' * n + '../' * 3 + 'a/b')]
    return {'ops': ops, 'reqs': reqs}


def make(rng, i, tier):
    g = core.giants(GIANT, {'n': 70000})
    if 12 <= i < 12 + len(g):
        return giant(rng, g[i - 12][1])
    pats, ops = [], []
    methods = ['get', 'post']
    ops.append({'op': 'route', 'method': 'use', 'path': '', 'h': {'rid': 0, 'flow': 'next', 'obs': 'id', 'acts': [['send_str', 'g']]}})
    for k in range(rng.randrange(1, 12)):
        ops.append(disp.route(rng, k + 1, pats, puse=.1, pstop=.05, methods=methods, deco=.75, climb=.2))
    reqs = []
    for m, segs, d in disp.requests(rng, pats, rng.randrange(3, 9), ['GET', 'POST']):
        reqs.append([m, gen.plain(segs), segs, d])
        for _ in range(rng.randrange(1, 4)):
            reqs.append([m, gen.decorate(rng, segs, rng.choice([None, None, 12]) if rng.random() < .98 else 150), segs, gen.dress(rng, .3)])
    for _ in range(rng.randrange(1, 6)):
        p = gen.climbing(rng)
        if rng.random() < .2:
            p += '?' + rng.choice(['a=b', '', '/x/y/z', 'a/../b'])
        reqs.append([rng.choice(['GET', 'POST', 'PATCH', 'OPTIONS']), p, None, gen.dress(rng, .3)])
    rng.shuffle(reqs)
    return {'ops': ops, 'reqs': reqs}


def check(env, case):
    flat, want_results = model.flatten(case['ops'])
    results, got, bad = disp.run_batch(env, case['ops'], [(m, p, d) for m, p, _, d in case['reqs']])
    if bad:
        return bad
    env.add('registrations', len(results))
    env.add('refused_registrations', results.count(False))
    if results != want_results:
        k = [a == b for a, b in zip(results, want_results)].index(False)
        return f'registration of {case["ops"][k]["path"]!r} returned {"Ok" if results[k] else "Err"}'
    for (m, path, segs, d), (rep, ev) in zip(case['reqs'], got):
        env.add('evaluations')
        r, p = reply_problem(rep)
        if p:
            return f'{m} {path!r} {d or ""}: {p}'
        if segs is None:
            env.add('climbing_requests')
            if ev:
                return f'{m} {path!r} {d or ""} climbs above the root but handlers ran: {ev}'
            if r.code != 400:
                return f'{m} {path!r} {d or ""} climbs above the root and was answered with {r.code}'
            env.seen(path)
            continue
        want = disp.expected(flat, m, segs)
        if ev != want:
            return f'{m} {path!r} {d or ""} (= {gen.plain(segs)!r}): handlers ran with {ev}, expected {want}; registrations {disp.describe(case["ops"])}'
        if path != gen.plain(segs):
            env.seen(path)
            env.sample({'path': path, 'same as': gen.plain(segs), 'ran': ev})
    return None
