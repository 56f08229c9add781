import core, disp, model, gen
from core import reply_problem
RULE = ('a case is a random app (1-400 registrations over all methods, all-method and global handlers, literal and variable '
        'patterns) and a batch of requests derived from its patterns; the recorded handler runs per request must equal the '
        'reference dispatcher. Non-trivial: at least one handler must run and some other registration must not run or must '
        'run after it; distinct by app and request.')
CASES = (21000, 126000)
FLOOR = 5000


def gen_app(rng, i):
    r = rng.random()
    n = rng.randrange(1, 14) if r < .72 else rng.randrange(14, 60) if r < .95 else rng.randrange(60, 400)
    pats, ops = [], []
    pstop = rng.choice([0, .05, .12, .3])
    methods = [m.lower() for m in rng.sample(model.METHODS, rng.choice([1, 2, 3, 6]))]
    puse = rng.choice([0, .1, .15, .4])
    for k in range(n):
        ops.append(disp.route(rng, k + 1, pats, puse=puse, pstop=pstop, methods=methods, deco=.03))
    return ops, pats, [m.upper() for m in methods]


def crowd(rng):
    """More registrations than a 16-bit number counts, a few of which match."""
    ops = []
    n = 66000
    hit = set(rng.sample(range(n), 12)) | set(rng.sample(range(65530, 65545), 5)) | {0, 255, 256, 32767, 32768}
    for k in range(n):
        m, p = rng.choice([('get', '/a'), ('all', '/a'), ('use', ''), ('get', '/:v')]) if k in hit else (rng.choice(['post', 'get', 'put']), f'/z/{k % 97}')
        ops.append({'op': 'route', 'method': m, 'path': p, 'h': {'rid': k, 'flow': 'next', 'obs': 'id', 'acts': []}})
    return {'ops': ops, 'reqs': [['GET', ['a'], None], ['POST', ['a'], None], ['GET', ['b'], None], ['PUT', ['z', '5'], None], ['HEAD', [], None]]}


def make(rng, i, tier):
    if 12 <= i < 12 + len(core.giants(disp.GIANT, disp.CAPS)):
        ops, reqs = disp.giant(rng, i - 12)
        return {'ops': ops, 'reqs': [['GET', s, None] for s in reqs]}
    if i % 10000 == 3:
        return crowd(rng)
    ops, pats, ms = gen_app(rng, i)
    return {'ops': ops, 'reqs': disp.requests(rng, pats, rng.randrange(6, 30), ms if rng.random() < .7 else None)}


def check(env, case, by_vars=False):
    ops, reqs = case['ops'], case['reqs']
    flat, want_results = model.flatten(ops)
    results, got, bad = disp.run_batch(env, ops, [(m, gen.plain(s), d) for m, s, d in reqs])
    if bad:
        return bad
    if results != want_results:
        return f'registration results {results} expected {want_results}; ops {disp.describe(ops)}'
    for (m, segs, d), (rep, ev) in zip(reqs, got):
        want = disp.expected(flat, m, segs)
        env.add('evaluations')
        w, g = ([x[0] for x in want], [x[0] for x in ev]) if not by_vars else (want, ev)
        if w != g:
            return (f'{m} {gen.plain(segs)!r}: ({d}) handlers that ran {g}, expected {w}; registrations '
                    f'{disp.describe(ops)}')
        r, p = reply_problem(rep)
        if p:
            return f'{m} {gen.plain(segs)!r}: {p}'
        if want and len(ops) < 5000 and (len(flat) > len(want) or len(want) > 1):
            env.seen([[o.get('path'), o.get('method'), o.get('on'), o.get('router'), o.get('h', {}).get('flow')] for o in ops] + [m, segs])
            env.sample({'ops': disp.describe(ops, 8), 'request': [m, gen.plain(segs)], 'ran': g})
    return None

