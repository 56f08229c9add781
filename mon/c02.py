import disp, model, gen, c01
RULE = ('a case interleaves registrations on the server with 1-12 separately built routers mounted at random points (several '
        'routers, empty routers, the same paths inside and outside, failing registrations); the recorded handler runs must '
        'equal those of the same handlers registered inline at the mount points. Non-trivial: at least one mounted handler '
        'must run; distinct by app and request.')
CASES = (24000, 144000)
FLOOR = 5000


def make(rng, i, tier):
    pats, ops = [], []
    rid = 0
    nr = rng.choice([1, 1, 1, 2, 2, 3, 4, 6, 12])
    pstop = rng.choice([0, 0, .05, .15])
    methods = [m.lower() for m in rng.sample(model.METHODS, rng.choice([1, 2, 3, 6]))]
    puse = rng.choice([0, .15, .35])
    climb = rng.choice([0, 0, .1])
    seqs = [[] for _ in range(nr + 1)]
    r = rng.random()
    total = rng.randrange(2, 16) if r < .75 else rng.randrange(16, 60) if r < .96 else rng.randrange(60, 300)
    for _ in range(total):
        rid += 1
        k = rng.randrange(nr + 1)
        seqs[k].append(disp.route(rng, rid, pats, on=None if k == nr else k, puse=puse, pstop=pstop, methods=methods,
                                  climb=climb, deco=.05))
    app = seqs[nr]
    marks = sorted(rng.randrange(len(app) + 1) for _ in range(nr))
    # router k is mounted before app[marks[k]]; its own registrations may be built any time earlier
    pos = 0
    for k in range(nr):
        ops += app[pos:marks[k]]
        pos = marks[k]
        ops += seqs[k]
        ops.append({'op': 'mount', 'router': k})
    ops += app[pos:]
    if rng.random() < .3:
        # build all routers first, then the app
        ops = [o for o in ops if o.get('on') is not None] + [o for o in ops if o.get('on') is None]
    # ids in effective order are irrelevant to the oracle; shuffle them so order of creation is not order of ids
    return {'ops': ops, 'reqs': disp.requests(rng, pats, rng.randrange(6, 26), [m.upper() for m in methods] if rng.random() < .7 else None)}


def check(env, case):
    mounted = sum(1 for o in case['ops'] if o['op'] == 'mount')
    env.add('mounts', mounted)
    return c01.check(env, case, by_vars=True)
