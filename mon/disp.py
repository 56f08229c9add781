"""Dispatch checks C01-C04: one case is an app (registrations) and a batch of requests."""
import random
import core, model, gen
from core import talk, reply_problem, parse_response


def handler(rng, rid, pstop=.12, psend=.6):
    h = {'rid': rid, 'flow': 'stop' if rng.random() < pstop else 'next', 'obs': 'id', 'acts': []}
    if rng.random() < psend:
        h['acts'].append(['send_str', f'r{rid}'])
    if rng.random() < .1:
        h['acts'].append(['panic_if_hdr'])
    return h


def route(rng, rid, pats, on=None, climb=0.0, deco=0.1, puse=.15, pall=.15, methods=None, pstop=.12, pvar=.3):
    r = rng.random()
    op = {'op': 'route', 'h': handler(rng, rid, pstop)}
    if on is not None:
        op['on'] = on
    if r < puse:
        op['method'] = 'use'
        op['path'] = ''
        return op
    op['method'] = 'all' if r < puse + pall else rng.choice(methods or [m.lower() for m in model.METHODS])
    if rng.random() < climb:
        op['path'] = gen.climbing(rng)
        return op
    if pats and rng.random() < .45:
        p = rng.choice(pats)
        if rng.random() < .3:
            p = [(':' + rng.choice(gen.VARNAMES[:4]) + str(i)) if rng.random() < .4 else
                 (x if not x.startswith(':') or rng.random() < .6 else gen.segment(rng)) for i, x in enumerate(p)]
    else:
        p = gen.pattern_segs(rng, pvar)
    pats.append(p)
    op['path'] = gen.decorate(rng, p, registration=True) if rng.random() < deco else gen.plain(p)
    return op


def requests(rng, pats, n, methods=None):
    out = []
    if rng.random() < .01:
        n *= 12
    for _ in range(n):
        if out and rng.random() < .2:  # the same path again, mostly with another method
            m, segs, _ = rng.choice(out)
            if rng.random() < .75:
                m = rng.choice(methods or model.METHODS)
            out.append([m, segs, gen.dress(rng, .4)])
            continue
        if out and rng.random() < .08:  # nearly the same path
            m, segs, _ = out[-1]
            s = gen.near(rng, '/'.join(segs)).split('/')
            if len(s) == len(segs) and all(s):
                out.append([m, s, None])
                continue
        segs = gen.instantiate(rng, rng.choice(pats)) if pats and rng.random() < .85 else \
            [s for s in gen.instantiate(rng, gen.pattern_segs(rng))]
        if rng.random() < .3:
            segs = gen.mutate_segs(rng, segs)
        m = rng.choice(methods or model.METHODS) if rng.random() < .93 else rng.choice(model.OTHER_METHODS)
        out.append([m, segs, gen.dress(rng, .4)])
    return out


GIANT = [('depth', 257), ('depth', 513), ('depth', 1025), ('depth', 5000), ('seg', 1025), ('seg', 4097), ('seg', 8193), ('seg', 33000),
         ('seg', 66000), ('seg', 140000), ('seg', 262145), ('vars', 257), ('vars', 1025), ('vars', 5000)]


CAPS = {'depth': 5000, 'seg': 1 << 20, 'vars': 5000}


def giant(rng, i):
    """Patterns and request segments far longer than usual: (ops, [(method, segments)])."""
    k, n = core.giants(GIANT, CAPS)[i]
    word = lambda n: (''.join(rng.choice('abcdefgXYZ0189-') for _ in range(min(n, 997))) * (n // 997 + 1))[:n]
    w = word(n) if k == 'seg' else 'w'
    if k == 'seg':
        pats = [['s', ':x'], [':x', w], ['s', w], ['s', w[:-1]], [':a', ':b']]
        reqs = [['s', w], ['s', w[:-1]], ['s', w + 'q'], [w, w], [w, w[:-1] + '_']]
    elif k == 'depth':
        pats = [['d'] * n, ['d'] * (n - 1) + [':last'], [':first'] + ['d'] * (n - 1), ['d'] * (n - 1), ['d']]
        reqs = [['d'] * n, ['d'] * (n - 1) + ['e'], ['e'] + ['d'] * (n - 1), ['d'] * (n - 1), ['d'] * (n + 1)]
    else:
        pats = [[f':v{j}' for j in range(n)], [f':u{j}' if j % 2 else f'd{j}' for j in range(n)]]
        reqs = [[f'd{j}' for j in range(n)], [f'e{j}' for j in range(n)], [f'd{j}' for j in range(n - 1)]]
    ops = [{'op': 'route', 'method': rng.choice(['get', 'all']), 'path': gen.plain(p), 'h': handler(rng, j + 1, 0)} for j, p in enumerate(pats)]
    return ops, reqs


def same(rep):
    r, why = parse_response(rep.data)
    return None if why else (r.code, sorted(h for h in r.headers if h[0] != 'Date'), r.body)


def run_batch(env, ops, reqs):
    """reqs: list of (method, target string, dress). -> (results, [(reply, events)])"""
    sut = env.sut
    sut.events()
    i, port, results = sut.start(ops)
    out = []
    toks = []
    again = {}
    rng = random.Random(str([o.get('path') for o in ops[:50]]) + reqs[0][1][:100])
    for m, target, d in reqs:
        gen.disturb(port, target, gen.upset(rng, .03), sut, method=m, drop=False)
        t = env.tok()
        toks.append(t)
        raw = gen.dressed(m, target, [('X-Tok', t)], d)
        out.append(talk(port, raw, sut))
        if len(raw) < 5000 and rng.random() < .06:
            again[t] = [talk(port, raw, sut) for _ in range(rng.choice([1, 1, 2, 4]))]
            env.add('repeated_requests', len(again[t]))
    ev = sut.events()
    sut.stop(i)
    by = {}
    for e in ev:
        if 'rid' in e:
            by.setdefault(e['tok'], []).append([e['rid'], e.get('vars')])
    env.add('handler_runs', sum(len(x) for x in by.values()))
    for t, reps in again.items():
        # the same bytes again: the same handlers again, and the same answer
        runs, k = by.get(t, []), len(reps) + 1
        base = runs[:len(runs) // k]
        first = out[toks.index(t)]
        if base * k != runs:
            return results, None, f'{reqs[toks.index(t)][:2]} sent {k} times ran {runs[:20]}'
        by[t] = base
        if len({str(same(x)) for x in [first] + reps if same(x)}) > 1:
            return results, None, f'{reqs[toks.index(t)][:2]} sent {k} times is answered {[same(x) for x in [first] + reps]}'
    extra = set(by) - set(toks) - {'upset'}
    if extra:
        return results, None, f'handlers ran for requests never sent: {sorted(extra)[:3]}'
    return results, [(r, by.get(t, [])) for r, t in zip(out, toks)], None


def expected(flat, m, segs):
    return [[h['rid'], v] for h, v in model.dispatch(flat, m, segs)]


def describe(ops, limit=40):
    return [(o.get('on'), o.get('method') or o['op'], o.get('path') if 'path' in o else o.get('router'),
             o['h']['rid'] if 'h' in o else None, o['h']['flow'] if 'h' in o else None) for o in ops[:limit]]
