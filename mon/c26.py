import c12, disp, gen, heads, model
from core import Sut, VERIF, build_sut, talk, reply_problem, parse_response, pick_port, size_pool, Died, Inconclusive
RULE = ('a case is an app (literal and variable patterns, mounted routers, handlers with random response operations that use no '
        'optional feature) and a batch of well-formed (and, on builds with the strictness feature, malformed) requests, some with a query or cookies that no handler looks at, replayed on eleven '
        'builds of the crate: no features, default, all, each single feature, rustls, OpenSSL. Handler runs, what handlers see '
        '(method, version, header map, body) and the responses (Date aside) must be equal on all builds; where patterns with '
        'variables are registered, builds without URL variables must behave as if those handlers did not exist. Distinct by '
        'app and request; evaluations are exchanges compared between builds.')
CASES = (1200, 20000)
FLOOR = 3000
CAP = (110, 780)
NAMES = ['full', 'min', 'default', 'rustls', 'openssl', 'f_faithful', 'f_raw_headers', 'f_query_strings', 'f_extended_queries', 'f_cookies', 'f_url_variables']
STRICT = {'full', 'default', 'rustls', 'openssl', 'f_faithful'}  # strictness about malformed heads is what the faithful feature is for
VARS = {'full', 'default', 'rustls', 'openssl', 'f_url_variables'}
SUTS = {}


def build():
    return {k: build_sut(k) for k in NAMES}


def make(rng, i, tier):
    pats, ops = [], []
    pvar = rng.choice([0, 0, .3, .5])
    routers = rng.choice([0, 0, 1, 2])
    n = rng.choice([1, 3, 6, 12, 25])
    used = []
    for k in range(n):
        on = rng.choice([None] + list(range(1, routers + 1)))
        op = disp.route(rng, k + 1, pats, on=on, climb=.04, puse=.2, pall=.25, pstop=.2, pvar=pvar)
        op['h']['obs'] = 'full'
        acts = [c12.act(rng, used, tier, 20000) for _ in range(rng.choice([0, 1, 2, 4]))]
        if rng.random() < .6:
            acts.append(rng.choice([['echo_body'], c12.body_act(rng, tier, 20000), ['send_str', f'r{k}']]))
        op['h']['acts'] = acts
        ops.append(op)
        if routers and rng.random() < .1:
            ops.append({'op': 'mount', 'router': rng.randrange(1, routers + 1)})
    for k in range(1, routers + 1):
        ops.append({'op': 'mount', 'router': k})
    seen = set()
    ops = [o for o in ops if o['op'] != 'mount' or not (o['router'] in seen or seen.add(o['router']))] if rng.random() < .5 else ops
    c12.fix([o['h']['acts'] for o in ops if 'h' in o])
    reqs = []
    for m, segs, _ in disp.requests(rng, pats, rng.choice([4, 8, 14])):
        if pvar and pats and rng.random() < .15:  # the pattern's own text
            own = rng.choice(pats)
            segs = segs if any(c in s for s in own for c in ' ?#%') else list(own)
        t = gen.decorate(rng, segs) if rng.random() < .2 else gen.plain(segs)
        hs = [[gen.token(rng), gen.text(rng, rng.randrange(0, 30)).strip(' \t')] for _ in range(rng.choice([0, 1, 3, 8]))]
        hs = [h for h in hs if h[0].lower() not in ('cookie', 'content-length', 'host', 'transfer-encoding', 'expect')]
        hs += gen.lines(rng, .4)
        if hs and rng.random() < .3:
            hs.append([hs[0][0].swapcase(), 'again'])
        # the values of features nobody looks at: still headers, still not part of the path
        if rng.random() < .3:
            hs.insert(rng.randrange(len(hs) + 1), [rng.choice(['Cookie', 'cookie', 'COOKIE']), rng.choice(['', 'a=b', 'a=b; c=d', ';', '=', 'a', 'a=b;c', gen.text(rng, 12).strip(' \t')])])
        q = '?' + ''.join(c for c in rng.choice(gen.QUERIES) if c > ' ') if '?' not in t and rng.random() < .3 else ''
        body = gen.random_bytes(rng, rng.choice(size_pool(70000) if rng.random() < .2 else [0, 0, 1, 10, 300])) if rng.random() < .5 else b''
        v = rng.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0'])
        raw = gen.request(m, t + q, [('X-Tok', 'TOK')] + hs, body, v)
        reqs.append([m, t, raw.hex()])
    for _ in range(rng.choice([0, 2, 4])):
        k, raw = heads.malformed(rng, 'TOK')
        if heads.classify(raw)[0] in ('bad', 'method'):
            reqs.append([None, k, raw.hex()])
    rng.shuffle(reqs)
    return {'ops': ops, 'reqs': reqs}


def view(rep, raw):
    r, p = reply_problem(rep, heads.has_surplus(raw))
    if p:
        return None, p
    if r is None:
        return 'cut', None
    return [r.version, r.code, r.reason, sorted((n, v) for n, v in r.headers if n != 'Date'), r.body.hex()], None


def pick(e):
    return {k: e.get(k) for k in ('rid', 'method', 'version', 'headers', 'blen', 'bfnv')}


def sut_for(env, v):
    if v not in SUTS or not SUTS[v].alive():
        SUTS[v] = Sut(env.binary[v], workers=2)
    return SUTS[v]


def run(env, v, case):
    sut = sut_for(env, v)
    sut.events()
    ops = [{'op': 'ssl', 'port': pick_port(__import__('random')), 'key': VERIF + '/tls/key.pem', 'cert': VERIF + '/tls/cert.pem'}] + case['ops']
    try:
        aid, port, res = sut.start(ops)
        out = []
        for m, t, hx in case['reqs']:
            raw = bytes.fromhex(hx)
            rep = talk(port, raw, sut, half=b'\r\n\r\n' not in raw)
            out.append((rep, [pick(e) for e in sut.events() if 'rid' in e]))
        sut.stop(aid)
        return res[1:], out
    except (Died, OSError):
        if not sut.alive():
            del SUTS[v]
            raise Died(f'the server built as {v} died: {sut.death()}')
        raise


def check(env, case):
    flat, want_res = model.flatten(case['ops'])
    has_var = any(p and any(s.startswith(':') for s in p) for _, p, _ in flat)
    got = {v: run(env, v, case) for v in NAMES}
    if 'rustls' in SUTS:  # TLS listeners outlive their servers: start afresh now and then
        env.add('builds', len(NAMES))
        env.tokn += 1
        if env.tokn % 25 == 0:
            for v in ('rustls', 'openssl'):
                SUTS.pop(v).kill()
    for v in NAMES:
        if got[v][0] != want_res:
            return f'registration results with {v}: {got[v][0]}, expected {want_res}; {disp.describe(case["ops"])}'
    for n, (m, t, hx) in enumerate(case['reqs']):
        raw = bytes.fromhex(hx)
        ref = {}
        for v in NAMES:
            if m is None and v not in STRICT and t not in ('trunc', 'nohost', 'method'):
                continue
            rep, ev = got[v][1][n]
            env.add('evaluations')
            what = f'{v}: {raw[:200]!r}'
            w, p = view(rep, raw)
            if p:
                return f'{what}: {p}'
            if w == 'cut':
                continue
            ran = [e['rid'] for e in ev]
            if m is None:
                want = []
            else:
                want = [h['rid'] for h, _ in model.dispatch(flat, m, model.norm(t), v in VARS)]
            if ran != want:
                return f'{what}: handlers {ran} ran, expected {want}; registrations {disp.describe(case["ops"])}'
            g = v in VARS if has_var else True
            if g not in ref:
                ref[g] = (v, ev, w)
                continue
            rv, rev, rw = ref[g]
            if ev != rev:
                return f'{what}: handlers saw {ev}, with {rv} they saw {rev}'
            if w != rw:
                return f'{what}: answered {str(w)[:400]}, with {rv} it is {str(rw)[:400]}'
        env.seen([case['ops'], hx])
        env.sample({'request': raw[:100].decode('latin1'), 'ran': [e['rid'] for e in got['min'][1][n][1]]})
    return None
