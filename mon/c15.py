import calendar, datetime, random, time
import gen, model
from core import talk, reply_problem, connect
RULE = ('a case is a batch of instants set as the system clock of the server process (CLOCK_REALTIME, time and gettimeofday '
        'are substituted): every day of a range of years at random seconds and at both ends of the day, all month ends, leap '
        'days and century boundaries, jumps forward and backward between responses, and the real clock. The Date header, on '
        'the wire or of a Response, must be the HTTP date of exactly that instant. Distinct by instant.')
CASES = (2400, 14400)
FLOOR = 500000
END = 253402300800
DAYS = END // 86400
SPAN = 1500  # days per exhaustive batch


def h(*acts):
    return {'rid': 1, 'obs': 'none', 'flow': 'next', 'acts': list(acts)}


OPS = [{'op': 'route', 'method': 'all', 'path': p, 'h': h(*a)} for p, a in {
    '/': [['send_str', 'x']], '/file': [['send_file', '/etc/passwd']], '/red': [['redirect', '/a'], ['send_str', '']],
    '/cookie': [['cookie', {'name': 'a', 'value': 'b'}], ['send_str', 'c']], '/status': [['status', 'Created'], ['send_str', 'd']],
    '/size': [['send_size', 70000, 3]], '/twice': [['send_str', 'one'], ['default_headers'], ['send_str', 'two']], '/empty': [['send_str', '']],
    '/v10': [['http_version', '1.0'], ['send_str', 'e']], '/type': [['with_type', 'text/html'], ['send_str', 'f']]}.items()]
PATHS = ['/'] * 6 + [o['path'] for o in OPS]


def boundaries():
    out = []
    for y in range(1970, 10000):
        for mo in range(1, 13):
            t = (datetime.date(y, mo, 1).toordinal() - 719163) * 86400
            out += [t - 1, t]
    return [t for t in out if 0 <= t < END]


_b = []


def make(rng, i, tier):
    if not _b:
        _b.extend(boundaries())
    nspan = -(-DAYS // SPAN)
    if i % 8 == 7 and i < 400:
        return {'kind': 'wire', 'ts': [pick(rng) for _ in range(30)]}
    if i % 8 == 6 and i < 400:
        # steps as a cache would see them: same second, one second on, wrap of minutes, back again
        t = pick(rng)
        ts = [t]
        for _ in range(40):
            t = max(0, min(END - 1, t + rng.choice([0, 0, 1, 1, 1, 2, -1, 59, 60, 61, 3600, -60, 86400, -86400])))
            ts.append(t)
        return {'kind': 'wire', 'ts': ts}
    if i % 8 == 5 and i < 400:
        return {'kind': 'real', 'n': 5}
    if i % 8 == 4 and i < 400:
        return {'kind': 'list', 'ts': rng.sample(_b, 2000)}
    if i % 8 == 3 and i < 400:
        return {'kind': 'secs', 't0': pick(rng) // 86400 * 86400, 'step': 8 if tier == 'quick' else 1, 'first': rng.randrange(8)}
    return {'kind': 'days', 'lo': i % nspan * SPAN, 'hi': min(DAYS, (i % nspan + 1) * SPAN), 'off': rng.randrange(86400),
            'one': tier == 'quick'}


def pick(rng):
    r = rng.random()
    if r < .3:
        return rng.choice(_b)
    if r < .5:
        y = rng.choice([1972, 2000, 2024, 2096, 2100, 2104, 2200, 2300, 2400, 2800, 3000, 4000, 9996, 9999, 1999, 2038])
        return calendar.timegm((y, rng.choice([1, 2, 2, 3, 12]), rng.choice([1, 28, 28]), 0, 0, 0)) + rng.choice([-1, 0, 86399, 86400, 172799])
    if r < .7:
        return rng.randrange(0, 4102444800)
    return rng.randrange(0, END)


def check(env, case):
    sut = env.sut
    if case['kind'] in ('days', 'list', 'secs'):
        if case['kind'] == 'days':
            ts = []
            for d in range(case['lo'], case['hi']):
                x = [d * 86400, d * 86400 + 86399, d * 86400 + (case['off'] + d * 7919) % 86400]
                ts += [x[d % 3]] if case['one'] else x
        elif case['kind'] == 'secs':
            ts = [case['t0'] + s for s in range(case['first'] % case['step'], 86400, case['step'])]
        else:
            ts = case['ts']
        got = sut.cmd('dates', ts=ts)['dates']
        env.add('evaluations', len(ts))
        env.add('instants_api', len(ts))
        for t, g in zip(ts, got):
            if g != model.http_date(t):
                return f'Date for instant {t} is {g!r}, expected {model.http_date(t)!r}'
        for t in ts[::7]:
            env.seen(str(t))
        if case['kind'] == 'days':
            env.add('days', case['hi'] - case['lo'])
        return None
    aid, port, _ = sut.start(OPS)
    try:
        for t in case.get('ts', range(case.get('n', 0))):
            if case['kind'] == 'wire':
                sut.cmd('clock', t=t)
            a = int(time.time())
            rng = random.Random(f'{t}:{case.get("seed")}')
            path = rng.choice(PATHS)
            raw = gen.dressed(rng.choice(['GET', 'GET', 'GET', 'POST', 'PUT']), path, [], gen.dress(rng, .3))
            if case['kind'] == 'wire' and rng.random() < .35:
                # the clock moves while the request is under way
                s = connect(port)
                if rng.random() < .7:
                    sut.cmd('clock', t=max(0, min(END - 1, t + rng.choice([-1, 1, -7, 60, -86400, 40000000]))))
                    cut = rng.choice([0, 1, len(raw) // 2, len(raw) - 1])
                    s.sendall(raw[:cut])
                    time.sleep(.003)
                    sut.cmd('clock', t=t)
                    raw = raw[cut:]
                rep = talk(port, raw, sut, sock=s)
                env.add('clock_moved_midway')
            else:
                rep = talk(port, raw, sut)
            b = int(time.time())
            env.add('evaluations')
            env.add('on_wire_' + case['kind'])
            r, p = reply_problem(rep)
            if p:
                return f'clock {t}, {path}: {p}'
            want = [model.http_date(t)] if case['kind'] == 'wire' else [model.http_date(x) for x in range(a, b + 1)]
            if r.all('Date') == [] or any(x not in want for x in r.all('Date')) or len(r.all('Date')) > 1:
                return f'clock {t if case["kind"] == "wire" else "real"}, {path}: Date {r.all("Date")}, expected {want}'
            env.seen('w' + str(t))
            env.sample({'clock': t, 'date': want[0]})
            if case['kind'] == 'real':
                time.sleep(.31)
    finally:
        if sut.alive():
            sut.cmd('clock', t=None)
            sut.stop(aid)
    return None
