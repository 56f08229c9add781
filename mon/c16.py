import asyncio, json, random, socket, struct, time
import gen, model
from core import build_sut, pattern, fnv, parse_response, Inconclusive
RULE = ('a case is a burst of 40-260 concurrent connections from one epoll client to a server with 1, 2, 4 or 8 worker threads: '
        'mostly complete requests whose every part depends on a token (body, headers, variables, query, cookies), mixed with '
        'malformed, aborted, reset and panicking ones, each in randomly timed segments, with random handler delays. Each '
        'response must be the one computed from its own request, and the server-wide event log must show each complete '
        'request exactly once and no incomplete one. Two of the six drivers run a ThreadSanitizer build whose reports are '
        'violations. Distinct by the order in which handlers ran (interleaving).')
CASES = (300, 1800)
FLOOR = 2000
OPS = [
    {'op': 'route', 'method': 'use', 'path': '', 'h': {'rid': 1, 'flow': 'next', 'obs': 'tok', 'acts': [['sleep_hdr'], ['panic_if_hdr']]}},
    {'op': 'route', 'method': 'post', 'path': '/d', 'h': {'rid': 2, 'flow': 'stop', 'obs': 'tok', 'acts': [['digest']]}},
    {'op': 'route', 'method': 'put', 'path': '/e/:v/x/:w', 'h': {'rid': 3, 'flow': 'next', 'obs': 'tok', 'acts': [['sleep_hdr'], ['echo_req'], ['cookie', {'name': 'c', 'value': 'own'}]]}},
    {'op': 'route', 'method': 'all', 'path': '/b', 'h': {'rid': 4, 'flow': 'next', 'obs': 'tok', 'acts': [['echo_body'], ['status', 'Created'], ['set', 'X-S', 's']]}},
    {'op': 'route', 'method': 'all', 'path': '/t', 'h': {'rid': 5, 'flow': 'next', 'obs': 'tok', 'acts': [['echo_tok'], ['redirect', '/elsewhere']]}},
    {'op': 'route', 'method': 'all', 'path': '/n', 'h': {'rid': 6, 'flow': 'next', 'obs': 'tok', 'acts': [['status', 'Accepted'], ['set', 'X-N', 'n']]}},
]


def build():
    return [build_sut('full'), build_sut('full', 'tsan'), build_sut('full', 'asan')]


def make(rng, i, tier):
    return {'seed': rng.randrange(1 << 40), 'n': rng.choice([40, 80, 120, 200, 260]), 'calm': rng.random() < .3, 'fast': rng.random() < .4,
            'sleepy': rng.random() < .5}


def compose(rng, tok, case):
    """One connection: kind, request bytes, expectation."""
    k = rng.choice('ddeebbttnn')
    hs = [('X-Tok', tok)]
    if case['sleepy'] and rng.random() < .5:
        hs.append(('X-Sleep-Us', str(rng.choice([10, 100, 1000, 3000]))))
    kind = 'ok'
    if not case['calm']:
        kind = rng.choices(['ok', 'malformed', 'cuthead', 'cutbody', 'reset', 'panic', 'half'], [70, 6, 6, 5, 5, 3, 5])[0]
    body = b''
    if rng.random() < .6 or k in 'db' or kind == 'cutbody':
        n = rng.choice([0, 1, 10, 100, 511, 512, 513, 1500, 4000]) if rng.random() < .9 else rng.choice([20000, 70000])
        body = (tok.encode() + b'|') * (n // (len(tok) + 1)) + rng.randbytes(n % (len(tok) + 1))
        if kind == 'cutbody' and len(body) < 2:
            body = tok.encode() + b'zz'
    exp = {'rids': [1]}
    if kind == 'panic':
        hs.append(('X-Panic', '1'))
    if k == 'd':
        n = rng.choice([0, 1, 50, 500, 2000])
        hs.append(('X-Out', str(n)))
        m, t = 'POST', '/d'
        exp.update(rids=[1, 2], code=200, body=f'{tok}|{len(body)}|{fnv(body) if len(body) < 5000 else 0:016x}|'.encode() + pattern(n, fnv(tok.encode())),
                   hdr={'X-Tok': tok, 'X-Len': str(len(body))}, nodigest=len(body) >= 5000)
    elif k == 'e':
        a, b = tok + 'a' * rng.randrange(0, 20), 'w' + tok
        q = f'q={tok}&r%20={tok}2'
        hs += [('Cookie', f'id={tok}; s=1{tok}'), ('X-Dup', 'a' + tok), ('x-dup', 'b')]
        m, t = 'PUT', f'/e/{a}/x/{b}?{q}'
        exp.update(rids=[1, 3], code=200, echo={'method': 'Put', 'vars': {'v': a, 'w': b}, 'query': {'q': tok, 'r ': tok + '2'},
                   'cookies': [['id', tok], ['s', '1' + tok]], 'blen': len(body)}, cookie=True)
    elif k == 'b':
        m, t = rng.choice(['POST', 'PUT', 'PATCH', 'GET', 'DELETE']), '/b'
        exp.update(rids=[1, 4], code=201, body=body, hdr={'X-S': 's'})
    elif k == 't':
        m, t = rng.choice(['POST', 'PUT', 'PATCH', 'GET', 'DELETE']), '/t?x=' + tok
        exp.update(rids=[1, 5], code=302, body=tok.encode(), hdr={'Location': '/elsewhere'})
    else:
        m, t = rng.choice(['POST', 'PUT', 'PATCH', 'GET', 'DELETE']), rng.choice(['/n', '/absent/' + tok])
        exp.update(rids=[1, 6] if t == '/n' else [1], code=404)
    if rng.random() < .3:
        hs.append(('X-Pad', 'p' * rng.randrange(0, 1500)))
    hs += [tuple(x) for x in gen.lines(rng, .25)]
    rng.shuffle(hs)
    raw = gen.request(m, t, hs, body)
    hl = [('Host', 'localhost')] + hs + ([('Content-Length', str(len(body)))] if body else [])
    if 'echo' in exp:
        exp['echo']['headers'] = model.headers(hl)
        exp['echo']['raw'] = [[n, v] for n, v in hl]
        if len(body) <= 4096:
            exp['echo']['body'] = body.hex()
    if kind == 'malformed':
        raw = rng.choice([raw.replace(b'X-Tok:', b'X-Tok', 1), raw.replace(b' HTTP/1.1', b'', 1), raw.replace(b'Host:', b'Hoist:', 1)])
        exp = {'rids': [], 'code': 400}
    elif kind == 'cuthead':
        raw = raw[:rng.randrange(1, raw.index(b'\r\n\r\n') + 3)]
        exp = {'rids': []}
    elif kind == 'cutbody':
        raw = raw[:rng.randrange(raw.index(b'\r\n\r\n') + 4, len(raw))]
        exp = {'rids': []}
    elif kind == 'panic':
        exp = {'rids': [1]}
    return kind, raw, exp


async def client(rng, port, kind, raw, case):
    await asyncio.sleep(0 if case['fast'] else rng.random() * .15)
    s = socket.socket()
    s.setblocking(False)
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    loop = asyncio.get_running_loop()
    buf = b''
    try:
        await loop.sock_connect(s, (f'127.0.0.{rng.randrange(1, 200)}', port))
        k = rng.choice([1, 1, 2, 3, 6])
        cuts = sorted({rng.randrange(1, len(raw)) for _ in range(k - 1)}) if len(raw) > 1 else []
        if kind == 'malformed':
            cuts = []
        for a, b in zip([0] + cuts, cuts + [len(raw)]):
            await loop.sock_sendall(s, raw[a:b])
            if b < len(raw):
                await asyncio.sleep(rng.choice([0, 0, .001, .01, .03]))
        if kind in ('cuthead', 'cutbody', 'reset'):
            await asyncio.sleep(rng.choice([0, .001, .01]))
            if rng.random() < .7 or kind == 'reset':
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            return None, 'left'
        if kind == 'half':
            s.shutdown(socket.SHUT_WR)
        if rng.random() < .2:
            await asyncio.sleep(rng.random() * .05)
        while True:
            d = await loop.sock_recv(s, rng.choice([1, 100, 65536, 65536]) if len(buf) < 300 else 65536)
            if not d:
                return buf, 'eof'
            buf += d
    except ConnectionError:
        return buf, 'reset'
    finally:
        s.close()


async def run(case, port, conns):
    res = [None] * len(conns)

    async def one(i):
        tok, kind, raw, exp = conns[i]
        try:
            res[i] = await asyncio.wait_for(client(random.Random(f'{case["seed"]}:{i}'), port, kind, raw, case), 60)
        except asyncio.TimeoutError:
            res[i] = (b'', 'timeout')
    await asyncio.gather(*[one(i) for i in range(len(conns))])
    return res


def check(env, case):
    if isinstance(env.binary, list):
        env.tsan, env.asan = env.worker < 2, env.worker == 2
        env.binary = env.binary[1 if env.tsan else 2 if env.asan else 0]
        env.sut_args = {'workers': [4, 2, 1, 2, 4, 8][env.worker % 6]}
        if env.asan:
            env.sut_args['env'] = {'ASAN_OPTIONS': 'halt_on_error=0 detect_leaks=0 allocator_may_return_null=1'}
        if env.tsan:
            env.sut_args['env'] = {'TSAN_OPTIONS': 'halt_on_error=0 exitcode=0 report_signal_unsafe=0'}
    rng = random.Random(case['seed'])
    n = case['n'] if not env.tsan else min(case['n'], 60)
    conns, twins = [], {}
    for i in range(n):
        tok = f'{env.tok()}k{rng.randrange(1 << 32):x}'
        conns.append((tok, *compose(rng, tok, case)))
        if conns[-1][1] == 'ok' and rng.random() < .12:  # the very same bytes on several connections
            k = rng.choice([1, 2, 5])
            twins[tok] = k + 1
            conns += [conns[-1]] * k
    if rng.random() < .5:
        rng.shuffle(conns)
    n = len(conns)
    sut = env.sut
    sut.events()
    aid, port, _ = sut.start(OPS)
    try:
        c0 = sut.cpu()
        res = asyncio.run(run(case, port, conns))
        # clients that left: wait until the server has finished with them
        settle(sut)
        ev = sut.events()
    finally:
        if sut.alive():
            sut.stop(aid)
    runs, done = {}, set()
    for e in ev:
        runs.setdefault(e['tok'], []).append(e['rid'])
    for (tok, kind, raw, exp), (data, end) in zip(conns, res):
        env.add('evaluations')
        env.add('conn_' + kind + ('_tsan' if env.tsan else '_asan' if env.asan else ''))
        ran = runs.get(tok, [])
        if tok in twins and sorted(ran) == sorted(exp['rids'] * twins[tok]):
            ran = exp['rids']
            env.add('identical_requests')
        done.add(tok)
        p = judge_one(tok, kind, raw, exp, data, end, ran)
        if p:
            return f'{kind} request {tok} among {n} ({env.sut_args}): {p}; request {raw[:300]!r}, answer {(data or b"")[:300]!r} ({end})'
    if set(runs) - done:
        return f'handlers ran for requests that were never sent: {set(runs) - done}'
    order = [e['tok'].split('k')[0] for e in ev]
    env.seen(order)
    env.add('handler_runs', len(ev))
    nums = [int(x.split('x')[1]) for x in order]
    env.add('order_inversions', sum(1 for a, b in zip(nums, nums[1:]) if a > b))
    env.sample({'connections': n, 'first_runs': order[:12], 'server': str(env.sut_args), 'tsan': env.tsan})
    if env.tsan:
        err = sut.stderr()
        k = err.find('WARNING: ThreadSanitizer')
        if k >= 0:
            return 'ThreadSanitizer: ' + err[k:k + 2500]
    if env.asan:
        err = sut.stderr()
        k = err.find('ERROR: AddressSanitizer')
        if k >= 0:
            return 'AddressSanitizer: ' + err[k:k + 2500]
    return None


def settle(sut):
    t0 = time.monotonic()
    base = None
    while time.monotonic() - t0 < 20:
        s = sut.sockets()
        c = sut.cpu()
        if base is not None and s == base[0] and c - base[1] <= 1:
            if s <= 3 or time.monotonic() - t0 > 3:
                return
        base = (s, c)
        time.sleep(.03)


def judge_one(tok, kind, raw, exp, data, end, ran):
    if kind == 'reset':
        return None if ran in ([], exp['rids']) else f'handlers {ran} ran, expected {exp["rids"]} or none'
    if ran != exp['rids']:
        return f'handlers {ran} ran, expected {exp["rids"]}'
    if end == 'left':
        return None
    if end == 'timeout':
        raise Inconclusive('no answer within 60 s')
    if kind == 'panic':
        return 'bytes received from a panicking handler' if data else None
    r, why = parse_response(data)
    if why:
        if kind == 'malformed' and end == 'reset':
            return None  # unread body bytes at close (known finding F1)
        return why
    if r.code != exp['code']:
        return f'status {r.code}, expected {exp["code"]}'
    if 'body' in exp:
        if exp.get('nodigest'):
            a, b = r.body.split(b'|', 3), exp['body'].split(b'|', 3)
            if len(a) != 4 or a[0] != b[0] or a[1] != b[1] or a[3] != b[3]:
                return 'body differs'
        elif r.body != exp['body']:
            return f'body differs: {r.body[:100]!r}, expected {exp["body"][:100]!r}'
    for h, v in exp.get('hdr', {}).items():
        if r.all(h) != [v]:
            return f'header {h}: {r.all(h)}, expected {v}'
    if exp['code'] != 404:
        names = sorted(n for n, _ in r.headers)
        want = sorted(['Content-Length', 'Date', 'Content-Type'] + list(exp.get('hdr', {})) + (['Set-Cookie'] if exp.get('cookie') else []))
        if names != want:
            return f'headers {names}, expected {want}'
    if 'echo' in exp:
        got = json.loads(r.body)
        for k, v in exp['echo'].items():
            if got.get(k) != v:
                return f'handler saw {k} {str(got.get(k))[:200]}, sent {str(v)[:200]}'
    return None
