import os, random, select, socket, struct, threading, time
import c20, gen
from core import ready, Sut, Died, VERIF, build_sut, connect, recv_all, parse_response, pick_port, Inconclusive, size_pool
RULE = ('a case is one server process and a shuffled list of connection endings (answered, 404, 400, 501, 413-like absurd length, '
        'panics, clients that leave with FIN or RST at random points of head, body or response, unread responses, files sent, '
        'replaced, or abandoned, half-closed streams; in every fourth case over TLS, with rustls or OpenSSL, failed handshakes of all kinds '
        'included), each repeated sequentially or 16 at a time. After a warm-up the counting '
        'allocator (live bytes, live blocks) and /proc/PID/fd are read at quiescence after each block of 40-400 connections: '
        'descriptors must be back at the idle level and live blocks must not have grown with the number of connections. The time '
        'from the last response byte to the end of the connection is measured too. Distinct by (ending, repetition, mode).')
CASES = (40, 500)
FLOOR = 5000
CAP = (150, 780)
KINDS = ['ok', 'okbody', 'bigbody', 'notfound', 'bad', 'badmethod', 'nohost', 'climb', 'absurd', 'panic', 'panicbody', 'finhead', 'rsthead',
         'finbody', 'rstbody', 'halfhead', 'halfbody', 'connect', 'rstconnect', 'noread', 'midresponse', 'file', 'fileabort', 'filereplaced',
         'filepanic', 'filemissing', 'filebig', 'cookies', 'query', 'vars', 'manyheaders', 'longhead', 'rstdone', 'empty', 'surplus', 'http10']
TLS_KINDS = ['ok', 'okbody', 'notfound', 'bad', 'panic', 'finhead', 'rsthead', 'finbody', 'rstbody', 'halfhead', 'halfbody', 'connect', 'rstconnect', 'noread',
             'midresponse', 'file', 'fileabort', 'filepanic', 'cookies', 'vars', 'rstdone']
RUDE = ['garbage', 'plain', 'rstearly', 'rsthello', 'stall', 'rsthand', 'finhand', 'badversion', 'ciphertext']


def build():
    return {'full': build_sut('full'), 'rustls': build_sut('rustls'), 'openssl': build_sut('openssl')}


def ops(d):
    f = os.path.join(d, 'small.html')
    g = os.path.join(d, 'big.bin')

    def r(m, p, acts):
        return {'op': 'route', 'method': m, 'path': p, 'h': {'rid': 1, 'flow': 'stop', 'obs': 'none', 'acts': acts}}
    return [
        r('all', '/ok', [['send_str', 'hello']]), r('all', '/echo', [['echo_body']]), r('get', '/big', [['send_size', 1200000, 3]]),
        r('all', '/panic', [['send_str', 'x'], ['set', 'A', 'b'], ['panic']]), r('get', '/file', [['send_file', f]]),
        r('get', '/filebig', [['send_file', g]]), r('get', '/filereplaced', [['send_file', g], ['send_file', f], ['send_str', 'x']]),
        r('get', '/filepanic', [['send_file', f], ['panic']]), r('get', '/filemissing', [['send_file', f + 'x']]),
        r('get', '/cookies', [['cookie', {'name': 'a', 'value': 'b', 'path': '/'}], ['cookie', {'name': 'c', 'value': 'd'}], ['echo_req']]),
        r('all', '/v/:a/:b', [['echo_req']]), r('get', '/empty', [['send_str', '']]),
    ]


def make(rng, i, tier):
    if i % 4 == 3:
        ks = TLS_KINDS + RUDE
        rng.shuffle(ks)
        return {'blocks': [{'kind': k, 'd': gen.dress(rng, .5), 'n': rng.choice([64, 96, 128]) if k not in ('noread', 'midresponse') else 40,
                            'mode': rng.choice(['seq', 'par'])} for k in ks[:8 if tier == 'quick' else len(ks)]],
                'seed': rng.randrange(1 << 30), 'workers': rng.choice([1, 2, 4]), 'tls': ['rustls', 'openssl'][i // 4 % 2]}
    ks = KINDS[:]
    rng.shuffle(ks)
    blocks = []
    for k in ks[:14 if tier == 'quick' else len(ks)]:
        blocks.append({'kind': k, 'd': gen.dress(rng, .5), 'n': rng.choice([60, 120, 200] if k not in ('filebig', 'noread', 'midresponse', 'bigbody') else [40]), 'mode': rng.choice(['seq', 'seq', 'par'])})
    k = rng.choice(['ok', 'ok', 'okbody', 'notfound', 'bad', 'badmethod', 'climb', 'panic', 'file', 'cookies', 'query', 'vars', 'http10', 'rstdone', 'empty', 'halfhead',
                    'halfbody', 'rsthead', 'rstbody', 'connect', 'filemissing', 'surplus'])
    blocks.insert(0, {'kind': k, 'd': gen.dress(rng, .3), 'n': 4800, 'mode': 'par', 'long': 1})
    return {'blocks': blocks, 'seed': rng.randrange(1 << 30), 'workers': rng.choice([1, 2, 4])}


def compose(kind, rng, d=None):
    """(bytes, how the client leaves)"""
    tok = [('X-Tok', 'z' * rng.randrange(1, 30)), ('Cookie', 'a=b; c=d')]

    def R(m, t, hs, body=b'', host=True):
        return gen.dressed(m, t, hs, d, body) if host else gen.request(m, t, hs, body, host=host)
    if kind == 'ok':
        return R(rng.choice(['GET', 'POST', 'PUT']), '/ok', tok), 'read'
    if kind == 'okbody':
        return R('POST', '/echo', tok, b'b' * rng.choice([1, 500, 2000])), 'read'
    if kind == 'bigbody':
        return R('POST', '/echo', tok, b'b' * rng.choice([60000, 300000])), 'read'
    if kind == 'notfound':
        return R('GET', '/none', tok), 'read'
    if kind == 'bad':
        return rng.choice([b'GET /x\r\n\r\n', b'GET / HTTP/1.1\r\nHost: a\r\n: v\r\n\r\n', b'\xff\xff\r\n\r\n', b'GET / HTTP/1.1\r\nHost\r\n\r\n']), 'read'
    if kind == 'badmethod':
        return R('BREW', '/ok', tok), 'read'
    if kind == 'nohost':
        return R('GET', '/ok', tok, host=False), 'read'
    if kind == 'climb':
        return R('GET', '/a/../../b', tok), 'read'
    if kind == 'absurd':
        return b'POST /echo HTTP/1.1\r\nHost: a\r\nContent-Length: 99999999999\r\n\r\nabc', rng.choice(['fin', 'rst', 'half'])
    if kind == 'panic':
        return R('GET', '/panic', tok), 'drain'
    if kind == 'panicbody':
        return R('POST', '/panic', tok, b'x' * 1000), 'drain'
    if kind in ('finhead', 'rsthead', 'halfhead'):
        raw = R('GET', '/ok', tok + [('P', 'p' * rng.randrange(0, 900))])
        return raw[:rng.randrange(1, len(raw) - 2)], {'fin': 'fin', 'rst': 'rst', 'hal': 'half'}[kind[:3]]
    if kind in ('finbody', 'rstbody', 'halfbody'):
        raw = R('POST', '/echo', tok, b'x' * rng.choice([5, 600, 5000]))
        return raw[:rng.randrange(raw.index(b'\r\n\r\n') + 4, len(raw))], {'fin': 'fin', 'rst': 'rst', 'hal': 'half'}[kind[:3]]
    if kind == 'connect':
        return b'', 'fin'
    if kind == 'rstconnect':
        return b'', 'rst'
    if kind == 'noread':
        return R('GET', '/big', tok), 'wait'
    if kind == 'midresponse':
        return R('GET', '/big', tok), 'some'
    if kind in ('file', 'filereplaced', 'filemissing', 'filebig', 'cookies', 'empty'):
        return R('GET', '/' + kind, tok), 'read'
    if kind == 'filepanic':
        return R('GET', '/filepanic', tok), 'drain'
    if kind == 'fileabort':
        return R('GET', '/filebig', tok), rng.choice(['some', 'rst', 'wait'])
    if kind == 'query':
        return R('GET', '/v/1/2?a=b&c[]=d&e[f]=g&h=%20', tok), 'read'
    if kind == 'vars':
        return R('GET', '/v/x%d/y' % rng.randrange(10 ** 6), tok), 'read'
    if kind == 'manyheaders':
        return R('GET', '/ok', tok + [('H%d' % i, 'v') for i in range(60)]), 'read'
    if kind == 'longhead':
        return R('GET', '/ok?' + 'q' * rng.choice([600, 5000]), tok), 'read'
    if kind == 'rstdone':
        return R('GET', '/ok', tok), 'rst'
    if kind == 'surplus':
        return R('GET', '/ok', tok) + b'surplus bytes', 'drain'
    if kind == 'http10':
        return b'GET /ok HTTP/1.0\r\n\r\n', 'read'


def one(kind, rng, port, sut, out, d=None):
    raw, leave = compose(kind, rng, d)
    s = connect(port)
    try:
        if leave in ('some', 'wait'):
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
        try:
            s.sendall(raw)
            if leave == 'read':
                d, end = recv_eof(s, sut)
                out.append((d, end))
            elif leave == 'drain':
                recv_all(s, sut)
            elif leave == 'half':
                s.shutdown(socket.SHUT_WR)
                recv_all(s, sut)
            elif leave == 'some':
                s.recv(rng.choice([1, 1000]))
            elif leave == 'wait':
                time.sleep(.002)
        except ConnectionError:
            pass
        if leave in ('rst', 'some'):
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
    finally:
        s.close()


def one_tls(kind, rng, tport, sut, out, d=None):
    if kind in RUDE:
        p = c20.rude(kind, tport, rng, sut, [None] * 20)
        if p:
            out.append((0, p))
        return
    raw, leave = compose(kind, rng, d)
    c = c20.Tls(tport, rng.choice(['1.2', '1.3']), rng, sut, rcvbuf=4096 if leave in ('some', 'wait') else 0)
    try:
        if not c.handshake():
            out.append((0, 'handshake ' + str(c.end)))
            return
        try:
            c.send([raw])
            if leave == 'half':
                c.s.shutdown(socket.SHUT_WR)
            if leave in ('read', 'drain', 'half'):
                e = c.read_all()[1]
                if e == 'hang':
                    out.append((1, 'lazy'))
                elif e == 'timeout':
                    raise Inconclusive('timeout')
            elif leave == 'some':
                c.fill(1000)
            elif leave == 'wait':
                time.sleep(.002)
        except ConnectionError:
            pass
    finally:
        c.close(rst=leave in ('rst', 'some'))


def recv_eof(s, sut):
    """Read one response; returns (seconds from its last byte to the end, how it ended)."""
    buf = b''
    need = None
    s.settimeout(5)
    t = None
    try:
        while True:
            if t and sut and not ready(s, .1):
                # the response is complete but the connection is not ended: is the server still at it?
                for _ in range(8):
                    if not sut.asleep() or ready(s, .05):
                        break
                else:
                    return 1, 'lazy'
            d = s.recv(1 << 18)
            if not d:
                return (time.monotonic() - t if t else 0, 'eof')
            buf += d
            if need is None and b'\r\n\r\n' in buf:
                h, _, _ = buf.partition(b'\r\n\r\n')
                cl = [l for l in h.lower().split(b'\r\n') if l.startswith(b'content-length:')]
                need = len(h) + 4 + (int(cl[0].split(b':')[1]) if cl else 0)
            if need is not None and len(buf) >= need:
                t = t or time.monotonic()
    except ConnectionError:
        return 0, 'reset'
    except (TimeoutError, socket.timeout):
        return (time.monotonic() - t if t else 0), 'open' if t else 'silent'


def quiesce(sut, fds):
    """Wait until descriptors are back at the idle level and the process is at rest; the last counts."""
    t0 = time.monotonic()
    rest = 0
    while True:
        n = sut.nfds()
        c = sut.cpu()
        time.sleep(.01)
        if n <= fds and sut.nfds() <= fds and sut.cpu() - c <= 1:
            rest += 1
            if rest >= 2:
                return n
        else:
            rest = 0
        if time.monotonic() - t0 > 8:
            return n


def fd_list(sut):
    out = []
    for f in os.listdir(f'/proc/{sut.pid}/fd'):
        try:
            out.append(os.readlink(f'/proc/{sut.pid}/fd/{f}').split(':')[0])
        except OSError:
            pass
    return sorted(out)


def check(env, case):
    d = env.scratch()
    for n, k in (('small.html', 900), ('big.bin', 1500000)):
        with open(os.path.join(d, n), 'wb') as f:
            f.write(bytes(k))
    tls = case.get('tls')
    sut = Sut(env.binary[tls or 'full'], workers=case['workers'])
    try:
        rng = random.Random(case['seed'])
        for _ in range(5):
            tport = pick_port(rng)
            aid, port, _ = sut.start(([{'op': 'ssl', 'port': tport, 'key': VERIF + '/tls/key.pem', 'cert': VERIF + '/tls/cert.pem'}] if tls else []) + ops(d))
            if not tls or tport != port and c20.up(tport, sut):
                break
        else:
            return 'the TLS port was never opened'
        plain = port
        if tls:
            port = tport
            for k in range(360):  # what a TLS library keeps for resumption has reached its size
                c = c20.Tls(port, ('1.2', '1.3')[k % 2], rng, sut)
                c.handshake()
                c.close()
        client = one_tls if tls else one
        time.sleep(.05)
        idle = sut.nfds()

        def block(kind, n, mode, dr=None):
            out = []
            if mode == 'seq':
                for _ in range(n):
                    client(kind, rng, port, sut, out, dr)
            else:
                def th(seed, k):
                    r = random.Random(seed)
                    for _ in range(k):
                        client(kind, r, port, sut, out, dr)
                ts = [threading.Thread(target=th, args=(rng.random(), n // 16)) for _ in range(16)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
            return out
        def settled(enough):
            """Live blocks and bytes at rest. A runtime may keep what has ended until a thread comes round to it, so the
            threads are given something to do and the least of several readings counts; a leak is in all of them."""
            best = None
            for _ in range(4):
                for _ in range(12):
                    one('ok', rng, plain, sut, [])
                quiesce(sut, idle)
                sut.events()
                s = sut.stat()
                if best is None:
                    best = s
                for k in ('live_allocs', 'live_bytes'):
                    best[k] = min(best[k], s[k])
                if enough(best):
                    break
            return best
        for b in case['blocks']:
            block(b['kind'], 16 if tls else 32 if not b.get('long') else 1600, b['mode'], b['d'])
        block('ok', 64, 'par')
        quiesce(sut, idle)
        for b in case['blocks']:
            what = f'{b["n"]} connections ending as {b["kind"]!r} ({b["mode"]}, {case["workers"]} threads, {b["d"]})' + (f' over TLS ({tls})' if tls else '')
            for _ in range(3):  # a leak shows every time; a straggler of the block before does not
                block(b['kind'], 16 if not b.get('long') else 320, b['mode'], b['d'])
                quiesce(sut, idle)
                reads = []
                s0 = settled(lambda _: reads.append(1) or len(reads) == 2)
                out = block(b['kind'], b['n'], b['mode'], b['d'])
                n = quiesce(sut, idle)

                def leaks(s1):
                    grow = s1['live_allocs'] - s0['live_allocs']
                    gb = s1['live_bytes'] - s0['live_bytes']
                    if b.get('long'):  # long enough for a growing table to double
                        return grow > 60 or gb > 28000
                    return grow > max(20, b['n'] // 8) or gb > max(40000, b['n'] * 100)
                s1 = settled(lambda s: not leaks(s))
                grow, gb = s1['live_allocs'] - s0['live_allocs'], s1['live_bytes'] - s0['live_bytes']
                leak = leaks(s1)
                if n <= idle and not leak:
                    break
            env.add('evaluations', b['n'])
            env.add('blocks')
            env.add('ending_' + (tls + '_' if tls else '') + b['kind'], b['n'])
            k = 'max_block_growth' + ('_long' if b.get('long') else '_' + tls if tls else '')
            env.count[k] = max(env.count.get(k, 0), grow)
            k = k.replace('block', 'byte')
            env.count[k] = max(env.count.get(k, 0), gb)
            if not sut.alive():
                raise Died(sut.death())
            if n > idle:
                return f'{what}: {n} descriptors open at rest, {idle} when idle: {fd_list(sut)}'
            if leak:
                return f'{what}: live blocks grew by {grow}, live bytes by {gb}, at rest'
            slow = [x for x, e in out if e == 'eof' and x > 1.5]
            failed = [e for x, e in out if e.startswith('handshake')]
            if failed:
                return f'{what}: {len(failed)} of {len(out)} failed: {failed[0]}'
            lazy = sum(1 for x, e in out if e == 'lazy')
            if lazy > max(2, len(out) // 4):
                return f'{what}: {lazy} of {len(out)} connections stay open after the complete response while the server sleeps'
            opened = [x for x, e in out if e == 'open']
            if opened:
                return f'{what}: {len(opened)} connections still open 5 s after the complete response'
            if len(slow) > max(2, len(out) // 4):
                return f'{what}: the connection ends {min(slow):.1f} s or more after the complete response ({len(slow)} of {len(out)})'
            env.seen([b['kind'], b['n'], b['mode'], case['workers'], tls])
        env.sample({'idle_fds': idle, 'blocks': [(b['kind'], b['n'], b['mode']) for b in case['blocks']][:6], 'live_blocks': s1['live_allocs'], 'live_bytes': s1['live_bytes']})
    finally:
        sut.kill()
    return None
