import random, resource, select, socket, ssl, struct, time
import gen
from core import Sut, Died, connect, talk, reply_problem, recv_all, Reply, pattern, fnv, Inconclusive, pick_port, quiescent_wait
RULE = ('a case is a history of 3-7 hostile phases against one server process with 1, 2 or 4 threads and limited memory: idle, '
        'dribbling, half-sent, never-reading, aborted and reset connections, absurd lengths, garbage, TLS to the plain port, '
        'oversized heads, panicking handlers, descriptor exhaustion; each phase has up to thousands of connections. Good '
        'requests begun before a phase and finished after it, sent during it and sent after it must all get their normal '
        'response. Distinct by (phase kinds, counts); evaluations are judged good requests.')
CASES = (140, 700)
CAP = (150, 780)
FLOOR = 500
OPS = [
    {'op': 'route', 'method': 'use', 'path': '', 'h': {'rid': 1, 'flow': 'next', 'obs': 'none', 'acts': [['panic_if_hdr']]}},
    {'op': 'route', 'method': 'all', 'path': '/d', 'h': {'rid': 2, 'flow': 'stop', 'obs': 'none', 'acts': [['digest']]}},
    {'op': 'route', 'method': 'all', 'path': '/d/:a/:b', 'h': {'rid': 5, 'flow': 'stop', 'obs': 'none', 'acts': [['digest']]}},
    {'op': 'route', 'method': 'all', 'path': '/d' + '/deep' * 30, 'h': {'rid': 6, 'flow': 'stop', 'obs': 'none', 'acts': [['digest']]}},
    {'op': 'route', 'method': 'get', 'path': '/big', 'h': {'rid': 3, 'flow': 'stop', 'obs': 'none', 'acts': [['send_size', 1500000, 7]]}},
    {'op': 'route', 'method': 'get', 'path': '/panic', 'h': {'rid': 4, 'flow': 'stop', 'obs': 'none', 'acts': [['set', 'X-A', 'b'], ['send_str', 'partial'], ['panic']]}},
]
KINDS = ['idle', 'dribble', 'halfhead', 'halfbody', 'hugelen', 'noread', 'abort', 'rst', 'garbage', 'tls', 'bighead', 'panic', 'emfile',
         'churn', 'malformed', 'manyheaders', 'midresponse', 'notfound', 'badmethod', 'shutwr', 'longhead', 'manylines', 'samelines', 'manyitems']
HELD = {'idle', 'dribble', 'halfhead', 'halfbody', 'hugelen', 'noread', 'bighead', 'longhead'}
LENS = ['1', '999999', '2147483647', '2147483648', '4294967295', '4294967296', '1099511627776', '9223372036854775807',
        '9223372036854775808', '18446744073709551615', '18446744073709551616', '99999999999999999999999', '1' + '0' * 400, '-1', 'abc', '']


MANY = ['panic', 'malformed', 'notfound', 'badmethod', 'rst', 'abort', 'churn', 'shutwr', 'midresponse', 'garbage', 'idle', 'halfbody', 'halfhead', 'hugelen']


def make(rng, i, tier):
    phases = []
    if i in (5, 11):  # more connections at once than the listen backlog or any small limit
        return {'phases': [{'kind': rng.choice(['idle', 'halfhead', 'halfbody']), 'n': [4300, 6500][i > 5] if tier == 'quick' else 12000, 'seed': rng.randrange(1 << 30)}],
                'workers': rng.choice([1, 2, 4]), 'nofile': 15000}
    if i % 7 == 3:  # few kinds, very many connections in the life of one process
        j = i // 7
        for k in range(2):
            kind = MANY[(j + k * 5) % len(MANY)]
            n = rng.choice([1500, 2200, 3000] if tier == 'quick' else [2200, 5000, 9000])
            if kind in HELD:
                n = rng.choice([1200, 1600])
            phases.append({'kind': kind, 'n': n, 'seed': rng.randrange(1 << 30)})
        return {'phases': phases, 'workers': rng.choice([1, 2, 4])}
    for k in range(rng.choice([3, 4, 5, 7])):
        kind = KINDS[(i + k * 7) % len(KINDS)]
        big = rng.random() < (.35 if tier == 'quick' else .5)
        if kind in HELD:
            n = rng.choice([200, 400, 700]) if big else rng.choice([5, 20, 60])
            if kind in ('bighead', 'noread'):
                n = min(n, 60)
            if kind == 'longhead':
                n = min(n, 8)
        elif kind == 'emfile':
            n = rng.choice([70, 120, 200])
        else:
            n = rng.choice([300, 600, 1100]) if big else rng.choice([10, 40, 100])
            if kind in ('manyheaders',):
                n = min(n, 20)
            if kind in ('manylines', 'samelines', 'manyitems'):
                n = min(n, 6)
        phases.append({'kind': kind, 'n': n, 'seed': rng.randrange(1 << 30)})
    return {'phases': phases, 'workers': rng.choice([1, 2, 4])}


def shape(rng):
    """The form of a request: method, target, header lines, body length, version."""
    t = rng.choice(['/d', '/d', '/d/1/2', '/d/' + 'x' * rng.choice([1, 50, 300, 2000]) + '/b', '/d' + '/deep' * 30])
    if rng.random() < .5:
        t += '?' + rng.choice(['x=1', 'a=b&c=d', '%zz', 'q=' + 'y' * rng.choice([10, 300, 2000])])
    hs = [(f'X-H{k}', 'v' * rng.choice([0, 3, 40, 500])) for k in range(rng.choice([0, 0, 1, 5, 40]))]
    if rng.random() < .4:
        hs.append(('Cookie', '; '.join(f'c{k}=v{k}' for k in range(rng.choice([1, 3, 30])))))
    if rng.random() < .3:
        hs.append(('Connection', rng.choice(['close', 'keep-alive', 'Upgrade'])))
    m = rng.choice(['POST', 'POST', 'GET', 'PUT', 'DELETE', 'PATCH'])
    return m, t, hs, rng.choice([0, 0, 1, 3, 40, 300, 1200]), rng.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0'])


class Good:
    """A well-behaved request, possibly sent in two steps."""

    def __init__(self, port, rng, tok, form=None):
        self.tok = tok
        m, t, hs, size, v = form or shape(rng)
        self.body = tok.encode() * size
        n = rng.choice([0, 10, 700])
        self.raw = gen.request(m, t, hs + [('X-Tok', tok), ('X-Out', str(n))], self.body, v)
        self.want = f'{tok}|{len(self.body)}|{fnv(self.body):016x}|'.encode() + pattern(n, fnv(tok.encode()))
        self.s = connect(port)
        self.at = 0

    def push(self, upto):
        self.s.sendall(self.raw[self.at:upto])
        self.at = upto

    def finish(self, sut):
        try:
            try:
                self.push(len(self.raw))
                d, end = recv_all(self.s, sut)
            except ConnectionError:
                d, end = b'', 'reset'
        finally:
            self.s.close()
        r, p = reply_problem(Reply(d, end, 0))
        if p:
            return p
        if r.code != 200 or r.body != self.want or r.all('X-Tok') != [self.tok]:
            return f'answered {r.code} {r.body[:80]!r}, expected its digest {self.want[:80]!r}'
        return None


FORMS = [None] * 4  # of recent panicking requests


def bad_conn(kind, rng, port, held):
    s = connect(port, timeout=5)
    keep = kind in HELD or kind == 'emfile'
    try:
        if kind in ('idle', 'emfile'):
            pass
        elif kind in ('dribble', 'halfhead'):
            raw = gen.request('GET', '/' + 'x' * rng.randrange(0, 600), [('X-A', 'b' * rng.randrange(0, 600))])
            s.sendall(raw[:rng.randrange(1, len(raw) - 3)])
        elif kind == 'halfbody':
            raw = gen.request('POST', '/d', [('X-Tok', 'bad')], b'z' * rng.choice([10, 1000, 5000]))
            s.sendall(raw[:-rng.randrange(1, 9)])
        elif kind == 'hugelen':
            v = rng.choice(LENS)
            s.sendall(f'POST /d HTTP/1.1\r\nHost: l\r\nContent-Length: {v}\r\n\r\n'.encode() + b'q' * rng.choice([0, 3, 600]))
        elif kind == 'noread':
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 2304)
            s.sendall(gen.request('GET', '/big'))
        elif kind == 'bighead':
            s.sendall(b'GET /' + b'a' * rng.choice([1000, 20000, 100000]))
        elif kind == 'longhead':
            s.sendall(b'GET /' + b'a' * rng.choice([3000000, 6000000, 12000000]))
        elif kind == 'manylines':
            s.sendall(b'GET / HTTP/1.1\r\nHost: l\r\n' + b''.join(b'h%d:\r\n' % k for k in range(rng.choice([50000, 200000]))) + b'\r\n')
        elif kind == 'samelines':
            s.sendall(b'GET / HTTP/1.1\r\nHost: l\r\n' + rng.choice([b'a:b\r\n', b'Cookie:c=d\r\n', b'X:\r\n']) * rng.choice([300000, 900000]) + b'\r\n')
        elif kind == 'manyitems':
            s.sendall(rng.choice([b'GET /' + b'a/../' * 300000 + b' HTTP/1.1\r\nHost: l\r\n\r\n', b'GET /d?' + b'a[]=b&c=%41&' * 100000 + b' HTTP/1.1\r\nHost: l\r\n\r\n',
                                  b'GET /d HTTP/1.1\r\nHost: l\r\nCookie: ' + b'a=b;c;' * 150000 + b'\r\n\r\n', b'GET /' + b'a/' * 600000 + b' HTTP/1.1\r\nHost: l\r\n\r\n']))
        elif kind == 'manyheaders':
            s.sendall(b'GET / HTTP/1.1\r\nHost: l\r\n' + b''.join(b'H%d: v\r\n' % k for k in range(rng.choice([100, 3000]))) + b'\r\n')
        elif kind == 'abort':
            raw = gen.request('POST', '/d', [('X-Tok', 'bad')], b'z' * 700)
            s.sendall(raw[:rng.randrange(0, len(raw))])
        elif kind == 'rst':
            raw = gen.request('POST', '/d', [('X-Tok', 'bad')], b'z' * 700)
            s.sendall(raw[:rng.randrange(0, len(raw) + 1)])
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        elif kind == 'garbage':
            s.sendall(rng.randbytes(rng.choice([1, 5, 100, 2000])) + rng.choice([b'', b'\r\n\r\n']))
        elif kind == 'tls':
            s.sendall(bytes.fromhex('16030100c8010000c40303') + rng.randbytes(190))
        elif kind == 'panic':
            m, t, hs, size, v = form = shape(rng)
            FORMS[rng.randrange(4)] = form
            s.sendall(rng.choice([gen.request('GET', '/panic'), gen.request(m, t, hs + [('X-Panic', '1')], b'abcde' * size, v),
                                  gen.request(m, t, hs + [('X-Panic', '1')], b'abcde' * size, v), gen.request('GET', '/none', [('X-Panic', '1')])]))
        elif kind == 'churn':
            if rng.random() < .5:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        elif kind == 'malformed':
            s.sendall(rng.choice([b'GET\r\n\r\n', b'GET / HTTP/1.1\r\n\r\n', b'GET / HTTP/1.1\r\nHost: x\r\nbad line\r\n\r\n', b'\xff\xfe\r\n\r\n', b'\r\n\r\n',
                                  b'GET /../x HTTP/1.1\r\nHost: x\r\n\r\n', b'GET / HTTP/1.1\r\nHost: \x01\r\n\r\n', b'GET /%', b' ', b': :\r\n\r\n',
                                  b'GET / HTTP/1.1\r\nHost: x\r\nCookie: ;;=;a\r\n\r\n', b'GET /?%&=%zz& HTTP/1.1\r\nHost: x\r\n\r\n']))
            if rng.random() < .5:
                s.shutdown(socket.SHUT_WR)
        elif kind == 'notfound':
            s.sendall(gen.request('GET', '/none'))
        elif kind == 'badmethod':
            s.sendall(gen.request(rng.choice(['BREW', 'OPTIONS', 'TRACE', 'CONNECT', 'get']), '/d'))
        elif kind == 'shutwr':
            raw = gen.request('POST', '/d', [('X-Tok', 'bad')], b'z' * 70)
            s.sendall(raw[:rng.randrange(0, len(raw))])
            s.shutdown(socket.SHUT_WR)
        elif kind == 'midresponse':
            s.sendall(gen.request('GET', '/big'))
            s.settimeout(2)
            s.recv(rng.choice([1, 1000]))
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
    except OSError:
        pass
    if keep:
        held.append(s)
    elif kind in ('panic', 'malformed', 'notfound', 'badmethod', 'garbage', 'shutwr', 'tls', 'manyheaders') and rng.random() < .7:
        # let the server finish it
        try:
            s.settimeout(.003 if kind in ('garbage', 'tls') or kind == 'malformed' and rng.random() < .9 else .05)
            while s.recv(65536):
                pass
        except OSError:
            pass
        s.close()
    else:
        s.close()


def check(env, case):
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (min(hard, 20000), hard))
    emf = any(p['kind'] == 'emfile' for p in case['phases'])
    sut = Sut(env.binary, workers=case['workers'], mem=3 << 30, nofile=64 if emf else min(hard, case.get('nofile', 4000)))
    held, pre = [], []
    FORMS[:] = [None] * 4
    try:
        aid, port, _ = sut.start(OPS)

        def probe(when):
            rng = random.Random(env.tokn)
            g = [Good(port, rng, env.tok(), f) for f in [None, None] + [f for f in FORMS if f]]
            for x in g:
                p = x.finish(sut)
                env.add('evaluations')
                env.add('probe_' + when)
                if p:
                    return p
            return None

        for k, ph in enumerate(case['phases']):
            rng = random.Random(ph['seed'])
            kind = ph['kind']
            n = min(ph['n'], hard - 500)
            if emf and kind in HELD:
                n = min(n, 30)
            what = f'phase {k} {kind} x{n} of {[(x["kind"], x["n"]) for x in case["phases"]]}, {case["workers"]} threads'
            pre = [Good(port, rng, env.tok()) for _ in range(3)]
            for g in pre:
                g.push(rng.randrange(0, len(g.raw)))
            for j in range(n):
                bad_conn(kind, rng, port, held)
                env.add('hostile_' + kind)
                if j == n // 2 and kind != 'emfile':
                    p = probe('during')
                    if p:
                        return f'{what}: good request during the phase: {p}'
            if kind == 'dribble':
                for s in held[:50]:
                    try:
                        s.send(b'y')
                    except OSError:
                        pass
            if kind == 'emfile':
                # descriptors are used up: requests queue, and are answered once some are free again
                q = [Good(port, rng, env.tok()) for _ in range(2)]
                for g in q:
                    g.push(len(g.raw))
                time.sleep(.05)
                rng.shuffle(held)
                for s in held[len(held) // 4 if rng.random() < .5 else 0:]:
                    s.close()
                held = held[:len(held) // 4] if len(held) // 4 < 20 else []
                for s in held:
                    s.close()
                held = []
                for g in q:
                    p = g.finish(sut)
                    env.add('evaluations')
                    env.add('probe_queued')
                    if p:
                        return f'{what}: good request queued while descriptors were used up: {p}'
            else:
                p = probe('during')
                if p:
                    return f'{what}: good request while the connections are open: {p}'
            for g in pre:
                p = g.finish(sut)
                env.add('evaluations')
                env.add('probe_across')
                if p:
                    return f'{what}: good request begun before and finished after: {p}'
            if rng.random() < .7 or emf:
                for s in held:
                    s.close()
                held = []
            p = probe('after')
            if p:
                return f'{what}: good request after the phase: {p}'
            if not sut.alive():
                raise Died(sut.death())
        env.seen([[(p['kind'], p['n']) for p in case['phases']], case['workers']])
        env.sample({'phases': [(p['kind'], p['n']) for p in case['phases']], 'threads': case['workers'], 'panics_caught': sut.stat()['panics']})
    except OSError as e:
        if not sut.alive():
            raise Died(sut.death())
        if isinstance(e, (ConnectionRefusedError, ConnectionResetError)):
            return f'cannot connect any more ({e}) in {[(x["kind"], x["n"]) for x in case["phases"]]}'
        if isinstance(e, TimeoutError):
            # the queue of connections to accept is full: does it move at all?
            try:
                connect(port, timeout=60).close()
            except TimeoutError:
                return f'nobody can connect any more in {[(x["kind"], x["n"]) for x in case["phases"]]}'
        raise
    finally:
        for s in held + [g.s for g in pre]:
            s.close()
        sut.kill()
    return None
