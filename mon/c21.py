import random, socket, threading, time
import gen
from core import Sut, build_sut, connect, talk, reply_problem, recv_all, pick_port, Died, Inconclusive, Reply
RULE = ('a case is a history of 6-18 steps over 1-2 server processes and 3 ports (anywhere from 1024 to 65535, the ephemeral range left out): start (the callback itself tries to connect), '
        'start on a port held by another Octane app, another process or a foreign socket, serve from several loopback addresses, '
        'stop or kill with answered, open and half-sent connections, restart at once, start with an unusable TLS configuration. '
        'Callbacks, results, which app answers and whether running servers keep answering are compared with a model of who '
        'holds which port. Distinct by history.')
CASES = (2500, 30000)
FLOOR = 800
CAP = (120, 780)
HOSTS = ['127.0.0.1', '127.0.0.2', '127.1.2.3', '127.255.255.254', '127.0.1.1']


def build():
    return {'full': build_sut('full'), 'rustls': build_sut('rustls'), 'openssl': build_sut('openssl')}


def make(rng, i, tier):
    steps = []
    for _ in range(rng.choice([6, 10, 18])):
        steps.append({'op': rng.choices(['start', 'serve', 'stop', 'kill', 'foreign', 'unforeign', 'half'], [7, 7, 4, 1, 1, 1, 2])[0],
                      'port': rng.randrange(3), 'proc': rng.randrange(2), 'n': rng.choice([1, 2, 5, 20]), 'seed': rng.randrange(1 << 30)})
    return {'steps': steps, 'v': rng.choice(['full'] * 8 + ['rustls', 'openssl']), 'workers': rng.choice([1, 2, 4]), 'seed': rng.randrange(1 << 30)}


def wait_app(sut, aid):
    t0 = time.monotonic()
    while True:
        a = sut.cmd('app', id=aid)
        if a['result'] is not None or time.monotonic() - t0 > 8:
            return a
        time.sleep(.005)


def check(env, case):
    rng = random.Random(case['seed'])
    bins = env.binary
    ports = []
    for k in range(3):
        while True:
            p = pick_port(rng, True)
            if p not in ports:
                ports.append(p)
                break
    suts = [None, None]
    holder = [None] * 3   # ('app', proc, aid, tag) | ('foreign', sock)
    open_conns = []
    tagn = 0
    hist = []
    tls = [{'op': 'ssl', 'port': next(p for p in iter(lambda: pick_port(rng), 0) if p not in ports), 'key': '', 'cert': '/nonexistent'}] if case['v'] != 'full' else []

    def proc(k):
        if suts[k] is None:
            suts[k] = Sut(bins[case['v']], workers=case['workers'])
        return suts[k]

    def request(port, tag, when, host=None):
        rep = talk(port, gen.request('GET', '/who', [('X-Tok', env.tok())]), suts[holder[ports.index(port)][1]], host=host or rng.choice(HOSTS))
        env.add('evaluations')
        env.add('answers_' + when)
        r, p = reply_problem(rep)
        if p:
            return p
        if r.code != 200 or r.body.decode('latin1') != tag:
            return f'answered {r.code} {r.body[:40]!r}, expected the app {tag}'
        return None

    try:
        for st in case['steps']:
            k, port = st['port'], ports[st['port']]
            h = holder[k]
            op = st['op']
            hist.append(f'{op}{k}' + (f'p{st["proc"]}' if op == 'start' else ''))
            what = f'{case["v"]}, history {" ".join(hist)}'
            if op == 'start':
                tagn += 1
                tag = f'app{tagn}'
                sut = proc(st['proc'])
                ops = tls + [{'op': 'route', 'method': 'get', 'path': '/who', 'h': {'rid': 1, 'obs': 'none', 'acts': [['send_str', tag]]}}]
                aid = sut.next_id
                sut.next_id += 1
                r = sut.cmd('start', id=aid, port=port, ops=ops, probe=rng.choice(HOSTS), wait_ms=8000)
                a = sut.cmd('app', id=aid)
                env.add('evaluations')
                if h is None:
                    env.add('starts_on_free_port')
                    env.add('ports_low' if port < 10000 else 'ports_high' if port > 60000 else 'ports_middle')
                    if a['result'] is not None:
                        return f'{what}: listen on a free port returned {a["result"]}'
                    if a['callbacks'] != 1:
                        return f'{what}: the callback ran {a["callbacks"]} times'
                    if a['probe'] is not True:
                        return f'{what}: a client could not connect when the callback ran'
                    holder[k] = ('app', st['proc'], aid, tag)
                    for host in HOSTS:
                        p = request(port, tag, 'after_callback', host)
                        if p:
                            return f'{what}: request to {host} after the callback: {p}'
                else:
                    env.add('starts_on_held_port')
                    a = wait_app(sut, aid)
                    if a['result'] is None:
                        return f'{what}: listen on a port that is in use neither failed nor returned (callbacks: {a["callbacks"]})'
                    if not a['result'].startswith('err'):
                        return f'{what}: listen on a port that is in use returned {a["result"]}'
                    if a['callbacks']:
                        return f'{what}: the callback ran although the port could not be bound'
                    if sut.stop(aid).get('panicked'):
                        return f'{what}: listen on a port that is in use panicked'
                    if h[0] == 'app':
                        for _ in range(4):
                            p = request(port, h[3], 'undisturbed')
                            if p:
                                return f'{what}: the server that holds the port was disturbed: {p}'
            elif op == 'serve' and h and h[0] == 'app':
                for _ in range(st['n']):
                    p = request(port, h[3], 'serving')
                    if p:
                        return f'{what}: {p}'
                a = suts[h[1]].cmd('app', id=h[2])
                if a['callbacks'] != 1 or a['result'] is not None:
                    return f'{what}: callback ran {a["callbacks"]} times, listen returned {a["result"]} while serving'
            elif op == 'half' and h and h[0] == 'app':
                for _ in range(min(st['n'], 5)):
                    s = connect(port, rng.choice(HOSTS))
                    raw = gen.request('GET', '/who')
                    s.sendall(raw[:rng.randrange(0, len(raw))])
                    open_conns.append(s)
            elif op == 'stop' and h and h[0] == 'app':
                suts[h[1]].stop(h[2])
                holder[k] = None
            elif op == 'kill':
                j = st['proc']
                if suts[j] is not None:
                    suts[j].kill()
                    suts[j] = None
                    holder = [None if x and x[0] == 'app' and x[1] == j else x for x in holder]
            elif op == 'foreign' and h is None:
                s = socket.socket()
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                try:
                    s.bind((rng.choice(['0.0.0.0', '127.0.0.1']), port))
                    s.listen(5)
                    holder[k] = ('foreign', s)
                except OSError:
                    s.close()
            elif op == 'unforeign' and h and h[0] == 'foreign':
                h[1].close()
                holder[k] = None
            else:
                hist[-1] += '-'
        # everything that should be up is up, and answers as itself
        for k, h in enumerate(holder):
            if h and h[0] == 'app':
                p = request(ports[k], h[3], 'at_end')
                if p:
                    return f'{case["v"]}, at the end of {" ".join(hist)}: {p}'
        env.seen(' '.join(hist) + case['v'])
        env.sample({'history': ' '.join(hist), 'build': case['v']})
    except OSError as e:
        for s in suts:
            if s is not None and not s.alive():
                raise Died(s.death())
        if isinstance(e, ConnectionRefusedError):
            return f'{case["v"]}: connection refused in {" ".join(hist)}'
        raise
    finally:
        for s in open_conns:
            s.close()
        for h in holder:
            if h and h[0] == 'foreign':
                h[1].close()
        for s in suts:
            if s is not None:
                s.kill()
    return None
