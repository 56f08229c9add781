import os, socket, ssl, time
from core import Sut, VERIF, build_sut, connect, pick_port, Inconclusive
RULE = ('a case is a random sequence of configuration calls (keep-alive, ssl(port) with key and/or certificate in either order, '
        'with_ssl_config, worker_threads, assignments to the public fields) on the server and on up to three separate configurations, applied at random points, '
        'with route registrations and mounts in between; after every call the settings of the server and of every separate '
        'configuration are compared with a last-writer model. One case in ten starts the server (rustls or OpenSSL build) and '
        'checks that TLS is served on the configured port, with the configured certificate, and on no other port that was '
        'mentioned. Distinct by call sequence; evaluations are settings compared or servers probed.')
CASES = (7500, 45000)
FLOOR = 3000
PATHS = ['', 'key.pem', 'templates/key.pem', '/etc/x', 'a b', 'é', './x/../y', 'KEY.PEM', 'x' * 300]
PAIRS = [('key.pem', 'cert.pem'), ('key2.pem', 'cert2.pem')]
DEF = {'keep_alive': str(5 * 10**9), 'key': '', 'cert': '', 'port': 443}


def build():
    return {k: build_sut(k) for k in ('full', 'rustls', 'openssl')}


def make(rng, i, tier):
    wire = i % 10 == 9
    keys = [p[0] for p in PAIRS] if wire else PATHS
    certs = [p[1] for p in PAIRS] if wire else PATHS
    ports = [0, 1, 2] if wire else [0, 1, 80, 443, 8000, 8443, 65535, 256]
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4, 6, 10, 20])):
        on = rng.choice([None, None, 1, 2, 3])
        k = rng.choice(['keepalive', 'ssl', 'ssl', 'ssl', 'with_ssl', 'with_ssl', 'apply', 'apply', 'route', 'mount', 'threads', 'field'])
        o = {'op': k}
        if k == 'apply':
            o['conf'] = rng.choice([1, 2, 3])
        elif k == 'route':
            o.update(method='get', path=rng.choice(['/', '/a/:b']), h={'rid': 1, 'flow': 'stop', 'obs': 'tok', 'acts': []})
        elif k == 'threads':
            o.update(on=rng.choice([1, 2, 3]), n=rng.choice([0, 1, 4]))
        elif k != 'mount':
            o['on'] = on
            if k == 'keepalive':
                o.update(s=rng.choice([0, 1, 5, 5, 60, 10**6]), ns=rng.choice([0, 0, 1, 999999999]))
            if k == 'ssl':
                o.update(port=rng.choice(ports), rev=rng.random() < .5)
            if k == 'with_ssl' and rng.random() < .4:
                o['sport'] = rng.choice(ports)
            if k == 'field':
                if rng.random() < .4:
                    o['ka'] = rng.choice(['none', 'none', 0, 5, 77])
                if rng.random() < .3:
                    o['port'] = rng.choice(ports)
                if rng.random() < .2:
                    o['whole'] = True
                if rng.random() < .3:
                    o['key'] = rng.choice(keys)
                if rng.random() < .3:
                    o['cert'] = rng.choice(certs)
            if k in ('ssl', 'with_ssl'):
                if rng.random() < (.9 if k == 'with_ssl' else .6):
                    o['key'] = rng.choice(keys)
                if rng.random() < (.9 if k == 'with_ssl' else .6):
                    o['cert'] = rng.choice(certs)
        ops.append(o)
    case = {'ops': ops, 'wire': None}
    if wire:
        f = run_model(ops)[-1]['app']
        good = [p for p in PAIRS if p[0] == f['key']] or [PAIRS[rng.randrange(2)]]
        fix = {'op': 'ssl', 'on': None, 'port': f['port'] if f['port'] in ports else rng.choice(ports)}
        if f['key'] != good[0][0]:
            fix['key'] = good[0][0]
        if f['cert'] != good[0][1]:
            fix['cert'] = good[0][1]
        if len(fix) > 3 or f['port'] not in ports:
            ops.append(fix)
        case['wire'] = rng.choice(['rustls', 'openssl'])
    return case


def run_model(ops):
    app, confs, out = dict(DEF), {}, []
    snap = lambda: out.append(dict({str(k): dict(v) for k, v in confs.items()}, app=dict(app)))
    snap()
    for o in ops:
        k = o['op']
        if k == 'apply':
            app = confs.pop(o['conf'], None) or dict(DEF)
        elif k == 'threads':
            confs.setdefault(o['on'], dict(DEF))
        elif k in ('keepalive', 'ssl', 'with_ssl', 'field'):
            t = app if o['on'] is None else confs.setdefault(o['on'], dict(DEF))
            if k == 'keepalive':
                t['keep_alive'] = str(o['s'] * 10**9 + o['ns'])
            elif k == 'field':
                if o.get('whole'):
                    t.update(key='', cert='', port=443)
                if 'ka' in o:
                    t['keep_alive'] = None if o['ka'] == 'none' else str(o['ka'] * 10**9)
                for f in ('key', 'cert', 'port'):
                    if f in o:
                        t[f] = o[f]
            elif k == 'ssl':
                t['port'] = o['port']
                for f in ('key', 'cert'):
                    if f in o:
                        t[f] = o[f]
            else:  # hands over a key and a certificate
                t['key'], t['cert'] = o.get('key', ''), o.get('cert', '')
        snap()
    return out


def check(env, case):
    ops = case['ops']
    env.seen(ops)
    if case['wire']:
        return wire(env, case)
    if env._sut is None:
        env._sut = Sut(env.binary['full'])
    got = env.sut.cmd('config', ops=ops)['snaps']
    want = run_model(ops)
    for n, (g, w) in enumerate(zip(got, want)):
        for who in w:
            for f in w[who]:
                env.add('evaluations')
                if g.get(who, {}).get(f) != w[who][f]:
                    return (f'after {ops[:n]!r}: {f} of {"the server" if who == "app" else "configuration " + who} is {g.get(who, {}).get(f)!r}, '
                            f'the last call that set it gives {w[who][f]!r}')
    env.add('calls', len(ops))
    return None


def wire(env, case):
    f = run_model(case['ops'])[-1]['app']
    sut = Sut(env.binary[case['wire']], workers=2)
    try:
        for _ in range(5):
            ports = []
            while len(ports) < 3:
                p = pick_port(env_rng(env))
                if p not in ports:
                    ports.append(p)
            ops = []
            for o in case['ops']:
                o = dict(o)
                for k in ('port', 'sport'):
                    if k in o:
                        o[k] = ports[o[k]]
                for k in ('key', 'cert'):
                    if o.get(k):
                        o[k] = os.path.join(VERIF, 'tls', o[k])
                ops.append(o if o['op'] in ('route', 'mount') else {'op': 'config', 'c': o})
            ops = [o for o in ops if o['op'] != 'mount']
            aid, port, _ = sut.start(ops, rng=env_rng(env))
            if port not in ports:
                break
            return None
        want = ssl.PEM_cert_to_DER_cert(open(os.path.join(VERIF, 'tls', f['cert'])).read().split('-----END CERTIFICATE-----')[0] + '-----END CERTIFICATE-----\n')
        end = time.monotonic() + 45
        tp = ports[f['port']]
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        ctx.check_hostname = False
        ctx.verify_mode = ssl.CERT_NONE
        err = None
        while True:
            try:
                with socket.create_connection(('127.0.0.1', tp), 15) as s, ctx.wrap_socket(s) as t:
                    got = t.getpeercert(True)
                break
            except OSError as e:
                err = e
                if 'WARNING' in sut_out(sut) and 'in use' in sut_out(sut):
                    raise Inconclusive('TLS port taken')
                if time.monotonic() > end:
                    return f'TLS is not served on the configured port (last error {err!r}); calls {case["ops"]!r} on {case["wire"]}, expected settings {f!r}'
                time.sleep(.05)
        env.add('evaluations')
        env.add('tls_servers_probed')
        if got != want:
            return f'the TLS certificate served is not the one configured last ({f["cert"]}); calls {case["ops"]!r} on {case["wire"]}'
        for p in ports:
            if p != tp:
                env.add('evaluations')
                try:
                    socket.create_connection(('127.0.0.1', p), 5).close()
                    if listens(sut, p):
                        return f'the server listens on a TLS port that a later call replaced; calls {case["ops"]!r}'
                except OSError:
                    pass
        return None
    finally:
        sut.kill()


def sut_out(sut):
    return sut.stderr()


def listens(sut, port):
    """Does this process (rather than another one) listen on the port?"""
    ino = set()
    for f in os.listdir(f'/proc/{sut.pid}/fd'):
        try:
            ino.add(os.readlink(f'/proc/{sut.pid}/fd/{f}'))
        except OSError:
            pass
    for l in open('/proc/net/tcp').read().splitlines()[1:]:
        v = l.split()
        if v[3] == '0A' and int(v[1].split(':')[1], 16) == port and f'socket:[{v[9]}]' in ino:
            return True
    return False


def env_rng(env):
    import random
    return random
