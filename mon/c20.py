import json, os, random, resource, select, socket, ssl, struct, time
import gen, model, heads
from core import Sut, VERIF, build_sut, connect, recv_all, parse_response, pick_port, Died, Inconclusive, Reply, quiescent_wait, size_pool, giants
RULE = ('a case is a batch of exchanges with one server that listens on a plain and a TLS port (rustls and OpenSSL builds, 1-4 '
        'threads). Each request (any size, malformed ones included) is sent over plain TCP and over TLS 1.2 or 1.3 with the '
        'ciphertext cut into random TCP segments and records and read fast or slowly; responses (Date aside) and handler '
        'observations must be equal. Between them: failed, garbage, plain-text, stalled and reset handshakes, sessions that '
        'vanish at random points, and descriptor exhaustion, after which both ports must still serve and no handler may have '
        'run. Distinct by (backend, request, segmentation); evaluations are compared exchanges.')
CASES = (150, 2500)
FLOOR = 800
CAP = (150, 780)
CTX = {}
CAPS = {'': 60 << 20}
GIANT = [x << 20 for x in (1, 4, 8, 10, 17, 34, 50)]


def build():
    return {'rustls': build_sut('rustls'), 'openssl': build_sut('openssl')}


def ops(tport, d):
    def r(m, p, acts, flow='stop', obs='full'):
        return {'op': 'route', 'method': m, 'path': p, 'h': {'rid': len(out), 'flow': flow, 'obs': obs, 'acts': acts}}
    out = []
    out.append({'op': 'ssl', 'port': tport, 'key': VERIF + '/tls/key.pem', 'cert': VERIF + '/tls/cert.pem'})
    out.append(r('use', '', [['panic_if_hdr'], ['set', 'X-G', 'g']], 'next', 'tok'))
    out.append(r('all', '/echo/:v', [['echo_req'], ['cookie', {'name': 'a', 'value': 'b'}]]))
    out.append(r('all', '/body', [['echo_body']]))
    out.append(r('get', '/big', [['send_size', 1500000, 9]]))
    out.append(r('get', '/file', [['send_file', os.path.join(d, 'f.png')]]))
    out.append(r('get', '/redir', [['redirect', '/x'], ['send_str', '']]))
    out.append(r('get', '/none', [['status', 'Created']]))
    for n in (1, 16383, 16384, 16385, 65536, 200000, 9000000, 70000000):
        out.append(r('get', f'/n{n}', [['send_size', n, n]]))
    return out


def context(v, style=None):
    if (v, style) not in CTX:
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        c.load_verify_locations(VERIF + '/tls/ca.pem')
        c.minimum_version = c.maximum_version = ssl.TLSVersion.TLSv1_2 if v == '1.2' else ssl.TLSVersion.TLSv1_3
        c.options |= getattr(ssl, 'OP_IGNORE_UNEXPECTED_EOF', 0)
        if style == 'alpn':
            c.set_alpn_protocols(['h2', 'http/1.1'])
        elif style == 'nosni':
            c.check_hostname = False
        CTX[v, style] = c
    return CTX[v, style]


class Tls:
    """TLS client over memory BIOs, in control of TCP segmentation."""

    def __init__(self, port, v, rng, sut, rcvbuf=0, seg=False, style=None, session=None):
        self.s = socket.socket()
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.settimeout(10)
        self.s.connect(('127.0.0.1', port))
        self.rng, self.seg, self.sut = rng, seg, sut
        self.i, self.o = ssl.MemoryBIO(), ssl.MemoryBIO()
        ctx = context(v, style if style in ('alpn', 'nosni') else None)
        self.c = ctx.wrap_bio(self.i, self.o, server_hostname=None if style == 'nosni' else 'localhost', session=session)
        self.pause = 0
        self.buf = b''
        self.end = None

    def flush(self):
        d = self.o.read()
        while d:
            n = self.rng.choice([1, 5, 50, 500, 2000]) if self.seg else len(d)
            self.s.sendall(d[:n])
            d = d[n:]
            if d and self.seg:
                time.sleep(self.rng.choice([0, .0005, .002]))

    def fill(self, n=65536):
        while True:
            try:
                d = self.s.recv(n)
                break
            except (TimeoutError, socket.timeout):
                w = quiescent_wait(self.sut, self.s)
                if w == 'data':
                    continue
                self.end = 'hang' if w == 'idle' else 'timeout'
                return False
            except ConnectionError:
                self.end = 'reset'
                return False
        if not d:
            self.i.write_eof()
            self.end = 'eof'
            return False
        self.i.write(d)
        return True

    def handshake(self):
        while True:
            try:
                self.c.do_handshake()
                self.flush()
                return True
            except ssl.SSLWantReadError:
                if self.pause:
                    # the first part of the hello, silence, the rest
                    d = self.o.read()
                    self.s.sendall(d[:len(d) // 2])
                    time.sleep(self.pause)
                    self.s.sendall(d[len(d) // 2:])
                    self.pause = 0
                self.flush()
                if not self.fill():
                    return False

    def send(self, parts):
        for k, p in enumerate(parts):
            if k:
                time.sleep(self.rng.choice([0, .001, .003]))
            if p:
                self.c.write(p)
            self.flush()

    def read_all(self, slow=False):
        out = []
        stop = False
        pauses = 4 if slow else 0
        while True:
            try:
                d = self.c.read(65536)
                if not d:
                    return b''.join(out), self.end or 'eof'
                out.append(d)
            except (ssl.SSLWantReadError, ssl.SSLEOFError, ssl.SSLZeroReturnError):
                if stop:
                    return b''.join(out), self.end or 'eof'
                if pauses:
                    time.sleep(.01)
                    pauses -= 1
                if not self.fill(self.rng.choice([10, 2000]) if pauses else 65536):
                    if self.end in ('hang', 'timeout'):
                        return b''.join(out), self.end
                    stop = True
            except ssl.SSLError as e:
                return b''.join(out), 'ssl ' + str(e)[:80]

    def close(self, rst=False):
        if rst:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        self.s.close()


def make(rng, i, tier):
    items = []
    for k in range(12):
        r = rng.random()
        if r < .68:
            items.append(exchange(rng, tier))
        elif r < .95:
            items.append({'kind': 'hostile', 'how': rng.choice(['garbage', 'plain', 'rstearly', 'rsthello', 'stall', 'rsthand', 'finhand', 'badversion',
                          'vanishhead', 'vanishbody', 'vanishresponse', 'panic', 'connect', 'ciphertext']), 'n': rng.choice([1, 2, 5, 20])})
        else:
            items.append({'kind': 'burst', 'n': rng.choice([8, 20])})
    if i % 12 == 0:
        items.insert(rng.randrange(4, 12), {'kind': 'emfile', 'n': rng.choice([70, 110])})
    g = giants(GIANT, CAPS)
    for k in ([i // 2 - 6] if 12 <= i < 12 + 2 * len(g) else []):
        items.insert(rng.randrange(0, len(items)), {'kind': 'x', 'v': rng.choice(['1.2', '1.3']), 'seg': False, 'slow': False, 'parts': rng.choice([1, 3]), 'seed': rng.randrange(1 << 30),
                     'hdr': [], 'm': 'POST', 't': '/body', 'n': g[k] + rng.randrange(1, 9)})
    if 8 <= i < 10:
        items.insert(6, {'kind': 'x', 'v': rng.choice(['1.2', '1.3']), 'seg': False, 'slow': False, 'parts': 1, 'seed': 5, 'hdr': [], 'm': 'GET', 't': '/n70000000', 'n': 0})
    if 6 <= i < 8:
        items = items[:3] + [{'kind': 'crowd', 'n': 4200, 'how': 'idle'}] + items[3:5]
    elif 10 <= i < 12:
        items = items[:3] + [{'kind': 'crowd', 'n': 400, 'how': 'session'}] + items[3:5]
    many = ['garbage', 'rsthello', 'finhand', 'ciphertext', 'rstearly', 'badversion', 'panic', 'vanishbody', 'plain']
    if 40 <= i < 40 + 2 * len(many):  # a long history of one kind of failure
        how = many[i // 2 - 20]
        items = items[:2] + [{'kind': 'hostile', 'how': how, 'n': 1400 if how not in ('panic', 'vanishbody') else 350}] + items[2:5]
    if i < 8:  # long silences at some point of one exchange
        items.append({'kind': 'x', 'v': rng.choice(['1.2', '1.3']), 'seg': False, 'slow': i // 2 == 2, 'parts': 2, 'seed': rng.randrange(1 << 30), 'hdr': [],
                      'm': 'GET' if i // 2 == 2 else 'POST', 't': '/n9000000' if i // 2 == 2 else '/body', 'n': 0 if i // 2 == 2 else 3000,
                      'wait': 11 if tier == 'quick' else 40, 'point': i // 2})
    return {'items': items, 'seed': rng.randrange(1 << 30), 'backend': ['rustls', 'openssl'][i % 2], 'workers': rng.choice([1, 2, 4]),
            'crowd': any(x['kind'] == 'crowd' for x in items)}


def exchange(rng, tier):
    q = {'kind': 'x', 'v': rng.choice(['1.2', '1.3']), 'seg': rng.random() < .4, 'slow': rng.random() < .25, 'parts': rng.choice([1, 1, 2, 4, 8]),
         'seed': rng.randrange(1 << 30), 'style': rng.choice([None] * 5 + ['alpn', 'nosni', 'resume', 'resume', 'crumbs'])}
    r = rng.random()
    if r < .25:
        q.update(m=rng.choice(['POST', 'PUT', 'GET']), t='/echo/' + gen.segment(rng) + rng.choice(['', '?a=b&c=%20d', '?']), n=rng.choice([0, 0, 5, 700]),
                 hdr=[[gen.token(rng, 5), gen.text(rng, 10).strip(' \t') or 'v'] for _ in range(rng.randrange(0, 5))] + ([['Cookie', 'k=v; l=m']] if rng.random() < .4 else []))
    elif r < .5:
        pool = size_pool(140000 if tier == 'quick' else 1200000) + [16384, 16385, 32768]
        q.update(m='POST', t='/body', n=rng.choice(pool), hdr=[])
    elif r < .75:
        q.update(m='GET', t=rng.choice(['/big', '/file', '/n1', '/n16383', '/n16384', '/n16385', '/n65536', '/n200000', '/redir', '/none', '/absent']), n=0, hdr=[])
    elif r < .9:
        q.update(raw=rng.choice(['GET / HTTP/1.1\r\n\r\n', 'GET /\r\n\r\n', 'BREW / HTTP/1.1\r\nHost: a\r\n\r\n', 'GET /../a HTTP/1.1\r\nHost: a\r\n\r\n',
                                 'GET / HTTP/1.1\r\nHost a\r\n\r\n', 'GET /redir HTTP/1.0\r\n\r\n', 'GET /body HTTP/1.0\r\nX: y\r\n\r\n']))
    else:
        q.update(m='POST', t='/body', n=rng.choice([5, 600, 3000]), hdr=[['X-Pad', 'p' * rng.randrange(0, 1200)]], cut=rng.random())
    if 'hdr' in q:
        q['hdr'] += gen.lines(rng, .4)
    return q


def raw_of(q, tok):
    rng = random.Random(q['seed'])
    if 'raw' in q:
        return q['raw'].replace('\r\n\r\n', f'\r\nX-Tok: {tok}\r\n\r\n').encode()
    raw = gen.request(q['m'], q['t'], [tuple(h) for h in q['hdr']] + [('X-Tok', tok)], rng.randbytes(q['n']))
    if 'cut' in q:
        raw = raw[:1 + int(q['cut'] * (len(raw) - 1))]
    return raw


def strip_tok(ev, tok):
    out = []
    for e in ev:
        if e.get('tok') != tok:
            continue
        out.append(json.loads(json.dumps(e, sort_keys=True).replace(tok, 'TOK')))
    return out


def view(data, tok):
    """A response with what may differ removed."""
    r, why = parse_response(data)
    if why:
        return ('not one response', why)
    hs = sorted((n, v) for n, v in r.headers if n != 'Date')
    return (r.version, r.code, r.reason, hs, r.body.replace(tok.encode(), b'TOK'))


def check(env, case):
    binary = env.binary[case['backend']]
    d = env.scratch()
    with open(os.path.join(d, 'f.png'), 'wb') as f:
        f.write(random.Random(1).randbytes(300001))
    emf = any(x['kind'] == 'emfile' for x in case['items'])
    if case['crowd']:
        hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
        resource.setrlimit(resource.RLIMIT_NOFILE, (min(hard, 20000), hard))
    sut = Sut(binary, workers=case['workers'], nofile=64 if emf else min(hard, 15000) if case['crowd'] else 0)
    rng = random.Random(case['seed'])
    held = []
    try:
        for _ in range(5):
            tport = pick_port(rng)
            aid, port, _ = sut.start(ops(tport, d))
            if tport != port and up(tport, sut):
                break
        else:
            return 'the TLS port was never opened'
        for k, it in enumerate(case['items']):
            what = f'{case["backend"]}, {case["workers"]} threads, item {k} {str(it)[:300]} of {[x.get("how", x["kind"]) for x in case["items"]]}'
            if it['kind'] == 'x':
                p = one(env, sut, port, tport, it, rng)
                env.add('evaluations')
                if not p:
                    env.seen([case['backend'], {a: b for a, b in it.items()}])
                    env.sample({'backend': case['backend'], 'exchange': str(it)[:200]})
            elif it['kind'] == 'burst':
                p = burst(env, sut, port, tport, it, rng)
            elif it['kind'] == 'crowd':
                p = crowd(env, sut, port, tport, it, rng, held, hard)
            elif it['kind'] == 'emfile':
                p = emfile(env, sut, port, tport, it, rng)
            else:
                p = hostile(env, sut, port, tport, it, rng, held)
            if p:
                return f'{what}: {p}'
            if not sut.alive():
                raise Died(sut.death())
    except OSError as e:
        if not sut.alive():
            raise Died(sut.death())
        if isinstance(e, ConnectionRefusedError):
            return f'connection refused after {[x.get("how", x["kind"]) for x in case["items"]]} ({case["backend"]})'
        raise
    finally:
        for s in held:
            s.close()
        sut.kill()
    return None


def up(port, sut):
    t0 = time.monotonic()
    while time.monotonic() - t0 < 10 and sut.alive():
        try:
            connect(port).close()
            return True
        except ConnectionError:
            time.sleep(.01)
    return False


def one(env, sut, port, tport, q, rng):
    sut.events()
    tok = env.tok() + 'p'
    raw = raw_of(q, tok)
    s = connect(port)
    s.sendall(raw)
    if 'cut' in q:
        s.shutdown(socket.SHUT_WR)
    d1, e1 = recv_all(s, sut)
    s.close()
    ev1 = strip_tok(sut.events(), tok)
    tok2 = tok[:-1] + 't'
    raw = raw_of(q, tok2)
    r = random.Random(q['seed'] + 1)
    style, session = q.get('style'), None
    if style == 'resume':
        c = Tls(tport, q['v'], r, sut)
        try:
            if not c.handshake():
                return f'TLS {q["v"]} handshake failed ({c.end})'
            c.send([gen.request('POST', '/body', [('X-Tok', 'first')], b'first')])
            c.read_all()
            session = c.c.session
        finally:
            c.close()
    c = Tls(tport, q['v'], r, sut, rcvbuf=4096 if q['slow'] else 0, seg=q['seg'], style=style, session=session)
    if 'wait' in q and q['point'] == 3:
        c.pause = q['wait']
        env.add('long_silences')
    env.add('style_' + str(style))
    try:
        if not c.handshake():
            return f'TLS {q["v"]} handshake failed ({c.end})'
        if style == 'resume' and c.c.session_reused:
            env.add('sessions_resumed')
        if style == 'crumbs':
            q = {**q, 'parts': 300}
        cuts = sorted({r.randrange(1, len(raw)) for _ in range(q['parts'] - 1)}) if len(raw) > 1 else []
        try:
            for k, (a, b) in enumerate(zip([0] + cuts, cuts + [len(raw)])):
                if 'wait' in q and q['point'] == k:
                    time.sleep(q['wait'])
                    env.add('long_silences')
                elif k:
                    time.sleep(r.choice([0, .001, .003]) if style != 'crumbs' else 0)
                c.send([raw[a:b]])
            if 'cut' in q:
                try:
                    c.c.unwrap()
                except ssl.SSLError:
                    pass
                c.flush()
                c.s.shutdown(socket.SHUT_WR)
        except ConnectionError:
            pass
        if 'wait' in q and q['point'] == 2:
            time.sleep(q['wait'])
            env.add('long_silences')
        d2, e2 = c.read_all(q['slow'])
    finally:
        c.close()
    if 'timeout' in (e1, e2):
        raise Inconclusive('timeout')
    ev2 = strip_tok(sut.events(), tok2)
    env.add('tls_' + q['v'])
    env.add('response_bytes', len(d2))
    if ev1 != ev2:
        return f'handlers over plain observed {str(ev1)[:400]}, over TLS {str(ev2)[:400]}'
    if 'cut' in q and len(d2) == 0 and e2 != 'hang' and not ev2:
        env.add('cut_without_answer')
        return None
    v1, v2 = view(d1, tok), view(d2, tok2)
    if v1 != v2 or e2 == 'hang':
        return f'plain answer {str(v1)[:300]} ({e1}), TLS answer {str(v2)[:300]} ({e2}, {len(d1)} and {len(d2)} bytes)'
    return None


def burst(env, sut, port, tport, it, rng):
    cs = [Tls(tport, rng.choice(['1.2', '1.3']), rng, sut) for _ in range(it['n'])]
    try:
        for c in cs:
            if not c.handshake():
                return f'handshake failed ({c.end})'
        order = list(range(len(cs)))
        rng.shuffle(order)
        toks = {}
        for i in order:
            toks[i] = env.tok()
            cs[i].send([gen.request('POST', '/body', [('X-Tok', toks[i])], toks[i].encode() * 50)])
        rng.shuffle(order)
        for i in order:
            d, e = cs[i].read_all()
            env.add('evaluations')
            r, why = parse_response(d)
            if why or r.body != toks[i].encode() * 50:
                return f'interleaved session got {d[:200]!r} ({e}), expected its own body'
    finally:
        for c in cs:
            c.close()
    return None


def crowd(env, sut, port, tport, it, rng, held, hard):
    """Very many connections to the TLS port that stay, idle or with an open session, do not keep others from being served."""
    for j in range(min(it['n'], hard - 500)):
        if it['how'] == 'session':
            c = Tls(tport, rng.choice(['1.2', '1.3']), rng, sut)
            held.append(c)
            if not c.handshake():
                return f'handshake number {j} failed ({c.end})'
        else:
            held.append(connect(tport, timeout=30))
            if j % 3 == 0:
                held[-1].sendall(b'\x16\x03\x01\x02\x00\x01')
        env.add('crowd_' + it['how'])
    return alive(env, sut, port, tport, rng)


def emfile(env, sut, port, tport, it, rng):
    held = []
    try:
        for _ in range(it['n']):
            s = socket.socket()
            s.settimeout(5)
            s.connect(('127.0.0.1', tport if rng.random() < .7 else port))
            held.append(s)
        time.sleep(.05)
    finally:
        for s in held:
            s.close()
    env.add('descriptor_exhaustion')
    return alive(env, sut, port, tport, rng)


def alive(env, sut, port, tport, rng):
    q = {'v': rng.choice(['1.2', '1.3']), 'seg': False, 'slow': False, 'parts': 1, 'seed': 3, 'm': 'POST', 't': '/body', 'n': 20, 'hdr': []}
    p = one(env, sut, port, tport, q, rng)
    env.add('evaluations')
    return p and 'good exchange afterwards: ' + p


def hostile(env, sut, port, tport, it, rng, held):
    how = it['how']
    sut.events()
    sut0 = sut.stat()['runs']
    mayrun = how in ('vanishresponse', 'panic')
    for _ in range(it['n']):
        env.add('hostile_' + how)
        p = rude(how, tport, rng, sut, held)
        if p:
            return p
    p = alive(env, sut, port, tport, rng)
    if p:
        return p
    ran = sut.stat()['runs'] - sut0 - 4  # the two good exchanges ran two handlers each
    if not mayrun and ran > 0:
        return f'{ran} handler runs without a complete request'
    return None


def rude(how, tport, rng, sut, held):
    """One client of the TLS port that does not behave."""
    if how in ('vanishhead', 'vanishbody', 'vanishresponse', 'panic'):
        c = Tls(tport, rng.choice(['1.2', '1.3']), rng, sut)
        try:
            if not c.handshake():
                return f'handshake failed ({c.end})'
            if how == 'panic':
                c.send([gen.request('POST', '/body', [('X-Panic', '1')], b'x')])
                c.read_all()
            elif how == 'vanishresponse':
                c.send([gen.request('GET', '/big')])
                c.fill()
            else:
                raw = gen.request('POST', '/body', [('X-Tok', 'bad')], b'z' * 900)
                j = raw.index(b'\r\n\r\n')
                c.send([raw[:rng.randrange(1, j) if how == 'vanishhead' else rng.randrange(j + 4, len(raw))]])
        finally:
            c.close(rst=rng.random() < .6)
        return None
    s = connect(tport)
    try:
        if how == 'garbage':
            s.sendall(rng.randbytes(rng.choice([1, 6, 300])))
        elif how == 'plain':
            s.sendall(gen.request('GET', '/body', [('X-Tok', 'bad')]))
            s.settimeout(.05)
            s.recv(1000)
        elif how in ('rsthello', 'stall', 'rsthand', 'finhand', 'ciphertext'):
            b = ssl.MemoryBIO()
            o = ssl.MemoryBIO()
            c = context('1.2').wrap_bio(b, o, server_hostname='localhost')
            try:
                c.do_handshake()
            except ssl.SSLWantReadError:
                pass
            h = o.read()
            if how in ('rsthello', 'stall'):
                s.sendall(h[:rng.randrange(1, len(h))])
            else:
                s.sendall(h)
                s.settimeout(2)
                s.recv(rng.choice([1, 100, 5000]))
                if how == 'ciphertext':
                    s.sendall(b'\x17\x03\x03\x00\x20' + rng.randbytes(32))
            if how == 'stall' and len(held) < 20:
                held.append(s)
                return None
            if how in ('rsthello', 'rsthand'):
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        elif how == 'rstearly':
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        elif how == 'badversion':
            s.sendall(bytes.fromhex('160300002f0100002b0300') + rng.randbytes(32) + bytes.fromhex('00000400050004 0100'.replace(' ', '')))
            s.settimeout(.05)
            s.recv(1000)
    except OSError:
        pass
    s.close()
    return None
