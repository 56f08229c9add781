"""Common machinery: building the SUT, talking to it, raw HTTP client, evidence, runner."""
import contextlib, fcntl, hashlib, json, os, random, re, resource, signal, socket, subprocess, sys, time
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
TARGET = os.path.join(VERIF, 'target')
EVID = os.path.join(VERIF, 'evidence')
SIX = 'faithful,raw_headers,query_strings,extended_queries,cookies,url_variables'
VARIANTS = {
    'full': SIX,
    'min': '',
    'lines': SIX + ',lines',
    'paths': SIX + ',paths',
    'default': 'faithful,query_strings,cookies,url_variables,raw_headers',
    'rustls': SIX + ',rustls',
    'openssl': SIX + ',openSSL',
    'f_faithful': 'faithful', 'f_raw_headers': 'raw_headers', 'f_query_strings': 'query_strings',
    'f_extended_queries': 'extended_queries', 'f_cookies': 'cookies', 'f_url_variables': 'url_variables',
}


class Inconclusive(Exception):
    """The check could not observe what it needs: neither held nor violated."""


class Died(Exception):
    """The SUT process ended while it should be serving."""


# ------------------------------------------------------------------ building

def repo_hash(extra=()):
    h = hashlib.sha256()
    roots = [REPO] + list(extra)
    for root in roots:
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ('target', '.git', 'node_modules'))
            for f in sorted(files):
                if f.endswith(('.rs', '.toml', '.lock', '.html')):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b'\0')
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
                    h.update(b'\0')
    return h.hexdigest()


@contextlib.contextmanager
def locked(name):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, name), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def cargo_env(target):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    e.update(CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    return e


def run_cargo(args, env, cwd):
    r = subprocess.run(args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        raise Inconclusive('build failed: ' + ' '.join(args))
    return r.stdout


def build_crate(crate, variant, features=None, sanitizer=None, bins=None, extra_clean=()):
    """Build /verif/<crate> against the current /repo; returns the path of the binary."""
    cdir = os.path.join(VERIF, crate)
    bins = bins or [crate]
    key = f'{crate}-{variant}' + (f'-{sanitizer}' if sanitizer else '')
    out = os.path.join(TARGET, 'bin')
    with locked('build.lock'):
        os.makedirs(out, exist_ok=True)
        h = repo_hash([cdir])
        stamp = os.path.join(out, key + '.stamp')
        paths = [os.path.join(out, key if b == crate else key + '-' + b) for b in bins]
        if os.path.exists(stamp) and open(stamp).read() == h and all(map(os.path.exists, paths)):
            return paths[0] if len(paths) == 1 else paths
        tdir = os.path.join(TARGET, sanitizer or 'cargo')
        env = cargo_env(tdir)
        last = os.path.join(tdir, crate + '.hash')
        if not os.path.exists(last) or open(last).read() != h:
            if os.path.isdir(tdir):
                pk = ['-p', 'octane', '-p', 'octane_http', '-p', 'octane_macros', '-p', crate]
                tgt = ['--target', 'x86_64-unknown-linux-gnu'] if sanitizer else []
                for prof in ([], ):
                    subprocess.run(['cargo', 'clean', '--offline'] + pk + tgt, cwd=cdir, env=env,
                                   stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if sanitizer:
                    subprocess.run(['cargo', 'clean', '--offline', '-p', 'octane_macros'], cwd=cdir, env=env,
                                   stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.makedirs(tdir, exist_ok=True)
        args = ['cargo']
        if sanitizer:
            args.append('+nightly')
        args += ['build', '--offline', '--no-default-features']
        if features:
            args += ['--features', features]
        sub = 'debug'
        if sanitizer == 'tsan':
            env['RUSTFLAGS'] = '-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer'
        if sanitizer == 'asan':
            env['RUSTFLAGS'] = '-Zsanitizer=address -Cunsafe-allow-abi-mismatch=sanitizer'
        if sanitizer:
            args += ['-Zbuild-std', '--target', 'x86_64-unknown-linux-gnu']
            sub = 'x86_64-unknown-linux-gnu/debug'
        run_cargo(args, env, cdir)
        with open(last, 'w') as f:
            f.write(h)
        for b, p in zip(bins, paths):
            tmp = p + '.tmp'
            subprocess.check_call(['cp', os.path.join(tdir, sub, b), tmp])
            os.replace(tmp, p)
        with open(stamp, 'w') as f:
            f.write(h)
        return paths[0] if len(paths) == 1 else paths


def build_sut(variant='full', sanitizer=None):
    return build_crate('sut', variant, VARIANTS[variant], sanitizer)


# ------------------------------------------------------------------ SUT process

def _child_setup():
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # die with the driver
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Sut:
    def __init__(self, binary, workers=4, nofile=0, env=None, mem=None, cwd=None):
        e = {'RUST_BACKTRACE': '0', 'PATH': os.environ.get('PATH', '')}
        e.update(env or {})
        args = [binary, '--workers', str(workers)]
        if nofile:
            args += ['--nofile', str(nofile)]

        def setup():
            _child_setup()
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        self.err = open(os.path.join('/tmp', f'sut-err-{os.getpid()}-{id(self):x}'), 'w+b')
        os.unlink(self.err.name)
        self.p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=e, preexec_fn=setup, cwd=cwd or '/tmp')
        self.pid = self.p.pid
        self.next_id = 1
        self.running = {}
        self.cmd('ping')

    def cmd(self, name, **kw):
        kw['cmd'] = name
        try:
            self.p.stdin.write(json.dumps(kw).encode() + b'\n')
            self.p.stdin.flush()
            while True:
                l = self.p.stdout.readline()
                if not l:
                    raise Died(self.death())
                if l.startswith(b'{"'):
                    return json.loads(l)
        except (BrokenPipeError, ConnectionResetError):
            raise Died(self.death())

    def death(self):
        try:
            rc = self.p.wait(10)
        except subprocess.TimeoutExpired:
            rc = None
        self.err.seek(0)
        return f'server process ended (status {rc}): ' + self.err.read()[-500:].decode('latin1')

    def alive(self):
        return self.p.poll() is None

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode('latin1')

    def start(self, ops, port=None, rng=random, expect_up=True):
        """Start an app; returns (id, port, registration results)."""
        for _ in range(200):
            prt = port or pick_port(rng)
            i = self.next_id
            self.next_id += 1
            r = self.cmd('start', id=i, port=prt, ops=ops)
            if not expect_up:
                return i, prt, r
            if r['ended']:
                self.cmd('stop', id=i)
                if port:
                    raise Inconclusive('cannot bind port')
                continue
            if not r['callbacks']:
                raise Inconclusive('server did not come up')
            return i, prt, r['results']
        raise Inconclusive('no free port')

    def stop(self, i):
        return self.cmd('stop', id=i)

    def events(self):
        return self.cmd('dump')['events']

    def stat(self):
        return self.cmd('stat')

    def asleep(self):
        """Are all threads of the process sleeping right now?"""
        try:
            for t in os.listdir(f'/proc/{self.pid}/task'):
                with open(f'/proc/{self.pid}/task/{t}/stat') as f:
                    if f.read().rsplit(')', 1)[1].split()[0] != 'S':
                        return False
            return True
        except OSError:
            return False

    def cpu(self):
        """CPU ticks used and whether every thread is sleeping."""
        try:
            with open(f'/proc/{self.pid}/stat') as f:
                v = f.read().rsplit(')', 1)[1].split()
            return int(v[11]) + int(v[12])
        except (OSError, IndexError):
            return -1

    def nfds(self):
        return len(os.listdir(f'/proc/{self.pid}/fd'))

    def sockets(self):
        n = 0
        for f in os.listdir(f'/proc/{self.pid}/fd'):
            try:
                if os.readlink(f'/proc/{self.pid}/fd/{f}').startswith('socket:'):
                    n += 1
            except OSError:
                pass
        return n

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout, self.err):
            try:
                f.close()
            except OSError:
                pass


PORTS = [10000, 30000]  # each worker process narrows this to a range of its own


def pick_port(rng, wide=False):
    """A port that nothing listens on at the moment, outside the ephemeral range."""
    while True:
        p = rng.randrange(*PORTS)
        if wide:  # this worker's share of all unprivileged ports
            a, b = rng.choice([(1024, 10000), (10000, 30000), (61000, 65536)])
            p = rng.randrange(*[a + (x - 10000) * (b - a) // 20000 for x in PORTS])
            if PORTS[1] == 30000 and rng.random() < .1:
                p = 65535
        s = socket.socket()
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(('0.0.0.0', p))
            return p
        except OSError:
            pass
        finally:
            s.close()


# ------------------------------------------------------------------ HTTP client

class Reply:
    __slots__ = ('data', 'end', 'sent', 'when')

    def __init__(self, data, end, sent):
        self.data, self.end, self.sent = data, end, sent

    def __repr__(self):
        return f'<{self.end} {self.data[:200]!r}{"..." if len(self.data) > 200 else ""}>'


_hosts = [0]
TICKS = os.sysconf('SC_CLK_TCK')


def connect(port, host=None, timeout=20):
    if host is None:
        _hosts[0] = (_hosts[0] + 1) % 200
        host = f'127.0.0.{_hosts[0] + 1}'
    s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
    s.settimeout(timeout)
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    s.connect((host, port))
    return s


def quiescent_wait(sut, s, grace=4.0, cap=75.0, spin=30):
    """Nothing arrived for a while: is the server idle (then it is not going to answer) or just slow?
    Returns 'idle' (also when it has burnt many seconds of CPU without answering), 'data' or 'slow'."""
    t0 = time.monotonic()
    first = last = sut.cpu()
    idle_since = t0
    import select
    poll = select.poll()
    poll.register(s, select.POLLIN)
    while time.monotonic() - t0 < cap:
        if poll.poll(250):
            return 'data'
        if not sut.alive():
            return 'data'
        c = sut.cpu()
        if c != last:
            # a trickle of ticks is background noise, more is work
            if c - last > 2:
                idle_since = time.monotonic()
            last = c
        if time.monotonic() - idle_since >= grace or c - first > spin * TICKS:
            return 'idle'
    return 'slow'


def ready(s, t):
    """Is there something to read within t seconds? (any descriptor number)"""
    import select
    p = select.poll()
    p.register(s, select.POLLIN)
    return bool(p.poll(int(t * 1000)))


def recv_all(s, sut=None, timeout=5.0, limit=1 << 28):
    """Read until the peer ends the connection. end: eof | reset | hang | timeout."""
    import select
    buf = []
    n = 0
    s.settimeout(timeout)
    while True:
        try:
            d = s.recv(1 << 18)
        except ConnectionError:
            return b''.join(buf), 'reset'
        except (socket.timeout, TimeoutError):
            if sut is None:
                return b''.join(buf), 'timeout'
            w = quiescent_wait(sut, s)
            if w == 'data':
                continue
            return b''.join(buf), 'hang' if w == 'idle' else 'timeout'
        if not d:
            return b''.join(buf), 'eof'
        buf.append(d)
        n += len(d)
        if n > limit:
            return b''.join(buf), 'limit'


def talk(port, parts, sut=None, half=False, host=None, delay=0.0, timeout=5.0, sock=None):
    """Send parts (bytes or list of bytes), then read the whole answer."""
    if isinstance(parts, (bytes, bytearray)):
        parts = [parts]
    s = sock or connect(port, host)
    sent = 0
    broken = False
    try:
        try:
            for i, p in enumerate(parts):
                if i and delay:
                    time.sleep(delay)
                s.sendall(p)
                sent += len(p)
            if half:
                s.shutdown(socket.SHUT_WR)
        except OSError:
            broken = True
        d, end = recv_all(s, sut, timeout)
        if broken and end == 'eof':
            end = 'reset'  # a failed send consumed the socket's error
        return Reply(d, end, sent)
    finally:
        s.close()


STATUS_RE = re.compile(rb'^HTTP/([0-9]\.[0-9]) ([0-9]{3}) ([^\r\n]*)$')
HDR_RE = re.compile(rb'^([!#$%&\'*+\-.0-9A-Z^_`a-z|~]+):[ \t]*(.*?)[ \t]*$', re.S)


class Resp:
    def __init__(self, version, code, reason, headers, body):
        self.version, self.code, self.reason, self.headers, self.body = version, code, reason, headers, body

    def get(self, name):
        v = [x for n, x in self.headers if n.lower() == name.lower()]
        return v[0] if v else None

    def all(self, name):
        return [x for n, x in self.headers if n.lower() == name.lower()]


def parse_response(data):
    """Strict parse of exactly one response followed by the end of the connection.
    Returns (Resp, None) or (None, reason)."""
    i = data.find(b'\r\n\r\n')
    if i < 0:
        return None, 'no complete head' if data else 'no response bytes'
    lines = data[:i].split(b'\r\n')
    m = STATUS_RE.match(lines[0])
    if not m:
        return None, f'bad status line {lines[0][:80]!r}'
    hs = []
    for l in lines[1:]:
        h = HDR_RE.match(l)
        if not h or b'\n' in l or b'\r' in l or b'\0' in l:
            return None, f'bad header line {l[:80]!r}'
        hs.append((h.group(1).decode('latin1'), h.group(2).decode('utf8', 'surrogateescape')))
    body = data[i + 4:]
    r = Resp(m.group(1).decode(), int(m.group(2)), m.group(3).decode('utf8', 'surrogateescape'), hs, body)
    cls = r.all('content-length')
    if len(cls) > 1:
        return None, 'several Content-Length headers'
    if cls:
        if not cls[0].isdigit() or int(cls[0]) != len(body):
            return None, f'Content-Length {cls[0]!r} but {len(body)} body bytes'
    return r, None


def reply_problem(rep, surplus=False):
    """Common judgement of a reply that has to be one complete response. -> (Resp|None, problem|None)
    surplus: the client sent bytes beyond its request; the kernel may then reset the connection at close and
    cut the response (known finding F1), so a cut response is not judged here: (None, None)."""
    if rep.end == 'hang':
        return None, f'no (complete) response while the server is idle; got {len(rep.data)} bytes {rep.data[:60]!r}'
    if rep.end in ('timeout', 'limit'):
        raise Inconclusive(f'{rep.end} waiting for a response')
    r, why = parse_response(rep.data)
    if why and surplus and rep.end == 'reset':
        return None, None
    if why:
        return None, f'not one complete response: {why} ({rep.end})'
    return r, None


def fnv(b):
    h = 0xcbf29ce484222325
    for x in b:
        h = ((h ^ x) * 0x100000001b3) & 0xffffffffffffffff
    return h


PERIOD = 1000003


def pattern(n, seed):
    """Same generator as the SUT's."""
    x = ((seed * 0x9E3779B97F4A7C15) & 0xffffffffffffffff) | 1
    full, n = n, min(n, PERIOD)
    out = bytearray(n)
    M = 0xffffffffffffffff
    for i in range(n):
        x ^= (x << 13) & M
        x ^= x >> 7
        x ^= (x << 17) & M
        out[i] = (x >> 24) & 0xff
    return bytes(out) if full == n else (bytes(out) * (full // n + 1))[:full]


# ------------------------------------------------------------------ dictionary from the sources

_dict = None


def _unescape(v, is_bytes):
    """Value of a Rust (byte) string literal as bytes, or None."""
    out, i = b'', 0
    while i < len(v):
        c = v[i]
        if c != '\\':
            out += c.encode('utf8')
            i += 1
            continue
        e = v[i + 1:i + 2]
        m = re.match(r'\\x([0-9a-fA-F]{2})', v[i:]) or re.match(r'\\u\{([0-9a-fA-F_]+)\}', v[i:])
        if m:
            n = int(m.group(1).replace('_', ''), 16)
            try:
                out += bytes([n]) if is_bytes else chr(n).encode('utf8')
            except (ValueError, UnicodeEncodeError):
                return None
            i += m.end()
        elif e in 'nrt0\\\'"' and e:
            out += {'n': b'\n', 'r': b'\r', 't': b'\t', '0': b'\0'}.get(e, e.encode())
            i += 2
        else:
            return None
    return out


def _literals():
    strs, ints = set(), set()
    for d, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if x not in ('target', '.git', 'tests')]
        for f in sorted(files):
            if not f.endswith('.rs'):
                continue
            txt = open(os.path.join(d, f), encoding='utf8', errors='replace').read()
            txt = re.sub(r'^\s*//.*$', '', txt, flags=re.M)
            for m in re.finditer(r'(b?)"((?:[^"\\\n]|\\.)*)"', txt):
                v = _unescape(m.group(2), m.group(1))
                if v and len(v) <= 60:
                    strs.add(v)
            for m in re.finditer(r"(b?)'((?:[^'\\\n]|\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F]+\}|\\.))'", txt):
                v = _unescape(m.group(2), m.group(1))
                if v:
                    strs.add(v)
            for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:usize|u64|i64|u32|i32|u8|u16)?(?![\w.])', txt):
                try:
                    ints.add(int(m.group(1).replace('_', ''), 0))
                except ValueError:
                    pass
            for m in re.finditer(r'(?<![\w.])([0-9][0-9_]*(?:\s*(?:\*|<<)\s*[0-9][0-9_]*)+)(?![\w.])', txt):
                try:  # products and shifts of literals
                    v = eval(m.group(1).replace('_', ''), {}) if len(m.group(1)) < 30 else 0
                    if v < 1 << 40:
                        ints.add(v)
                except (SyntaxError, ValueError, OverflowError, MemoryError):
                    pass
    return strs, ints


def dictionary():
    """String and integer literals of the current sources: fuel for generators. Literals that are not in the committed
    list of the tree the checks were written for (literals.json) get a larger share."""
    global _dict
    if _dict is not None:
        return _dict
    strs, ints = _literals()
    try:
        base = json.load(open(os.path.join(VERIF, 'mon', 'literals.json')))
        new_s, new_i = sorted(strs - {bytes.fromhex(x) for x in base['str']}), sorted(ints - set(base['int']))
    except OSError:
        new_s, new_i = [], []
    byts = sorted(strs)
    if new_s:
        byts += new_s * (1 + len(byts) // (2 * len(new_s)))
    text = []
    for b in byts:
        try:
            text.append(b.decode('utf8'))
        except UnicodeDecodeError:
            pass
    _dict = {'str': text, 'bytes': byts, 'int': sorted(ints), 'new_int': new_i}
    return _dict


SIZES = sorted({0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400, 500,
                507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 517, 520, 600, 767, 768, 1000, 1022, 1023, 1024, 1025,
                1026, 1500, 1535, 1536, 1537, 2000, 2047, 2048, 2049, 2560, 3000, 3072, 4000, 4095, 4096, 4097, 5000,
                8191, 8192, 8193, 10000, 16383, 16384, 16385, 20000, 32767, 32768, 32769, 65535, 65536, 65537, 70000,
                100000, 131071, 131072, 131073})
BIG = [200000, 262143, 262144, 262145, 500000, 1 << 20, (1 << 20) + 1, 1 << 21, 3000001]


def size_pool(cap):
    v = set(x for x in SIZES + BIG if x <= cap)
    for i in dictionary()['int']:
        for d in (-1, 0, 1):
            if 0 <= i + d <= cap:
                v.add(i + d)
    new = [i + d for i in dictionary()['new_int'] for d in (-1, 0, 1) if 0 <= i + d <= cap]
    return sorted(list(v) + new * (len(v) // (4 * len(new)) if new else 0))


_giants = {}


def giants(table, caps):
    """The table of far larger cases, plus one per kind for every number that is new in the sources (up to the kind's cap)."""
    k = id(table)
    if k not in _giants:
        new = [n for n in dictionary()['new_int'] if n > 100][-6:]
        _giants[k] = table + [((kind, n + 1) if kind else n) for n in new for kind, cap in caps.items() if n <= cap]
    return _giants[k]


# ------------------------------------------------------------------ runner

SCRATCH = [None]


@contextlib.contextmanager
def scratch_dir():
    import shutil, tempfile
    SCRATCH[0] = tempfile.mkdtemp(prefix='vfmon-')
    try:
        yield
    finally:
        shutil.rmtree(SCRATCH[0], ignore_errors=True)


class Env:
    """Per-process state of a check run."""

    def __init__(self, pid, tier, seed, worker, binary):
        self.prop, self.tier, self.seed, self.worker = pid, tier, seed, worker
        self.binary = binary
        self._sut = None
        self.count = {}
        self.distinct = set()
        self.samples = []
        self.tokn = 0
        self.sut_args = {}

    @property
    def quick(self):
        return self.tier == 'quick'

    @property
    def sut(self):
        if self._sut is None:
            self._sut = Sut(self.binary, **self.sut_args)
        return self._sut

    def reset(self):
        if self._sut is not None:
            self._sut.kill()
            self._sut = None

    def scratch(self):
        """A directory of this worker's own; the runner removes it at the end."""
        d = os.path.join(SCRATCH[0], f'w{self.worker}')
        os.makedirs(d, exist_ok=True)
        return d

    def tok(self):
        self.tokn += 1
        return f'{self.worker}x{self.tokn}'

    def add(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + n

    def seen(self, key):
        """Record one distinct non-trivial case (key identifies it)."""
        if not isinstance(key, (bytes, str)):
            key = json.dumps(key, sort_keys=True, default=str)
        if isinstance(key, str):
            key = key.encode('utf8', 'surrogateescape')
        self.distinct.add(hashlib.blake2b(key, digest_size=8).digest())

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)


def jbytes(b):
    """JSON-able form of bytes."""
    return {'hex': b.hex()} if len(b) <= 1 << 16 else {'hex': b[:1 << 16].hex(), 'cut': len(b)}


def _worker(mod, pid, tier, seed, w, nw, binary, ncases, deadline, q):
    try:
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        PORTS[:] = [10000 + 20000 * w // nw, 10000 + 20000 * (w + 1) // nw]
        env = Env(pid, tier, seed, w, binary)
        if hasattr(mod, 'SUT'):
            env.sut_args = mod.SUT
        res = {'w': w, 'violation': None, 'inconclusive': [], 'cases': 0}
        i = w
        while i < ncases and time.monotonic() < deadline:
            rng = random.Random(f'{pid}:{seed}:{i}')
            case = mod.make(rng, i, tier)
            if case is None:
                i += nw
                continue
            v, inc = judge(mod, env, case)
            if inc:
                res['inconclusive'].append(inc)
                env.reset()
                if len(res['inconclusive']) > 3:
                    break
            if v:
                res['violation'] = {'case': case, 'what': v, 'index': i}
                break
            res['cases'] += 1
            i += nw
        res.update(count=env.count, distinct=list(env.distinct), samples=env.samples)
        env.reset()
        q.put(res)
    except BaseException as e:  # harness error: report as inconclusive
        import traceback
        q.put({'w': w, 'violation': None, 'inconclusive': [traceback.format_exc()[-3000:]], 'cases': 0,
               'count': {}, 'distinct': [], 'samples': [], 'crash': repr(e)})


def judge(mod, env, case):
    """Run one case: (violation text or None, inconclusive text or None)."""
    try:
        v = mod.check(env, case)
        return v, None
    except Died as e:
        env.reset()
        return f'the server process died: {e}', None
    except Inconclusive as e:
        return None, str(e)
    except OSError as e:
        if env._sut is not None and not env._sut.alive():
            d = env._sut.death()
            env.reset()
            return f'the server process died: {d}', None
        return None, f'harness: {e!r}'


def write_evidence(pid, tier, seed, level, coverage, wall, violations, assumptions=()):
    os.makedirs(EVID, exist_ok=True)
    d = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage,
         'wall_s': round(wall, 2), 'violations': violations, 'assumptions': list(assumptions)}
    p = os.path.join(EVID, pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(d, f, indent=1, default=str)
    os.replace(p + '.tmp', p)


def write_replay(pid, seed, data):
    d = os.path.join(EVID, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{pid}-{seed}-{int(time.time())}-{os.getpid()}.json')
    with open(p, 'w') as f:
        json.dump(data, f, indent=1, default=str)
    return p


def known_findings(pid):
    """{finding id: text} listed for a property in KNOWN_FINDINGS.txt."""
    out = {}
    with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')) as f:
        for l in f:
            m = re.match(r'known: property=(\w+) (\w+) (.*)', l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def run_check(mod, pid, tier, seed):
    """Run the whole check; returns the exit code."""
    with scratch_dir():
        return _run_check(mod, pid, tier, seed)


def _run_check(mod, pid, tier, seed):
    t0 = time.monotonic()
    if hasattr(mod, 'build'):
        binary = mod.build()
    else:
        binary = build_sut(getattr(mod, 'VARIANT', 'full'))
    tb = time.monotonic() - t0
    dictionary()
    q_ = tier == 'quick'
    ncases = mod.CASES[0 if q_ else 1]
    cap = getattr(mod, 'CAP', (90, 780))[0 if q_ else 1]
    nw = getattr(mod, 'WORKERS', 6)
    deadline = time.monotonic() + cap
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    ps = [ctx.Process(target=_worker, args=(mod, pid, tier, seed, w, nw, binary, ncases, deadline, q)) for w in range(nw)]
    for p in ps:
        p.start()
    results = []
    viol = None
    hard = deadline + 150
    while len(results) < nw:
        try:
            r = q.get(timeout=1.0)
        except Exception:
            if time.monotonic() > hard:
                break
            continue
        results.append(r)
        if r['violation'] and viol is None:
            viol = r
            break
    for p in ps:
        if viol or time.monotonic() > hard:
            p.terminate()
        p.join(5)
    count, distinct, samples, inc, cases = {}, set(), [], [], 0
    for r in results:
        for k, v in r['count'].items():
            count[k] = count.get(k, 0) + v
        distinct.update(r['distinct'])
        samples += r['samples'][:2]
        inc += r['inconclusive']
        cases += r['cases']
    wall = time.monotonic() - t0
    cov = {'evaluations': count.pop('evaluations', 0), 'distinct_nontrivial': len(distinct), 'rule': mod.RULE,
           'samples': samples[:4], 'cases': cases, 'observed': count, 'build_s': round(tb, 1)}
    if inc:
        cov['inconclusive'] = [x[-300:] for x in inc[:5]]
    if viol:
        v = viol['violation']
        path = write_replay(pid, seed, {'property': pid, 'seed': seed, 'tier': tier, 'what': v['what'], 'case': v['case']})
        cov['violation'] = v['what'][:2000]
        write_evidence(pid, tier, seed, 'exploration', cov, wall, 1)
        print(f'{pid}: {v["what"][:3000]}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    write_evidence(pid, tier, seed, 'exploration', cov, wall, 0)
    floor = getattr(mod, 'FLOOR', 1)
    bad = None
    if len(results) < nw:
        bad = f'{nw - len(results)} workers gave no answer'
    elif any('crash' in r for r in results):
        bad = 'harness error: ' + next(r['inconclusive'][0] for r in results if 'crash' in r)
    elif cov['evaluations'] < floor:
        bad = f'too little observed ({cov["evaluations"]} < {floor}): {inc[:2]}'
    elif len(inc) > max(2, cases // 20):
        bad = f'too many inconclusive cases ({len(inc)} of {cases}): {inc[:2]}'
    if bad:
        print(f'{pid}: INCONCLUSIVE {bad}')
        return 3
    for k, t in known_findings(pid).items():
        print(f'KNOWN-FINDING: property={pid} {k} {t}')
    print(f'{pid}: held on {cov["evaluations"]} evaluations ({cov["distinct_nontrivial"]} distinct non-trivial), '
          f'{wall:.1f} s, seed {seed}, {tier}; observed {json.dumps(count)}')
    return 0
