"""C27: handlers written with route!, route_next! and route_stop!. Programs full of such handlers are generated from the seed,
compiled with the macros of the current tree and served; what every handler run logs and what the client gets are compared with
a simulation of the same bodies."""
import concurrent.futures, json, os, random, shutil, subprocess, tempfile, threading, time
import c24
from core import VERIF, TARGET, REPO, Inconclusive, cargo_env, locked, pick_port, talk, reply_problem, write_evidence, write_replay
RULE = ('a program registers some hundred chains of handlers written with the three macros (bodies: blocks, bare expressions, '
        'conditionals, matches, loops, inner closures, early returns, panics, values of any type at the end; environments: strings, '
        'vectors, copies changed afterwards, shared counters, boxed functions, drop guards, loop variables; any parameter names; '
        'on the server and on mounted routers) and serves it. Each chain is requested with several numbers and methods, one by '
        'one and from eight clients at once. The log of every run and the response must equal a simulation. Distinct by handler '
        'chain, number and method; evaluations are requests judged.')
METHODS = ['get', 'post', 'put', 'patch', 'delete']
STATUS = {'Created': 201, 'Accepted': 202, 'Conflict': 409, 'Gone': 410}
PARAMS = [('req', 'res')] * 6 + [('_req', 'res'), ('r', 's'), ('request', 'response'), ('res', 'req'), ('a', 'b'), ('r#type', 'r#fn'), ('_a', '_b'), ('flow', 'next'), ('body', 'route'), ('é', 'ß')]


def steps(rng, kind, depth, n):
    out = []
    for _ in range(n):
        k = rng.choice(['ev', 'ev', 'cap', 'cap', 'num', 'send', 'send', 'status', 'set', 'if', 'loop', 'ret', 'inner', 'shadow', 'match', 'own', 'brk', 'nap', 'panic'])
        a, m = rng.randrange(1, 1000), rng.choice([2, 3, 4, 5])
        if k in ('if', 'loop', 'match', 'own'):
            if depth < 2:
                out.append([k, m, a % m, steps(rng, kind, depth + 1, rng.choice([1, 2, 3]))])
        elif k == 'panic':
            if rng.random() < .6:
                out.append([k, 7, a % 7])
        elif k == 'ret':
            if kind == 'route':
                out.append([k, m, a % m, rng.choice(['Next', 'Stop'])])
        else:
            out.append([k, m, a])
    return out


TAILS = {'route': ['flow', 'flow', 'cond', 'match', 'ret'], 'route_next': ['none', 'none', 'int', 'Flow::Stop', 'Flow::Next', 'chain', 'cond', 'opt', 'str'],
         'route_stop': ['none', 'none', 'int', 'Flow::Stop', 'Flow::Next', 'chain', 'cond', 'opt', 'str']}
BARE = {'route': ['flow', 'cond', 'match', 'call', 'paren'], 'route_next': ['send', 'ev', 'chain', 'int', 'Flow::Stop', 'unit', 'cond', 'paren'],
        'route_stop': ['send', 'ev', 'chain', 'int', 'Flow::Next', 'unit', 'cond', 'paren']}


def handler(rng, k):
    kind = rng.choice(['route', 'route_next', 'route_stop'] if rng.random() < .7 else ['route_next'])
    h = {'k': k, 'kind': kind, 'method': rng.choice(['get'] * 3 + ['all', 'all'] + METHODS), 'p': rng.choice(PARAMS), 'm': rng.choice([2, 3, 4]), 'v': rng.randrange(1, 10 ** 6),
         'f': rng.choice(['Next', 'Next', 'Stop']), 'cap': rng.choice(['none', 'str', 'copy', 'vec', 'arc', 'boxfn', 'guard', 'pair', 'copy'])}
    if rng.random() < .2:
        h['bare'] = rng.choice(BARE[kind])
        h['cap'] = 'none'
        h['prog'] = []
    else:
        h['prog'] = steps(rng, kind, 0, rng.choice([0, 1, 2, 4, 7]))
        h['tail'] = rng.choice(TAILS[kind])
    return h


# ---------------------------------------------------------------- simulation

class Ret(Exception):
    pass


class Panic(Exception):
    pass


def capval(h):
    v, k = h['v'], h['k']
    return {'none': '0', 'str': f'cap{v}', 'copy': str(v), 'vec': str(v + v + 1), 'arc': str(v + 7), 'boxfn': str(v * 2), 'guard': str(k), 'pair': f'{v}/p{k}'}[h['cap']]


def other(f):
    return 'Stop' if f == 'Next' else 'Next'


def run_handler(h, n, st):
    kind, k = h['kind'], h['k']

    def ev(x):
        st['ev'].append(f'{k}:{x}')

    def run(prog, n):
        for s in prog:
            o, m, a = s[0], s[1], s[2]
            if o == 'ev':
                ev(f'e{a}')
            elif o == 'cap':
                ev('c' + capval(h))
            elif o == 'num':
                ev(f'n{n}')
            elif o == 'send':
                st['body'] = f'h{k} a{a} n{n}'
            elif o == 'status':
                st['code'] = list(STATUS.values())[a % 4]
            elif o == 'set':
                st['hdr'][f'x-h{a % 3}'] = f'k{k} {a}'
            elif o == 'if':
                if n % m == a:
                    run(s[3], n)
            elif o == 'match':
                if n % m != a:
                    run(s[3], n)
            elif o == 'own':
                run(s[3], n + a)
            elif o == 'loop':
                for i in range(m):
                    run(s[3], n + i)
            elif o == 'ret':
                if n % m == a:
                    raise Ret(s[3])
            elif o == 'panic':
                if n % m == a:
                    raise Panic()
            elif o == 'inner':
                ev(f'i{a + n}')
            elif o == 'shadow':
                ev(f's{n * m}')
            elif o == 'brk':
                for i in range(m):
                    ev(f'b{i}')
                    if i == a % m:
                        break
    fixed = {'route_next': 'Next', 'route_stop': 'Stop'}.get(kind)
    try:
        run(h['prog'], n)
    except Ret as e:
        return e.args[0]
    t = h.get('bare') or h['tail']
    if t == 'send':
        st['body'] = f'bare{k}'
    elif t == 'ev':
        ev('bare')
    elif t == 'chain':
        st['code'] = 202
    elif t == 'call':
        ev('call')
    elif t == 'paren' and kind != 'route':
        ev('paren')
    if fixed:
        return fixed
    return h['f'] if t in ('flow', 'ret', 'call', 'paren') or n % h['m'] == 0 else other(h['f'])


def simulate(chain, method, n):
    st = {'ev': [], 'body': None, 'code': None, 'hdr': {}}
    for h in chain:
        if h['method'] not in ('all', method):
            continue
        try:
            if run_handler(h, n, st) == 'Stop':
                break
        except Panic:
            st['panic'] = True
            break
    return st


# ---------------------------------------------------------------- Rust

def rust(h, prog, num, ind):
    rq, rs, k = h['p'][0], h['p'][1], h['k']
    out = []
    cap = {'none': '0', 'str': '&cap', 'copy': 'cap', 'vec': 'cap.iter().sum::<i64>()', 'arc': 'cap.load(std::sync::atomic::Ordering::SeqCst)', 'boxfn': f'cap({h["v"]})', 'guard': 'cap.0',
           'pair': 'format!("{}/{}", cap, cap2)'}[h['cap']]
    for s in prog:
        o, m, a = s[0], s[1], s[2]
        if o == 'ev':
            l = [f'ev({rq}, {k}, "e{a}");']
        elif o == 'cap':
            l = [f'ev({rq}, {k}, &format!("c{{}}", {cap}));']
        elif o == 'num':
            l = [f'ev({rq}, {k}, &format!("n{{}}", {num}));']
        elif o == 'send':
            l = [f'{rs}.send(format!("h{k} a{a} n{{}}", {num}));']
        elif o == 'status':
            l = [f'{rs}.status(StatusCode::{list(STATUS)[a % 4]});']
        elif o == 'set':
            l = [f'{rs}.set("X-H{a % 3}", "k{k} {a}");']
        elif o == 'if':
            l = [f'if {num} % {m} == {a} {{'] + rust(h, s[3], num, ind + 1) + ['}']
        elif o == 'match':
            l = [f'match {num} % {m} {{ {a} => {{}} _ => {{'] + rust(h, s[3], num, ind + 1) + ['} }']
        elif o == 'own':
            l = [f'{{ let num = {num} + {a};'] + rust(h, s[3], 'num', ind + 1) + ['}']
        elif o == 'loop':
            l = [f'for i in 0..{m}i64 {{ let num = {num} + i;'] + rust(h, s[3], 'num', ind + 1) + ['}']
        elif o == 'ret':
            l = [f'if {num} % {m} == {a} {{ return Flow::{s[3]}; }}']
        elif o == 'panic':
            l = [f'if {num} % {m} == {a} {{ panic!("handler {k}"); }}']
        elif o == 'nap':
            l = ['std::thread::sleep(std::time::Duration::from_micros(800));']
        elif o == 'inner':
            l = [f'let f = |z: i64| z + {num}; ev({rq}, {k}, &format!("i{{}}", f({a})));']
        elif o == 'shadow':
            l = [f'{{ let body_ = {num} * {m}; let closure = body_; ev({rq}, {k}, &format!("s{{}}", closure)); }}']
        elif o == 'brk':
            l = [f"let mut i = 0i64; loop {{ ev({rq}, {k}, &format!(\"b{{}}\", i)); if i == {a % m} {{ break; }} i += 1; }}"]
        out += ['    ' * ind + x if not x.startswith(' ') else x for x in l]
    return out


def expr(h):
    """The macro invocation."""
    rq, rs = h['p']
    k, f, m = h['k'], h['f'], h['m']
    n = f'n({rq})'
    cond = f'if {n} % {m} == 0 {{ Flow::{f} }} else {{ Flow::{other(f)} }}'
    match = f'match {n} % {m} {{ 0 => Flow::{f}, _ => Flow::{other(f)} }}'
    if 'bare' in h:
        b = {'flow': f'Flow::{f}', 'cond': cond, 'match': match, 'call': f'call({rq}, {rs}, {k}, Flow::{f})', 'paren': f'(Flow::{f})' if h['kind'] == 'route' else f'(ev({rq}, {k}, "paren"))',
             'send': f'{rs}.send("bare{k}")', 'ev': f'ev({rq}, {k}, "bare")', 'chain': f'{rs}.status(StatusCode::Conflict).status(StatusCode::Accepted)', 'int': '40 + 2', 'unit': '()'}.get(h['bare'], h['bare'])
        return f'{h["kind"]}!(|{rq}, {rs}| {b})'
    t = {'flow': f'Flow::{f}', 'cond': cond, 'match': match, 'ret': f'return Flow::{f};', 'none': '', 'int': '7', 'chain': f'{rs}.status(StatusCode::Accepted)', 'opt': 'Some(3)', 'str': '"text"'}.get(h['tail'], h['tail'])
    use = {'none': '', 'str': 'let _ = &cap;', 'guard': 'let _ = &cap;'}.get(h['cap'], 'let _ = &cap;')
    if h['cap'] == 'pair':
        use += ' let _ = &cap2;'
    lines = rust(h, h['prog'], 'num', 3)
    return f'{h["kind"]}!(|{rq}, {rs}| {{\n            let num = {n}; {use}\n' + '\n'.join(lines) + f'\n            {t}\n        }})'


PRE = '''#![allow(unused, uncommon_codepoints, mixed_script_confusables, non_snake_case)]
use octane::prelude::*;
use octane::request::MatchedRequest;
use octane::responder::Response;
use octane::router::Closure;
use octane::StatusCode;
use std::sync::Mutex;
lazy_static::lazy_static! { static ref LOG: Mutex<Vec<String>> = Mutex::new(Vec::new()); }
fn log(s: String) { LOG.lock().unwrap().push(s) }
fn ev(r: &MatchedRequest, k: usize, what: &str) { log(format!("{} {}:{}", r.headers.get("x-id").map(|s| s.as_str()).unwrap_or("?"), k, what)) }
fn n(r: &MatchedRequest) -> i64 { r.headers.get("x-n").and_then(|v| v.parse().ok()).unwrap_or(0) }
fn call(r: &MatchedRequest, _s: &mut Response, k: usize, f: Flow) -> Flow { ev(r, k, "call"); f }
struct Guard(usize);
impl Drop for Guard { fn drop(&mut self) { log(format!("dropped {}", self.0)) } }
'''

# the documented meaning of the macros, to tell a fault of the generator from one of the macros when a program does not compile
REFERENCE = '''use octane::{Octane, config::Config, router::{Flow, Route, Router}};
macro_rules! route { (|$a:ident, $b:ident| $c:expr) => { Box::new(move |$a, $b| $c) } }
macro_rules! route_next { (|$a:ident, $b:ident| $c:expr) => { Box::new(move |$a, $b| { $c; Flow::Next }) } }
macro_rules! route_stop { (|$a:ident, $b:ident| $c:expr) => { Box::new(move |$a, $b| { $c; Flow::Stop }) } }
'''


def program(seed, nchains):
    rng = random.Random(f'C27:{seed}')
    k, chains, fns, calls = 0, [], [], []
    for c in range(nchains):
        chain = []
        path = f'/c{c}'
        lines = []
        on = rng.choice(['app', 'app', 'router'])
        if on == 'router':
            lines.append('let mut router = Router::new();')
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            h = handler(rng, k)
            k += 1
            chain.append(h)
            e = expr(h)
            v = h['v']
            pre = {'none': '', 'str': f'let cap = String::from("cap{v}");', 'copy': f'let mut cap = {v}i64;', 'vec': f'let cap = vec![{v}i64, {v + 1}];',
                   'arc': f'let cap = std::sync::Arc::new(std::sync::atomic::AtomicI64::new({v})); let keep = cap.clone();', 'guard': f'let cap = Guard({h["k"]});',
                   'boxfn': 'let w = 2i64; let cap: Box<dyn Fn(i64) -> i64 + Send + Sync> = Box::new(move |z| z * w);', 'pair': f'let cap = &{v}i64; let cap2 = String::from("p{h["k"]}");'}[h['cap']]
            post = {'copy': 'cap = -1;', 'arc': f'keep.store({v} + 7, std::sync::atomic::Ordering::SeqCst); drop(keep);'}.get(h['cap'], '')
            if h['cap'] == 'pair':
                pre = pre.replace('&', '').replace('i64;', 'i64;', 1)
            fn = 'add_route' if h['method'] == 'all' else h['method']
            if rng.random() < .2:
                lines.append(f'{{ {pre}\n        let handler: Closure = {e};\n        {post} {on}.{fn}("{path}", handler).unwrap(); }}')
            else:
                lines.append(f'{{ {pre}\n        {on}.{fn}("{path}", {e}).unwrap();\n        {post} }}')
        if on == 'router':
            lines.append('app.with_router(router);')
        chains.append((path, chain))
        fns.append(f'fn chain{c}(app: &mut Octane) {{\n    ' + '\n    '.join(lines) + '\n}\n')
        calls.append(f'chain{c}(&mut app);')
    src = PRE + ''.join(fns) + '''
fn looped(app: &mut Octane) {
    for (i, p) in vec!["/l0", "/l1", "/l2", "/l3"].into_iter().enumerate() {
        app.get(p, route_next!(|req, res| { ev(req, 9000 + i, p) })).unwrap();
        app.get(p, route!(|req, res| { ev(req, 9100 + i, p); if i % 2 == 0 { return Flow::Stop; } Flow::Next })).unwrap();
        app.get(p, route_stop!(|req, res| res.send(p))).unwrap();
        app.get(p, route_stop!(|req, res| ev(req, 9300, "never"))).unwrap();
    }
}
fn main() {
    let port: u16 = std::env::args().nth(1).unwrap().parse().unwrap();
    let mut app = Octane::new();
    app.get("/log", Box::new(|_r: &MatchedRequest, s: &mut Response| { let l: Vec<String> = std::mem::take(&mut *LOG.lock().unwrap()); s.send(format!("{}\\n", l.join("\\n"))); Flow::Stop })).unwrap();
    ''' + '\n    '.join(calls) + '''
    looped(&mut app);
    log("ready".into());
    let rt = tokio::runtime::Builder::new_multi_thread().enable_io().worker_threads(4).build().unwrap();
    rt.block_on(async move { app.listen(port, || { println!("up"); }).await.map_err(|e| e.to_string()).expect("listen") });
}
'''
    return src, chains


def compile_(src):
    """-> (path of the program or None, compiler output); the caller holds the lock"""
    d, tdir = os.path.join(TARGET, 'routegen-src'), os.path.join(TARGET, 'macgen')
    c24.write(d, {'src/main.rs': src})
    env = cargo_env(tdir)
    c24.refresh(d, tdir, env)
    r = subprocess.run(['cargo', 'build', '--bins', '--offline', '--message-format=json-render-diagnostics'], cwd=d, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        return None, r.stderr
    for l in r.stdout.splitlines():
        m = json.loads(l)
        if m.get('reason') == 'compiler-artifact' and m.get('executable') and m['target']['name'] == 'macgen':
            return m['executable'], ''
    raise Inconclusive('no program built')


class Server:
    def __init__(self, exe, rng):
        for _ in range(10):
            self.port = pick_port(rng)
            self.p = subprocess.Popen([exe, str(self.port)], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            if self.p.stdout.readline() == 'up\n':
                # what it prints is read, so that it never waits for a full pipe
                self.drain = threading.Thread(target=self.p.stdout.read, daemon=True)
                self.drain.start()
                return
            self.p.wait()
        raise Inconclusive('the generated server does not come up')

    def alive(self):
        return self.p.poll() is None

    def close(self):
        self.p.kill()
        self.p.wait()
        self.drain.join()
        self.p.stdout.close()

    def request(self, method, path, n, rid, dies=False):
        raw = f'{method.upper()} {path} HTTP/1.1\r\nHost: h\r\nX-N: {n}\r\nX-Id: {rid}\r\n\r\n'.encode()
        for _ in range(3):
            rep = talk(self.port, raw, None, timeout=20)
            if dies:
                return (None, None) if not rep.data else (None, f'{len(rep.data)} bytes received from a panicking handler')
            r, p = reply_problem(rep, False)
            if r is not None or p:
                return r, p
        raise Inconclusive('no answer')

    def log(self):
        r, p = self.request('get', '/log', 0, 0)
        if p or r.code != 200:
            raise Inconclusive('harness: the log cannot be read')
        return [l for l in r.body.decode().split('\n') if l]


def judge(chain, path, method, n, r, p, lines, where):
    st = simulate(chain, method, n)
    what = f'{method.upper()} {path} with number {n} ({where})'
    decl = '\n'.join(f'{h["method"]}: {expr(h)}' for h in chain)
    if lines != st['ev']:
        return f'{what}: the handlers logged {lines}, their bodies give {st["ev"]}:\n{decl}'
    if p:
        return f'{what}: {p}\n{decl}'
    if 'panic' in st:
        return None
    if st['body'] is not None:
        if r.body.decode('utf8', 'replace') != st['body'] or r.code != (st['code'] or 200):
            return f'{what}: answered {r.code} {r.body[:200]!r}, the bodies give {st["code"] or 200} {st["body"]!r}:\n{decl}'
        got = {a.lower(): b for a, b in r.headers if a.lower().startswith('x-h')}
        if got != st['hdr']:
            return f'{what}: headers {got}, the bodies set {st["hdr"]}:\n{decl}'
    elif r.code != 404:
        return f'{what}: answered {r.code} although no handler that runs sends a body:\n{decl}'
    return None


def round_(seed, nchains, stats, seen):
    src, chains = program(seed, nchains)
    rng = random.Random(f'C27r:{seed}')
    with locked('macgen.lock'):
        exe, out = compile_(src)
        if exe is None:
            c, o = compile_(src.replace('use octane::prelude::*;', REFERENCE))
            if c is None:
                raise Inconclusive('the crate or the generated program does not build: ' + o[-1500:])
            i = out.find('\nerror')
            return 'handlers the macros accept no longer compile: ' + out[i:i + 1500]
        tmp = tempfile.mkdtemp(prefix='octane-c27-')
        shutil.copy(exe, tmp + '/server')
    srv = None
    try:
        srv = Server(tmp + '/server', rng)
        first = srv.log()
        if first != ['ready']:
            return f'before any request the handlers logged {first[:5]}'
        jobs = []
        for path, chain in chains:
            ms = {h['method'] for h in chain} - {'all'} or {'get'}
            for _ in range(10):
                jobs.append((path, chain, rng.choice(sorted(ms) + ['get']), rng.choice([rng.randrange(0, 12), rng.randrange(0, 10 ** 6)])))
        rng.shuffle(jobs)
        seq, par = jobs[::2], jobs[1::2]
        for i, (path, chain, m, n) in enumerate(seq):
            r, p = srv.request(m, path, n, f's{i}', 'panic' in simulate(chain, m, n))
            lines = srv.log()
            drop = [l for l in lines if l.startswith('dropped')]
            if drop:
                return f'{m.upper()} {path}: the environment of a handler was dropped while the server runs ({drop[:3]})'
            bad = judge(chain, path, m, n, r, p, [l.split(' ', 1)[1] if l.split(' ', 1)[0] == f's{i}' else l for l in lines], 'alone')
            stats['evaluations'] += 1
            stats['handler_events'] += len(lines)
            stats['panics'] += r is None
            seen.add((path, seed, m, n))
            if bad:
                return bad
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            got = list(ex.map(lambda t: srv.request(t[1][2], t[1][0], t[1][3], f'p{t[0]}', 'panic' in simulate(t[1][1], t[1][2], t[1][3])), enumerate(par)))
        by = {}
        for l in srv.log():
            a, _, b = l.partition(' ')
            if a == 'dropped':
                return f'the environment of handler {b} was dropped while the server runs'
            by.setdefault(a, []).append(b)
        for i, ((path, chain, m, n), (r, p)) in enumerate(zip(par, got)):
            bad = judge(chain, path, m, n, r, p, by.pop(f'p{i}', []), 'eight clients at once')
            stats['evaluations'] += 1
            stats['concurrent'] += 1
            seen.add((path, seed, m, n))
            if bad:
                return bad
        if by:
            return f'handlers logged for requests that were not sent: {str(by)[:300]}'
        for i in range(4):
            r, p = srv.request('get', f'/l{i}', 0, 'l')
            want = [f'l {9000 + i}:/l{i}', f'l {9100 + i}:/l{i}']
            lines = srv.log()
            stats['evaluations'] += 1
            if p or lines != want or (r.code, r.body) != ((404, r.body) if i % 2 == 0 else (200, f'/l{i}'.encode())):
                return f'handlers registered in a loop: GET /l{i} logged {lines} and got {p or (r.code, r.body[:60])}, expected {want}'
        stats['handlers'] += sum(len(c) for _, c in chains)
    finally:
        if srv:
            srv.close()
        shutil.rmtree(tmp, ignore_errors=True)
    return None


KEYS = ['evaluations', 'handler_events', 'concurrent', 'handlers', 'panics']


def main(pid, tier, seed):
    t0 = time.monotonic()
    rounds, n = (3, 220) if tier == 'quick' else (20, 400)
    stats, seen = dict.fromkeys(KEYS, 0), set()
    for k in range(rounds):
        p = round_(f'{seed}:{k}', n, stats, seen)
        st = dict(stats)
        cov = {'evaluations': st.pop('evaluations'), 'distinct_nontrivial': len(seen), 'rule': RULE, 'samples': [str(s) for s in sorted(seen)[:3]], 'observed': dict(st, compilations=k + 1)}
        if p:
            path = write_replay(pid, seed, {'property': pid, 'case': {'seed': f'{seed}:{k}', 'n': n}, 'what': p})
            cov['violation'] = p[:2000]
            write_evidence(pid, tier, seed, 'exploration', cov, time.monotonic() - t0, 1)
            print(f'{pid}: {p[:3000]}\nVIOLATION property={pid} replay={path}')
            return 1
        if time.monotonic() - t0 > 600:
            break
    write_evidence(pid, tier, seed, 'exploration', cov, time.monotonic() - t0, 0)
    print(f'{pid}: held on {cov["evaluations"]} evaluations ({len(seen)} distinct), {time.monotonic() - t0:.1f} s, seed {seed}, {tier}; observed {json.dumps(cov["observed"])}')
    return 0


def build():
    return None


def check(env, case):
    return round_(case['seed'], case['n'], dict.fromkeys(KEYS, 0), set())
