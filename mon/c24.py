"""C24: the main and test attributes. Async functions are generated from the seed, compiled with the attributes of the current
tree and run; their event traces, results and threads are compared with a simulation of the same function."""
import hashlib, json, os, random, re, subprocess, time
from core import VERIF, TARGET, REPO, Inconclusive, cargo_env, locked, repo_hash, write_evidence, write_replay
RULE = ('async functions are generated (visibility, name, attributes, arguments, generics and where clauses, eight return types; '
        'bodies of events, awaits, loops, early returns, ? on Result and Option, panics, drop guards, spawned tasks, shadowed '
        'names, inner items and loopback network I/O), marked with octane::main or octane::test, compiled and run on random '
        'arguments. Every run must give exactly the events, result or panic of a simulation; real main functions must give the '
        'right exit code; tasks spawned inside main must meet body and each other at a blocking rendezvous and may use megabytes of stack; everything inside '
        'test must run on the thread of the test. Distinct by function; evaluations are runs judged.')
RETS = ['i64', '()', 'String', 'Option<i64>', 'Result<i64, String>', 'Result<(), Box<dyn std::error::Error>>', 'Result<(), String>', 'Vec<i64>']


# ---------------------------------------------------------------- programs: lists of steps over acc and the arguments

def block(rng, ret, depth, n, can_exit=True):
    out = []
    for _ in range(n):
        k = rng.choice(['ev', 'ev', 'add', 'mul', 'yield', 'yield', 'spawn', 'exit', 'exit', 'try', 'try', 'panic', 'loop', 'if', 'guard', 'tcp', 'shadow',
                        'closure', 'inner', 'join', 'match'])
        a, m = rng.randrange(1, 50), rng.choice([2, 3, 4, 5, 7])
        if k in ('loop', 'if', 'match') and depth < 2:
            out.append([k, m, block(rng, ret, depth + 1, rng.choice([1, 2, 3]), can_exit)])
        elif k == 'exit':
            out.append([k, m, a % m])
        elif k == 'try':
            if 'Result' in ret or 'Option' in ret:
                out.append([k, m, a % m])
        elif k == 'panic':
            if rng.random() < .5:
                out.append([k, rng.choice([3, 5, 7, 11]), 1])
        elif k not in ('loop', 'if', 'match'):
            out.append([k, a, m])
    return out


class Exit(Exception):
    pass


class Panic(Exception):
    pass


W = lambda v: (v + 2**63) % 2**64 - 2**63


class Sim:
    def __init__(self, ret):
        self.ret, self.ev, self.n = ret, [], 0

    def run(self, prog, args):
        self.acc = args[0]
        try:
            try:
                self.block(prog)
                res = self.value(self.acc)
            except Exit as e:
                res = e.args[0]
            return self.ev, res
        except Panic as e:
            return self.ev, 'panic ' + e.args[0]

    def value(self, v, err=False):
        r = self.ret
        if r == 'i64':
            return f'{v}'
        if r == '()':
            return '()'
        if r == 'String':
            return f'"s{v}"'
        if r == 'Vec<i64>':
            return f'[{v}, 1]'
        if r == 'Option<i64>':
            return 'None' if err else f'Some({v})'
        if r == 'Result<i64, String>':
            return f'Err("bad{v}")' if err else f'Ok({v})'
        return f'Err("bad{v}")' if err else 'Ok(())'

    def block(self, b):
        guards = []
        try:
            for k, a, m in b:
                if k == 'ev':
                    self.ev.append(a)
                elif k == 'add':
                    self.acc = W(self.acc + a)
                elif k == 'mul':
                    self.acc = W(self.acc * m)
                elif k == 'spawn':
                    self.ev.append(a)
                    self.acc = W(self.acc + a)
                    self.ev.append(a + 1000)
                elif k == 'join':
                    self.acc = W(self.acc + a + m)
                elif k == 'exit':
                    if self.acc % a == m:
                        raise Exit(self.value(self.acc))
                elif k == 'try':
                    if self.acc % a == m:
                        raise Exit(self.value(self.acc, True))
                    self.acc = W(self.acc + 1)
                elif k == 'panic':
                    if self.acc % a == m:
                        raise Panic(f'boom{self.acc}')
                elif k == 'loop':
                    for i in range(a):
                        self.acc = W(self.acc + i)
                        self.block(m)
                elif k == 'if':
                    if self.acc % 2 == 0:
                        self.block(m)
                elif k == 'match':
                    if self.acc % a != 0:
                        self.block(m)
                    else:
                        self.ev.append(7)
                elif k == 'guard':
                    guards.append(a + 2000)
                elif k in ('tcp', 'shadow', 'closure', 'inner'):
                    self.acc = W(self.acc + a)
        finally:
            for g in reversed(guards):
                self.ev.append(g)


UID = [0]


def val(ret, e, err=False):
    if ret == 'i64':
        return e
    if ret == '()':
        return '()'
    if ret == 'String':
        return f'format!("s{{}}", {e})'
    if ret == 'Vec<i64>':
        return f'vec![{e}, 1]'
    if ret == 'Option<i64>':
        return f'Some({e})'
    return f'Ok({e})' if ret == 'Result<i64, String>' else 'Ok(())'


def rust(b, ret, ind='    '):
    out = []
    for k, a, m in b:
        UID[0] += 1
        u = UID[0]
        if k == 'ev':
            s = f'ev({a});'
        elif k == 'add':
            s = f'acc = acc.wrapping_add({a});'
        elif k == 'mul':
            s = f'acc = acc.wrapping_mul({m});'
        elif k == 'yield':
            s = 'nap().await;'
        elif k == 'spawn':
            s = f'acc = tokio::spawn(async move {{ thr(); ev({a}); nap().await; acc.wrapping_add({a}) }}).await.unwrap(); ev({a + 1000});'
        elif k == 'join':
            s = (f'let (j{u}, k{u}) = (tokio::spawn(async {{ nap().await; thr(); {a}i64 }}), tokio::spawn(async {{ thr(); {m}i64 }})); '
                 f'acc = acc.wrapping_add(k{u}.await.unwrap()); acc = acc.wrapping_add(j{u}.await.unwrap());')
        elif k == 'exit':
            s = f'if acc.rem_euclid({a}) == {m} {{ return {val(ret, "acc")}; }}'
        elif k == 'try':
            f = 'maybe' if 'Option' in ret else 'fails'
            s = f'acc = {f}(acc, {a}, {m})?;' if u % 2 else f'acc = async {{ nap().await; {f}(acc, {a}, {m}) }}.await?;'
        elif k == 'panic':
            s = f'if acc.rem_euclid({a}) == {m} {{ panic!("boom{{}}", acc); }}'
        elif k == 'loop':
            s = f'for i in 0..{a}i64 {{ acc = acc.wrapping_add(i);\n{rust(m, ret, ind + "    ")}\n{ind}}}'
        elif k == 'if':
            s = f'if acc.rem_euclid(2) == 0 {{\n{rust(m, ret, ind + "    ")}\n{ind}}}'
        elif k == 'match':
            s = f'match acc.rem_euclid({a}) {{ 0 => ev(7), _ => {{\n{rust(m, ret, ind + "    ")}\n{ind}}} }}'
        elif k == 'guard':
            s = f'let _g{u} = Guard({a + 2000});'
        elif k == 'tcp':
            s = f'acc = acc.wrapping_add(echo({a}).await);'
        elif k == 'shadow':
            s = f'let (builder, runtime, tokio_rt) = ({a}i64, 1, 2); acc = acc.wrapping_add(builder); let _ = (runtime, tokio_rt);'
        elif k == 'closure':
            s = f'let c{u} = |x: i64| -> i64 {{ if x > 1 {{ return {a}; }} 0 }}; acc = acc.wrapping_add(c{u}(5));'
        elif k == 'inner':
            s = f'async fn inner{u}(x: i64) -> i64 {{ nap().await; x }} acc = acc.wrapping_add(inner{u}({a}).await);'
        out.append(ind + s)
    return '\n'.join(out)


ARGS = [('x: i64', 'x{}'), ('b: &str', '"str"'), ('v: Vec<i64>', 'vec![1, 2]'), ('mut m: String', '"m".to_string()'), ('_: bool', 'true'), ('(p, q): (i64, u8)', '(3, 4)'),
        ('f: fn(i64) -> i64', '|x| x'), ('arr: [u8; 2 + 1]', '[0; 3]'), ('d: &dyn std::fmt::Debug', '&5'), ('i: impl Into<i64>', '3i32')]


def function(rng, k, kind):
    """-> dict(decl, call, prog, ret, name)"""
    ret = rng.choice(RETS if kind == 'main' else ['()', '()', 'Result<(), String>', 'Result<(), Box<dyn std::error::Error>>'])
    prog = block(rng, ret, 0, rng.choice([0, 2, 4, 6, 9]))
    name = rng.choice(['f', 'run', 'main_', 'test_', 'r#type', 'server', 'async_fn', 'Ünï']) + str(k)
    if name.startswith('r#type'):
        name = 'r#type' if k == 3 and kind == 'main' else 'r#typ' + str(k)
    attrs = rng.sample(['/// doc: text { with } braces', '#[allow(unused)]', '#[inline(never)]', '#[must_use]', '#[cfg(not(foo))]', '#[deprecated]', '#[cfg_attr(foo, bar)]'],
                       rng.choice([0, 0, 1, 2]))
    f = {'name': name, 'ret': ret, 'prog': prog, 'kind': kind}
    uses = ''
    if kind == 'main':
        extra = rng.sample(ARGS[1:], rng.choice([0, 0, 1, 2, 4]))
        args = [ARGS[0]] + extra
        rng.shuffle(args)
        gl, where = rng.choice([('', ''), ('', ''), ('', ''), ('<T: std::fmt::Debug>', ''), ('<T>', ' where T: std::fmt::Debug'), ("<'a, T: 'a + std::fmt::Debug>", ''), ('<const N: usize>', '')])
        lst = [a for a, _ in args]
        call = [c.format('') if a.startswith('x:') else c for a, c in args]
        if 'T' in gl:
            lst.append("t: &'a T" if "'a" in gl else 't: T')
            call.append('&"gen"' if "'a" in gl else '"gen"')
            uses += '    let _ = format!("{:?}", t);\n'
        if 'const' in gl:
            lst.append('n: [u8; N]')
            call.append('[7; 5]')
            uses += '    assert_eq!(n.len(), N);\n'
        for a, _ in extra:
            n = re.match(r'(?:mut )?(\w+|\(p, q\)):', a).group(1)
            if n == 'm':
                uses += '    m.push_str("n"); assert_eq!(m, "mn");\n'
            elif n == '(p, q)':
                uses += '    assert_eq!((p, q), (3, 4));\n'
            elif n != '_':
                uses += {'b': '    assert_eq!(b, "str");\n', 'v': '    drop(v);\n', 'f': '    assert_eq!(f(9), 9);\n', 'arr': '    assert_eq!(arr.len(), 3);\n',
                         'd': '    assert_eq!(format!("{:?}", d), "5");\n', 'i': '    assert_eq!(i.into(), 3);\n'}[n]
        vis = rng.choice(['', '', 'pub ', 'pub(crate) ', 'pub(super) ', 'pub(in crate) '])
        arrow = '' if ret == '()' and rng.random() < .6 else f' -> {ret}'
        uns = 'unsafe ' if rng.random() < .06 else ''
        order = rng.random() < .5
        mk = rng.choice(['#[octane::main]', '#[octane::main]', '#[octane_main]', '#[octane::main()]'])
        at = ([mk] + attrs) if order else (attrs + [mk])
        head = f'{vis}{"async " + uns if uns else "async "}fn {name}{gl}({", ".join(lst)}{"," if rng.random() < .2 else ""}){arrow}{where}'
        f['call'] = (f'unsafe {{ {name}({", ".join(call)}) }}' if uns else f'{name}({", ".join(call)})')
        start = 'x'
    else:
        at = rng.choice([['#[octane::test]'] + attrs, attrs + ['#[octane::test]'], attrs + ['#[octane_test]']])
        at = [a for a in at if 'deprecated' not in a and 'must_use' not in a]
        f['x'] = rng.randrange(-20, 100)
        exp = Sim(ret).run(prog, [f['x']])
        f['want'] = exp
        outc = exp[1]
        f['should_panic'] = outc.startswith('panic') and rng.random() < .7
        if f['should_panic'] and ret != '()':
            f['should_panic'] = False
        if f['should_panic']:
            at.insert(rng.randrange(len(at) + 1), rng.choice(['#[should_panic]', f'#[should_panic(expected = "{outc[6:]}")]']))
        f['ignored'] = rng.random() < .1
        if f['ignored']:
            at.insert(rng.randrange(len(at) + 1), '#[ignore]')
        arrow = '' if ret == '()' else f' -> {ret}'
        head = f'{rng.choice(["", "", "pub ", "pub(crate) "])}async fn {name}(){arrow}'
        start = f"{{ begin(\"{name.replace('r#', '')}\"); {f['x']} }}"
    body = f'{uses}    thr();\n    let mut acc: i64 = {start};\n{rust(prog, ret)}\n'
    tail = val(ret, 'acc')
    if ret == '()':
        tail = rng.choice(['', '()', 'let _ = acc;'])
    else:
        tail = rng.choice([tail, tail, f'return {tail};' if ret in ('i64', 'String') else tail])
    f['decl'] = '\n'.join(at) + f'\n{head} {{\n{body}    {tail}\n}}\n'
    return f


PRE = '''#![allow(unused, non_snake_case, uncommon_codepoints, deprecated, non_camel_case_types, unused_must_use, unreachable_code, mixed_script_confusables)]
use std::sync::Mutex;
use std::collections::HashMap;
use std::thread::ThreadId;
use octane::main as octane_main;
use octane::test as octane_test;
#[derive(Default)]
pub struct Run { ev: Vec<i64>, foreign: usize, tasks: usize }
thread_local!(static HOME: std::cell::Cell<usize> = std::cell::Cell::new(0));
lazy_static::lazy_static! {
    static ref LOG: Mutex<Run> = Mutex::new(Run::default());
    static ref OWNER: Mutex<Option<ThreadId>> = Mutex::new(None);
}
fn lock() -> std::sync::MutexGuard<'static, Run> { LOG.lock().unwrap_or_else(|e| e.into_inner()) }
pub fn ev(k: i64) { lock().ev.push(k) }
/// Called by bodies and tasks: notes whether this is the thread that called the function.
pub fn thr() {
    let own = *OWNER.lock().unwrap();
    let mut l = lock();
    l.tasks += 1;
    if own != Some(std::thread::current().id()) { l.foreign += 1 }
}
pub fn own() { *OWNER.lock().unwrap() = Some(std::thread::current().id()); }
pub struct Guard(i64);
impl Drop for Guard { fn drop(&mut self) { ev(self.0) } }
pub struct Nap(bool);
impl std::future::Future for Nap {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, c: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 { return std::task::Poll::Ready(()) }
        self.0 = true;
        c.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}
pub fn nap() -> Nap { Nap(false) }
pub fn fails(v: i64, a: i64, m: i64) -> Result<i64, String> { if v.rem_euclid(a) == m { Err(format!("bad{}", v)) } else { Ok(v.wrapping_add(1)) } }
pub fn maybe(v: i64, a: i64, m: i64) -> Option<i64> { if v.rem_euclid(a) == m { None } else { Some(v.wrapping_add(1)) } }
pub async fn echo(k: i64) -> i64 {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let a = l.local_addr().unwrap();
    let t = tokio::spawn(async move {
        let (mut s, _) = l.accept().await.unwrap();
        let mut b = [0u8; 8];
        s.read_exact(&mut b).await.unwrap();
        s.write_all(&b).await.unwrap();
    });
    let mut s = tokio::net::TcpStream::connect(a).await.unwrap();
    s.write_all(&k.to_le_bytes()).await.unwrap();
    let mut b = [0u8; 8];
    s.read_exact(&mut b).await.unwrap();
    t.await.unwrap();
    i64::from_le_bytes(b)
}
fn report(name: &str, x: i64, r: String) {
    let l = std::mem::take(&mut *lock());
    println!("\\nR\\t{}\\t{}\\t{:?}\\t{}\\t{}\\t{}", name, x, l.ev, l.foreign, l.tasks, r.replace('\\n', " "));
}
fn judge<R: std::fmt::Debug>(name: &str, x: i64, f: impl FnOnce() -> R) {
    own();
    *lock() = Run::default();
    let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => format!("{:?}", v),
        Err(e) => format!("panic {}", e.downcast_ref::<String>().map(|s| s.as_str()).or(e.downcast_ref::<&str>().copied()).unwrap_or("?")),
    };
    report(name, x, r)
}
'''
BINPRE = PRE + '''
/// Two spawned tasks and the body must be inside this at the same time.
struct Meet(Mutex<usize>, std::sync::Condvar);
impl Meet {
    fn wait(&self, n: usize) -> bool {
        let mut g = self.0.lock().unwrap();
        *g += 1;
        self.1.notify_all();
        let end = std::time::Instant::now() + std::time::Duration::from_secs(30);
        while *g < n {
            let left = end.saturating_duration_since(std::time::Instant::now());
            if left.as_nanos() == 0 { return false }
            g = self.1.wait_timeout(g, left).unwrap().0;
        }
        true
    }
}
#[octane::main]
async fn rendezvous(n: usize) -> (Vec<bool>, usize) {
    let m = std::sync::Arc::new(Meet(Mutex::new(0), std::sync::Condvar::new()));
    let hs: Vec<_> = (1..n).map(|_| { let m = m.clone(); tokio::spawn(async move { let r = m.wait(n); (r, std::thread::current().id()) }) }).collect();
    let mut out = vec![m.wait(n)];
    let mut ids = std::collections::HashSet::new();
    ids.insert(std::thread::current().id());
    for h in hs { let (r, i) = h.await.unwrap(); out.push(r); ids.insert(i); }
    (out, ids.len())
}
#[octane::main]
async fn background(n: usize) -> usize {
    // tasks progress while the body computes without awaiting
    let c = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    for _ in 0..n {
        let c = c.clone();
        tokio::spawn(async move { nap().await; c.fetch_add(1, std::sync::atomic::Ordering::SeqCst); });
    }
    let end = std::time::Instant::now() + std::time::Duration::from_secs(30);
    while c.load(std::sync::atomic::Ordering::SeqCst) < n && std::time::Instant::now() < end { std::thread::yield_now() }
    c.load(std::sync::atomic::Ordering::SeqCst)
}
/// Uses a megabyte of stack per level.
#[inline(never)]
fn level(n: u64) -> u64 {
    let mut page = [0u8; 1 << 20];
    for i in (0..page.len()).step_by(4096) { page[i] = n as u8; }
    let page = std::hint::black_box(&mut page[..]);
    let below = if n > 1 { level(n - 1) } else { 0 };
    below + page[4096 * (n as usize % 200)] as u64
}
#[octane::main]
async fn deep(n: u64) -> u64 {
    // the documented stack of the threads is ten megabytes
    let hs: Vec<_> = (0..4).map(|_| tokio::spawn(async move { nap().await; level(n) })).collect();
    let mut out = 0;
    for h in hs { out += h.await.unwrap(); }
    out
}
'''
TESTPRE = PRE.replace('static ref LOG: Mutex<Run>', 'static ref ONE: Mutex<()> = Mutex::new(());\n    static ref LOG: Mutex<Run>') + '''
/// Marks the start of a test body (tests run with one test thread, each on a thread of its own named after it).
pub fn begin(name: &str) {
    let t = std::thread::current();
    println!("\\nB\\t{}\\t{:?}", name, t.name());
}
'''


# visibility, and from where the function must be seen: a child of the module next to it, that module, the module above
VIS = [('', (0, 0, 0)), ('pub(self) ', (0, 0, 0)), ('pub(super) ', (1, 1, 0)), ('pub(in crate::vis::outer) ', (1, 1, 0)), ('pub(in crate::vis) ', (1, 1, 1)),
       ('pub(crate) ', (1, 1, 1)), ('pub ', (1, 1, 1))]


def visibility():
    """Functions of each visibility and modules that import them by a glob, with a decoy of the same name further out: where the
    function is not visible, the name means the decoy."""
    decoys = ''.join(f'fn v{k}() -> i64 {{ 0 }} ' for k in range(len(VIS)))
    see = lambda path: ''.join(f'pub fn see{k}() -> i64 {{ use {path}::*; v{k}() }} ' for k in range(len(VIS)))
    fns = ''.join(f'#[octane::main] {v}async fn v{k}() -> i64 {{ 1 }} ' for k, (v, _) in enumerate(VIS))
    t = 'crate::vis::outer::target'
    return f'mod vis {{ pub mod outer {{ pub mod target {{ {fns} }} pub mod inside {{ {decoys} {see(t)} }} {decoys} {see(t)} }} {decoys} {see(t)} }}\n'


def crate(seed, nmain, ntest, nbins):
    rng = random.Random(f'C24:{seed}')
    UID[0] = 0
    mains = [function(rng, k, 'main') for k in range(nmain)]
    tests = [function(rng, k, 'test') for k in range(ntest)]
    lib = BINPRE + 'mod fns { use super::*;\n'
    for f in mains:
        lib += f['decl'] + f'pub fn go_{mains.index(f)}(x: i64) {{ judge("{mains.index(f)}", x, || {f["call"]}) }}\n'
    lib += '}\n' + visibility() + 'fn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n'
    calls = []
    for i, f in enumerate(mains):
        for _ in range(6):
            x = rng.choice([rng.randrange(-30, 100), rng.randrange(0, 12), rng.getrandbits(62)])
            calls.append((i, x))
            lib += f'    fns::go_{i}({x});\n'
    for n in (2, 3, 3):
        lib += f'    judge("meet", {n}, || rendezvous({n}));\n'
    lib += '    judge("bg", 40, || background(40));\n'
    lib += '    judge("deep", 4, || deep(4));\n'
    for k in range(len(VIS)):
        lib += f'    judge("vis", {k}, || (vis::outer::inside::see{k}(), vis::outer::see{k}(), vis::see{k}()));\n'
    lib += '}\n'
    # tests: each prints its log at the end through a guard
    tst = TESTPRE
    for f in tests:
        tst += f['decl'].replace('    thr();\n', '    let _fin = Fin; own_if_named(); thr();\n', 1)
    tst += '''
/// The calling thread of a test is the one the test harness named after it.
fn own_if_named() { *lock() = Run::default(); let n = std::thread::current(); *OWNER.lock().unwrap() = if n.name().map_or(false, |n| !n.starts_with("octane") && !n.starts_with("tokio")) { Some(n.id()) } else { None }; }
struct Fin;
impl Drop for Fin { fn drop(&mut self) { let l = std::mem::take(&mut *lock()); println!("\\nE\\t{:?}\\t{}\\t{}", l.ev, l.foreign, l.tasks); } }
'''
    bins = {}
    for b in range(nbins):
        ret = rng.choice(['()', 'Result<(), String>', 'Result<(), Box<dyn std::error::Error>>'])
        prog = block(rng, ret, 0, rng.choice([2, 5, 8]))
        x = rng.randrange(0, 60)
        src = PRE + f'''#[octane::main]
async fn main(){"" if ret == "()" else " -> " + ret} {{
    own();
    let _p = P;
    let mut acc: i64 = {x};
{rust(prog, ret)}
    {val(ret, "acc")}
}}
struct P;
impl Drop for P {{ fn drop(&mut self) {{ report("main", 0, String::new()) }} }}
'''
        bins[f'm{b}'] = {'src': src, 'want': Sim(ret).run(prog, [x])}
    return {'lib': lib, 'tst': tst, 'mains': mains, 'tests': tests, 'calls': calls, 'bins': bins}


TOML = '''[package]
name = "macgen"
version = "0.1.0"
edition = "2018"

[workspace]

[dependencies]
octane = {{ path = "{repo}", default-features = false }}
tokio = {{ version = "0.3", features = ["net", "io-util", "stream", "rt-multi-thread"] }}
lazy_static = "1.4.0"

[profile.dev]
debug = false
incremental = false

[profile.test]
debug = false
incremental = false
'''


def write(d, files):
    os.makedirs(os.path.join(d, 'src', 'bin'), exist_ok=True)
    os.makedirs(os.path.join(d, 'tests'), exist_ok=True)
    for sub in ('src/bin', 'tests'):
        for f in os.listdir(os.path.join(d, sub)):
            os.unlink(os.path.join(d, sub, f))
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write(TOML.format(repo=REPO))
    lock = os.path.join(VERIF, 'macgen.lock')
    if os.path.exists(lock):
        with open(os.path.join(d, 'Cargo.lock'), 'w') as f:
            f.write(open(lock).read())
    for n, s in files.items():
        with open(os.path.join(d, n), 'w') as f:
            f.write(s)


def refresh(d, tdir, env):
    """Have cargo rebuild the crate's packages if the tree changed since the last build here."""
    h = repo_hash()
    stamp = os.path.join(tdir, 'hash')
    if not os.path.exists(stamp) or open(stamp).read() != h:
        subprocess.run(['cargo', 'clean', '--offline', '-p', 'octane_macros', '-p', 'octane_http', '-p', 'octane', '-p', 'macgen'], cwd=d, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.makedirs(tdir, exist_ok=True)
        with open(stamp, 'w') as f:
            f.write(h)


def compile_(files):
    """-> ({name: path} or None, compiler output)"""
    d = os.path.join(TARGET, 'macgen-src')
    tdir = os.path.join(TARGET, 'macgen')
    write(d, files)
    env = cargo_env(tdir)
    refresh(d, tdir, env)
    r = subprocess.run(['cargo', 'test', '--no-run', '--bins', '--tests', '--offline', '--message-format=json-render-diagnostics'], cwd=d, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        return None, r.stderr
    r = subprocess.run(['cargo', 'build', '--bins', '--offline', '--message-format=json-render-diagnostics'], cwd=d, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        return None, r.stderr
    out = {}
    for l in r.stdout.splitlines():
        m = json.loads(l)
        if m.get('reason') == 'compiler-artifact' and m.get('executable') and m['target']['kind'] == ['bin']:
            out[m['target']['name']] = m['executable']
    r = subprocess.run(['cargo', 'test', '--no-run', '--tests', '--offline', '--message-format=json-render-diagnostics'], cwd=d, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    for l in r.stdout.splitlines():
        m = json.loads(l)
        if m.get('reason') == 'compiler-artifact' and m.get('executable') and m['target']['name'] == 'gen':
            out['tests'] = m['executable']
    return out, ''


def execute(args, timeout=240):
    try:
        return subprocess.run(args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=dict(os.environ, RUST_BACKTRACE='0'))
    except subprocess.TimeoutExpired:
        return None


def norm(r):
    return re.sub(r'Err\("(.*)"\)', r'Err("\1")', r)


CONTROL = {'src/main.rs': 'use octane as _; fn main() {}', 'tests/gen.rs': '#[test] fn x() {}'}


def round_(seed, sizes, stats, seen):
    g = crate(seed, *sizes)
    files = {'src/main.rs': g['lib'], 'tests/gen.rs': g['tst']}
    files.update({f'src/bin/{n}.rs': b['src'] for n, b in g['bins'].items()})
    with locked('macgen.lock'):
        bins, out = compile_(files)
        if bins is None:
            c, o = compile_(CONTROL)
            if c is None:
                raise Inconclusive('the crate does not build: ' + o[-1500:])
            i = out.find('\nerror')
            return 'functions the attributes accept no longer compile: ' + out[i:i + 1500]
        # 1. functions marked main
        r = execute([bins['macgen']])
        if r is None:
            return 'a function marked main did not end'
        lines = [l.split('\t') for l in r.stdout.splitlines() if l.startswith('R\t')]
        if r.returncode or len(lines) != len(g['calls']) + 5 + len(VIS):
            return f'the functions marked main ended the process (status {r.returncode}) after {len(lines)} of {len(g["calls"]) + 5 + len(VIS)} calls: {r.stderr[-500:]}'
        for (i, x), l in zip(g['calls'], lines):
            f = g['mains'][i]
            ev, res = Sim(f['ret']).run(f['prog'], [x])
            stats['evaluations'] += 1
            stats['tasks'] += int(l[5])
            stats['on_worker_threads'] += int(l[4])
            seen.add(f['decl'])
            if l[1] != str(i) or l[2] != str(x):
                raise Inconclusive('harness: output out of step')
            if json.loads(l[3]) != ev or l[6] != res:
                return f'called with x = {x}, the function gave events {l[3]} and {l[6]}; its body gives {ev} and {res}:\n{f["decl"]}'
        for l in lines[len(g['calls']):]:
            stats['evaluations'] += 1
            if l[1] == 'meet':
                n = int(l[2])
                if l[6] != f'([{", ".join(["true"] * n)}], {n})':
                    return f'inside main, {n - 1} spawned tasks and the body did not run in parallel on several threads: {l[6]}'
                stats['rendezvous'] += 1
            elif l[1] == 'vis':
                v, w = VIS[int(l[2])]
                stats['visibilities'] += 1
                if l[6] != str(w):
                    return f'a function declared "{v}async fn" and marked main is visible (next to, above, two above its module) as {l[6]}, expected {w}'
            elif l[1] == 'deep':
                if l[6] != '40':
                    return f'inside main, tasks that need four megabytes of stack gave {l[6]} instead of 40'
            elif l[6] != '40':
                return f'inside main, spawned tasks did not run while the body was busy: {l[6]} of 40 ran'
        # 2. real main functions
        for n, b in g['bins'].items():
            r = execute([bins[n]])
            ev, res = b['want']
            stats['evaluations'] += 1
            stats['main_programs'] += 1
            code = 101 if res.startswith('panic') else 1 if res.startswith('Err') else 0
            if r is None or r.returncode != code:
                return f'a program whose main {res} ended with status {r and r.returncode}, expected {code}:\n{b["src"][b["src"].index("#[octane::main]"):]}'
            l = [l.split('\t') for l in r.stdout.splitlines() if l.startswith('R\t')]
            if len(l) != 1 or json.loads(l[0][3]) != ev:
                return f'the main function gave events {l}, its body gives {ev}:\n{b["src"][b["src"].index("#[octane::main]"):]}'
            if code == 1 and res[4:-1] not in r.stderr:
                return f'main returned {res} but the program reported {r.stderr[-300:]!r}'
        # 3. functions marked test
        r = execute([bins['tests'], '--list'])
        names = sorted(l.split(':')[0] for l in r.stdout.splitlines() if l.endswith(': test'))
        want = sorted(f['name'].replace('r#', '') for f in g['tests'])
        if names != want:
            return f'the test harness sees {names}, the functions marked test are {want}'
        for f in g['tests']:
            n = f['name'].replace('r#', '')
            r = execute([bins['tests'], '--exact', n, '--test-threads=2', '--nocapture'])
            if r is None:
                return f'a test did not end: {f["decl"]}'
            stats['evaluations'] += 1
            seen.add(f['decl'])
            ev, res = f['want']
            B = [l.split('\t') for l in r.stdout.splitlines() if l.startswith('B\t')]
            E = [l.split('\t') for l in r.stdout.splitlines() if l.startswith('E\t')]
            if f['ignored']:
                if B or r.returncode:
                    return f'an ignored test ran: {f["decl"]}'
                continue
            fail = (res.startswith('panic') != f['should_panic']) or res.startswith('Err')
            if len(B) != 1 or len(E) != 1 or json.loads(E[0][1]) != ev:
                return f'the test ran {len(B)} times with events {[e[1] for e in E]}, expected once with {ev} ({res}):\n{f["decl"]}\n{r.stderr[-400:]}'
            if bool(r.returncode) != fail:
                return f'a test whose body {res} was reported as {"failed" if r.returncode else "passed"}:\n{f["decl"]}'
            stats['tests'] += 1
            stats['tasks'] += int(E[0][3])
            if int(E[0][2]):
                return f'inside test, {E[0][2]} of {E[0][3]} bodies and tasks ran on another thread than the test:\n{f["decl"]}'
    return None


def main(pid, tier, seed):
    t0 = time.monotonic()
    rounds, sizes = (4, (90, 50, 5)) if tier == 'quick' else (14, (150, 80, 12))
    stats = dict.fromkeys(['evaluations', 'tasks', 'on_worker_threads', 'rendezvous', 'main_programs', 'tests', 'visibilities'], 0)
    seen = set()
    for k in range(rounds):
        p = round_(f'{seed}:{k}', sizes, stats, seen)
        st = dict(stats)
        cov = {'evaluations': st.pop('evaluations'), 'distinct_nontrivial': len(seen), 'rule': RULE, 'samples': [s[:300] for s in sorted(seen)[:3]], 'observed': dict(st, compilations=k + 1)}
        if p:
            path = write_replay(pid, seed, {'property': pid, 'case': {'seed': f'{seed}:{k}', 'sizes': sizes}, 'what': p})
            cov['violation'] = p[:2000]
            write_evidence(pid, tier, seed, 'exploration', cov, time.monotonic() - t0, 1)
            print(f'{pid}: {p[:3000]}\nVIOLATION property={pid} replay={path}')
            return 1
        if time.monotonic() - t0 > 600:
            break
    write_evidence(pid, tier, seed, 'exploration', cov, time.monotonic() - t0, 0)
    print(f'{pid}: held on {cov["evaluations"]} evaluations ({len(seen)} functions), {time.monotonic() - t0:.1f} s, seed {seed}, {tier}; observed {json.dumps(cov["observed"])}')
    return 0


def build():
    return None


def check(env, case):
    return round_(case['seed'], tuple(case['sizes']), dict.fromkeys(['evaluations', 'tasks', 'on_worker_threads', 'rendezvous', 'main_programs', 'tests', 'visibilities'], 0), set())
