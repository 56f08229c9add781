"""C28: path!. Crates with random directory trees are generated (alone, as members and as roots of workspaces) and compiled with
the macro of the current tree; which invocations the compiler accepts and the values of those it accepts are compared with the
file system."""
import json, os, random, shutil, subprocess, time
import c24, gen
from core import VERIF, TARGET, REPO, Inconclusive, cargo_env, locked, write_evidence, write_replay
RULE = ('a crate holds a random tree of files, directories and links (dangling, to files, to directories; names with blanks, dots, '
        'Unicode, shell and URL characters), and stands alone, in a workspace, or as its root, in a folder with an unusual name. '
        'Its source invokes path! on existing entries (files, directories, with trailing slash, through .., through links, the '
        'empty literal, siblings of the crate) and on missing ones (near misses, other case, entries that exist only relative to '
        'the workspace root, the working directory or the file system root, dangling links, files used as directories). The '
        'compiler must reject exactly the missing ones, and every other value must be the crate directory followed by the literal. '
        'Distinct by layout and literal; evaluations are invocations judged.')
NAMES = ['a', 'b', 'templates', 'index.html', 'a b', ' x', 'x ', '.hidden', '...', 'é', '日本', 'ß', '%20', '%2e%2e', 'a.b.c', "it's", 'a#b', 'a?b', 'a&b=c', '*', '[x]', '{y}', '{}', '$HOME', '~', '-', '--help', 'A', 'target.txt', 'src',
         'con', 'x' * 120, 'a;b', 'a,b', '(p)', '<t>', '|', '!', '@', '+', '=', '🦀', 'e\u0301', '//c'.strip('/'), 'C:', 'a:b', '0', 'null', 'r', 'r#']
TOML = '''[package]
name = "macgen"
version = "0.1.0"
edition = "2018"
{ws}
[dependencies]
octane = {{ path = "{repo}", default-features = false }}
tokio = {{ version = "0.3", features = ["net", "io-util", "stream", "rt-multi-thread"] }}
lazy_static = "1.4.0"
'''
PROFILE = '''
[profile.dev]
debug = false
incremental = false
'''


def tree(rng, d, depth, out, rel=''):
    for name in rng.sample(NAMES, rng.choice([2, 4, 6]) if depth else 14):
        p, r = os.path.join(d, name), rel + '/' + name
        if os.path.lexists(p):
            continue
        k = rng.random()
        if k < .5:
            with open(p, 'w') as f:
                f.write(r if rng.random() < .8 else '')
        elif k < .8 and depth < 3:
            os.mkdir(p)
            tree(rng, p, depth + 1, out, r)
        elif k < .9 and out:
            os.symlink(d[:len(d) - len(rel)] + rng.choice(out) if rng.random() < .5 else 'missing-target', p)
        else:
            os.mkdir(p)
        out.append(r)


def literals(rng, crate, entries, outer, n):
    """Literals for path!, existing or not (decided by looking at the file system)."""
    c = {'', '/', '/src', '/src/main.rs', '/Cargo.toml', '/src/', '/.', '/..', '/./src', '/../', 'x', '-sibling', '-sibling/f', '/etc/passwd', '/etc', '/tmp', '/usr/bin', '.', '/src/main.rs/', '/Cargo.toml/.', '//src', '///', '/SRC', '/no',
         '/../outer.txt', '/outer.txt', '/target', '/Cargo.lock', '/src/../Cargo.toml', '/no/../Cargo.toml', crate, crate + '/src', 'src', '/cargo.toml', '/src/main.r', '/src/main.rss'}
    for r in outer:
        c.add(r)
    for r in entries:
        c.add(r)
        q = rng.random()
        if q < .2:
            c.add(r + '/')
        elif q < .3:
            c.add(r + '/.')
        elif q < .4:
            c.add(r + '/..')
        elif q < .5:
            c.add(r[:-1])
        elif q < .6:
            c.add(r + rng.choice(['x', ' ', '.', '0']))
        elif q < .7:
            c.add(r.swapcase())
        elif q < .8:
            c.add(r.replace('/', '//'))
        elif q < .9:
            c.add(r[1:])
        else:
            c.add(r + '/' + rng.choice(NAMES))
    out = sorted(x for x in c if '"' not in x and '\\' not in x and '\0' not in x)
    rng.shuffle(out)
    return out[:n]


def layout(rng, base, kind):
    """-> (crate directory, workspace directory, literals)"""
    root = os.path.join(base, rng.choice(['w', 'w s', 'é', 'a.b', 'deep/er']))
    crate = {'alone': root, 'member': os.path.join(root, rng.choice(['m', 'members/m', 'm m'])), 'root': root}[kind]
    os.makedirs(os.path.join(crate, 'src'))
    entries, outer = [], []
    tree(rng, crate, 0, entries)
    if kind != 'alone':
        w = '\n[workspace]\nmembers = ["%s"]\n' % (os.path.relpath(crate, root) if kind == 'member' else 'extra')
    if kind == 'member':
        tree(rng, root, 1, outer)
        with open(os.path.join(root, 'Cargo.toml'), 'w') as f:
            f.write(w + PROFILE)
    if kind == 'root':
        os.makedirs(os.path.join(root, 'extra', 'src'), exist_ok=True)
        with open(os.path.join(root, 'extra', 'Cargo.toml'), 'w') as f:
            f.write('[package]\nname = "extra"\nversion = "0.1.0"\nedition = "2018"\n')
        open(os.path.join(root, 'extra', 'src', 'lib.rs'), 'w').close()
    with open(os.path.join(crate, 'Cargo.toml'), 'w') as f:
        f.write(TOML.format(repo=REPO, ws={'alone': '\n[workspace]\n', 'root': w if kind == 'root' else '', 'member': ''}[kind]) + ('' if kind == 'member' else PROFILE))
    lock = os.path.join(VERIF, 'macgen.lock')
    if os.path.exists(lock):
        with open(os.path.join(root, 'Cargo.lock'), 'w') as f:
            f.write(open(lock).read())
    os.makedirs(crate + '-sibling', exist_ok=True)
    open(crate + '-sibling/f', 'w').close()
    open(os.path.join(os.path.dirname(crate), 'outer.txt'), 'w').close()
    return crate, root, entries, outer


SRC = '''#![allow(unused)]
use octane::prelude::path;
macro_rules! show {{ ($k:expr, $e:expr) => {{ println!("V\\t{{}}\\t{{}}", $k, $e.bytes().map(|b| format!("{{:02x}}", b)).collect::<String>()) }} }}
fn main() {{
    println!("D\\t{{}}", env!("CARGO_MANIFEST_DIR").bytes().map(|b| format!("{{:02x}}", b)).collect::<String>());
{body}
}}
'''


def cargo(cmd, crate, cwd, env):
    return subprocess.run(['cargo', cmd, '--bin', 'macgen', '--offline', '--message-format=json', '--manifest-path', os.path.join(crate, 'Cargo.toml')], cwd=cwd, env=env,
                          stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def source(crate, lits):
    with open(os.path.join(crate, 'src', 'main.rs'), 'w') as f:
        f.write(SRC.format(body='\n'.join(f'    show!({k}, path!("{l}"));' for k, l in lits)))


def round_(seed, kind, n, stats, seen):
    rng = random.Random(f'C28:{seed}:{kind}')
    base = os.path.join(os.path.realpath(TARGET), 'pathgen')  # always the same place, so that build products do not pile up
    tdir = os.path.join(TARGET, 'macgen')
    env = cargo_env(tdir)
    with locked('macgen.lock'):
        try:
            shutil.rmtree(base, ignore_errors=True)
            crate, root, entries, outer = layout(rng, base, kind)
            source(crate, [])
            lits = literals(rng, crate, entries, outer, n)
            cwd = rng.choice([crate, root, base, '/', VERIF])
            d = os.path.join(TARGET, 'routegen-src')
            c24.write(d, {'src/main.rs': 'fn main() {}'})
            c24.refresh(d, tdir, env)
            r = cargo('check', crate, cwd, env)
            if r.returncode:
                raise Inconclusive('the crate or the layout does not build: ' + r.stderr[-1500:])
            good = [(k, l) for k, l in enumerate(lits) if os.path.exists(crate + l)]
            bad = [(k, l) for k, l in enumerate(lits) if not os.path.exists(crate + l)]
            # 1. every missing entry is a compile error, nothing else is
            source(crate, list(enumerate(lits)))
            r = cargo('check', crate, cwd, env)
            lines = open(os.path.join(crate, 'src', 'main.rs'), encoding='utf8').read().split('\n')
            first = next(i for i, l in enumerate(lines) if 'show!(0,' in l) + 1
            at = set()
            for l in r.stdout.splitlines():
                m = json.loads(l)
                if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
                    at.update(s['line_start'] - first for s in m['message']['spans'] if s['is_primary'])
            for k, l in bad:
                stats['evaluations'] += 1
                stats['rejected'] += 1
                if k not in at:
                    return f'{kind} crate in {crate}: path!({l!r}) compiles although {crate + l!r} does not exist'
            for k, l in good:
                if k in at:
                    return f'{kind} crate in {crate} built from {cwd}: path!({l!r}) is refused although {crate + l!r} exists'
            # 2. the values
            source(crate, good)
            r = cargo('build', crate, cwd, env)
            exe = None
            for l in r.stdout.splitlines():
                m = json.loads(l)
                if m.get('reason') == 'compiler-artifact' and m.get('executable'):
                    exe = m['executable']
            if r.returncode or not exe:
                return f'{kind} crate in {crate} built from {cwd}: only existing paths, but it does not compile: {r.stdout[-600:]}'
            o = subprocess.run([exe], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, text=True, cwd='/').stdout
            vals = {}
            for l in o.splitlines():
                f = l.split('\t')
                if f[0] == 'V':
                    vals[int(f[1])] = bytes.fromhex(f[2]).decode('utf8', 'replace')
                elif f[0] == 'D' and bytes.fromhex(f[1]).decode() != crate:
                    raise Inconclusive('harness: other crate directory')
            for k, l in good:
                stats['evaluations'] += 1
                stats['values'] += 1
                if vals.get(k) != crate + l:
                    return f'{kind} crate in {crate} built from {cwd}: path!({l!r}) is {vals.get(k)!r}, expected {crate + l!r}'
            for k, l in enumerate(lits):
                seen.add((kind, l))
            stats['layout_' + kind] += 1
        finally:
            shutil.rmtree(base, ignore_errors=True)
    return None


KINDS = ['alone', 'member', 'root', 'member']
KEYS = ['evaluations', 'rejected', 'values', 'layout_alone', 'layout_member', 'layout_root']


def main(pid, tier, seed):
    t0 = time.monotonic()
    rounds, n = (16, 120) if tier == 'quick' else (120, 400)
    stats, seen = dict.fromkeys(KEYS, 0), set()
    for k in range(rounds):
        kind = KINDS[k % 4]
        p = round_(f'{seed}:{k}', kind, n, stats, seen)
        st = dict(stats)
        cov = {'evaluations': st.pop('evaluations'), 'distinct_nontrivial': len(seen), 'rule': RULE, 'samples': [str(s) for s in sorted(seen)[:3]], 'observed': st}
        if p:
            path = write_replay(pid, seed, {'property': pid, 'case': {'seed': f'{seed}:{k}', 'kind': kind, 'n': n}, 'what': p})
            cov['violation'] = p[:2000]
            write_evidence(pid, tier, seed, 'exploration', cov, time.monotonic() - t0, 1)
            print(f'{pid}: {p[:3000]}\nVIOLATION property={pid} replay={path}')
            return 1
        if time.monotonic() - t0 > (240 if tier == 'quick' else 700):
            break
    write_evidence(pid, tier, seed, 'exploration', cov, time.monotonic() - t0, 0)
    print(f'{pid}: held on {cov["evaluations"]} evaluations ({len(seen)} distinct), {time.monotonic() - t0:.1f} s, seed {seed}, {tier}; observed {json.dumps(cov["observed"])}')
    return 0


def build():
    return None


def check(env, case):
    return round_(case['seed'], case['kind'], case['n'], dict.fromkeys(KEYS, 0), set())
