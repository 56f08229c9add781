"""C23: derived JSON conversions. Struct shapes are generated from the seed, compiled with the derives of the current tree and
driven by the monitors of jsongen/src/base.rs."""
import hashlib, os, random, re, subprocess, sys, time
import core
from core import VERIF, TARGET, Inconclusive, cargo_env, locked, repo_hash, write_evidence, write_replay
RULE = ('struct shapes are generated (0-24 named or tuple fields, 0-3 type parameters with inline bounds and where '
        'clauses, doc comments, attributes, nesting, trailing commas or not), compiled with the current derives and driven with '
        'random values: exact JSON shape, reading back, round trip, and rejection of other kinds and of missing, renamed, '
        'surplus and wrongly typed fields or elements. Distinct by struct declaration; evaluations are conversions judged.')
NAMES = ['x', 'y', 'a1', 'name', 'value', 'obj', 'it', 'arr', 'val', 'ret', 'data', 'Upper', 'SHOUT', '_under', 'long_field_name_with_many_words', 'é', 'where_', 'struct_x',
         'ty', 'id', 'self_', 'key', 'Some', 'None_', 'z9', 'item', 'from_json', 'to_json', 'b']
TYPES = ['i64', 'bool', 'String', 'Vec<i64>', 'Option<String>', '(i64, bool)', 'Vec<Option<bool>>', 'std::string::String', 'Box<i64>', 'Option<Vec<i64>>',
         'Vec<(String, i64)>']
CONC = ['i64', 'bool', 'String', 'Vec<i64>']


def shape(rng, k, prev):
    """(declaration, type name to use, field names or None, concrete field types)"""
    name = rng.choice(['S', 'Struct', 'T', 'Object', 'Array', 'structure']) + str(k)
    gens = ['T', 'U', 'Abc'][:rng.choice([0, 0, 0, 1, 1, 2, 3])]
    conc = {g: rng.choice(CONC) for g in gens}
    tuple_ = rng.random() < .4
    n = rng.choice([0, 1, 1, 2, 3, 4, 6, 9, 13, 21])
    types = []
    for i in range(n):
        r = rng.random()
        if gens and r < .45:
            g = rng.choice(gens)
            types.append(rng.choice([g, g, f'Vec<{g}>', f'Option<{g}>', f'({g}, i64)', f'Box<{g}>', f'Vec<Option<{g}>>']))
        elif prev and r < .55:
            types.append(rng.choice(prev))
        else:
            types.append(rng.choice(TYPES))
    for g in gens:  # every parameter is used
        if not any(re.search(rf'\b{g}\b', t) for t in types):
            types.append(g)
            n += 1
    if tuple_:  # a tuple as the whole type of a tuple field is not accepted
        types = ['Option<' + t + '>' if t.startswith('(') else t for t in types]
    gl = ''
    where = []
    if gens:
        parts = []
        for g in gens:
            b = rng.choice(['', '', ': Clone', ': Clone + PartialEq', ': std::fmt::Debug', ': PartialEq<' + g + '>', ': Into<' + g + '>'])
            parts.append(g + b)
            if not tuple_ and rng.random() < .35:
                where.append(g + rng.choice([': Clone', ': PartialEq + Clone', ': std::fmt::Debug', ': Into<' + g + '>', ': PartialEq<' + g + '>']))
        gl = '<' + ', '.join(parts) + '>'
    elif not tuple_ and rng.random() < .06:
        where.append('i64: Clone')
    w = ''
    if where:
        w = ' where ' + ', '.join(where) + rng.choice(['', ','])
    vis = rng.choice(['', '', 'pub ', 'pub(crate) '])
    doc = rng.choice(['', '', '/// A struct { with, text }\n', '#[allow(dead_code)]\n', '/** struct Other<T>(T); */\n'])
    fdoc = lambda: rng.choice(['', '', '', '/// field, with: text\n', '#[allow(unused)] '])
    if tuple_:
        fields = None
        body = '(' + ', '.join(fdoc() + t for t in types) + (',' if types and rng.random() < .3 else '') + ');'
        decl = f'{doc}#[derive(FromJSON, ToJSON, Clone, Debug, PartialEq)]\n{vis}struct {name}{gl}{body}'
    else:
        fields = rng.sample(NAMES, len(types))
        body = ' { ' + ', '.join(f'{fdoc()}{f}: {t}' for f, t in zip(fields, types)) + (',' if types and rng.random() < .5 else '') + ' }'
        decl = f'{doc}#[derive(Clone, Debug, PartialEq, ToJSON, FromJSON)]\n{vis}struct {name}{gl}{w}{body}'
    full = name + ('<' + ', '.join(conc[g] for g in gens) + '>' if gens else '')
    ct = [re.sub(r'\b(T|U|Abc)\b', lambda m: conc.get(m.group(1), m.group(1)), t) for t in types]
    return decl, full, fields, ct


def generate(seed, count):
    rng = random.Random(f'C23:{seed}')
    out = ['use crate::base::*;', 'use crate::Value;', 'use octane_macros::{FromJSON, ToJSON};', '']
    run = ['pub fn run(r: &mut Rng, log: &mut Log, n: u64) {']
    prev, decls = [], []
    for k in range(count):
        decl, full, fields, ct = shape(rng, k, prev)
        decls.append(decl)
        out.append(decl)
        gen = ', '.join((f'{f}: ' if fields else '') + 'Gen::gen(r)' for f in (fields or ct))
        made = f'{full.split("<")[0]} {{ {gen} }}' if fields is not None else f'{full.split("<")[0]}({gen})'
        out.append(f'impl Gen for {full} {{ fn gen(r: &mut Rng) -> Self {{ {made} }} fn wrong(_: &mut Rng) -> Value {{ Value::Bool(true) }} }}\n')
        acc = fields if fields is not None else [str(i) for i in range(len(ct))]
        parts = ', '.join(f'crate::ToJSON::to_json(s.{a}.clone()).unwrap()' for a in acc)
        wr = ', '.join(f'<{t} as Gen>::wrong(r)' for t in ct)
        nm = 'None' if fields is None else 'Some(&[' + ', '.join(f'"{f}"' for f in fields) + '])'
        label = decl.replace('\\', '').replace('"', '').replace('\n', ' ')[:200]
        run.append(f'    drive::<{full}>({json_str(label)}, {nm}, |s| vec![{parts}], |r| vec![{wr}], r, log, n);')
        if len(prev) < 12 and ct:
            out.append(f'type Alias{k} = {full};\n')
            prev.append(f'Alias{k}')
    run.append('}')
    return '\n'.join(out + run) + '\n', decls


def json_str(s):
    return '"' + s.replace('{', '(').replace('}', ')') + '"'


def compile_shapes(src):
    """Build jsongen with this shapes file. Returns (binary or None, compiler output)."""
    with locked('json.lock'):
        d = os.path.join(TARGET, 'json', 'shapes-' + hashlib.sha256(src.encode()).hexdigest()[:12])
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'shapes.rs'), 'w') as f:
            f.write(src)
        cdir = os.path.join(VERIF, 'jsongen')
        env = cargo_env(os.path.join(TARGET, 'json'))
        env['SHAPES'] = d
        h = repo_hash([cdir])
        stamp = os.path.join(TARGET, 'json', 'hash')
        if not os.path.exists(stamp) or open(stamp).read() != h:
            subprocess.run(['cargo', 'clean', '--offline', '-p', 'octane_macros', '-p', 'jsongen'], cwd=cdir, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            with open(stamp, 'w') as f:
                f.write(h)
        r = subprocess.run(['cargo', 'build', '--offline'], cwd=cdir, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        subprocess.run(['rm', '-rf', d])
        if r.returncode:
            return None, r.stdout
        b = os.path.join(TARGET, 'json', 'jsongen-run')
        subprocess.check_call(['cp', os.path.join(TARGET, 'json', 'debug', 'jsongen'), b])
        return b, ''


CONTROL = 'use crate::base::*;\npub fn run(_: &mut Rng, _: &mut Log, _: u64) {}\n'


def run_src(src, n, seed):
    """-> (evaluations, types, problem)"""
    b, out = compile_shapes(src)
    if b is None:
        c, o = compile_shapes(CONTROL)
        if c is None:
            raise Inconclusive('the macro crate does not build: ' + o[-1500:])
        errs = [l for l in out.splitlines() if l.startswith('error')]
        i = out.find('\nerror')
        return 0, 0, 'structs the derives accept no longer compile: ' + ' | '.join(errs[:3]) + ' ... ' + out[i:i + 1200]
    r = subprocess.run([b, str(n), str(seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        return 0, 0, f'a derived conversion panicked: {r.stderr[-800:]}'
    lines = r.stdout.splitlines()
    e, t = map(int, lines[0].split())
    bad = [l[4:] for l in lines[1:] if l.startswith('BAD')]
    return e, t, bad[0][:1500] if bad else None


def main(pid, tier, seed):
    t0 = time.monotonic()
    rounds, count, n = (2, 110, 60) if tier == 'quick' else (25, 150, 300)
    ev = types = 0
    seen, samples = set(), []
    for k in range(rounds):
        src, decls = generate(f'{seed}:{k}', count)
        e, t, p = run_src(src, n, seed * 1000 + k)
        ev += e
        types += t
        seen.update(decls)
        samples += [d[:200] for d in decls[:2]]
        cov = {'evaluations': ev, 'distinct_nontrivial': len(seen), 'rule': RULE, 'samples': samples[:4], 'observed': {'derived_types': types, 'compilations': k + 1}}
        if p:
            path = write_replay(pid, seed, {'property': pid, 'case': {'src': src, 'n': n, 'seed': seed * 1000 + k}, 'what': p})
            cov['violation'] = p
            write_evidence(pid, tier, seed, 'exploration', cov, time.monotonic() - t0, 1)
            print(f'{pid}: {p}\nVIOLATION property={pid} replay={path}')
            return 1
        if time.monotonic() - t0 > 700:
            break
    write_evidence(pid, tier, seed, 'exploration', cov, time.monotonic() - t0, 0)
    print(f'{pid}: held on {ev} evaluations ({len(seen)} struct shapes), {time.monotonic() - t0:.1f} s, seed {seed}, {tier}')
    return 0


def build():
    return None


def check(env, case):
    return run_src(case['src'], case['n'], case['seed'])[2]
