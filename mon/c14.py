import os, random, shutil, socket, threading, time
import gen, model, respmodel
from core import giants, talk, connect, recv_all, Reply, reply_problem, dictionary, size_pool, Inconclusive
RULE = ('a case is a scratch directory with files of boundary sizes and random contents, symlinks, directories, pipes and '
        'missing names, and an app whose chained handlers send files and bodies in random order; files may grow or be unlinked right after they were sent; clients read at once, '
        'slowly through a small receive window, or several at a time. Bytes, length and type on the wire and the results '
        'send_file returned are compared with the files. Distinct by (operations, sizes, extensions, reader); non-trivial: '
        'at least one send_file.')
CASES = (5400, 32400)
FLOOR = 1500
CAPS = {'': 150 << 20}
GIANT = [x << 20 for x in (8, 10, 16, 20, 32, 50, 64, 100, 130)]
EXTS = sorted(respmodel.MIME)


def name(rng, i):
    r = rng.random()
    if r < .6:
        e = EXTS[i % len(EXTS)] if rng.random() < .6 else rng.choice(EXTS)
        e = rng.choice([e, e, e.upper(), e.capitalize(), ''.join(c.upper() if rng.random() < .5 else c for c in e)])
        return rng.choice(['f', 'a b', 'x.tar', 'é', 'a.html', 'F.', 'page', '.hid', '%41']) + '.' + e
    if r < .68:
        e = rng.choice(EXTS)
        x = rng.choice('~~~~0x_-5!$ ,;=+#%1lsm') if rng.random() < .8 else gen.magic_text(rng, '', lambda c: c not in '/\0' and ord(c) >= 32)[:20]
        return 'f.' + rng.choice([e + x, e + x, e + x, x + e, e[:-1], e[1:], e + e, e + '.', e + '.bak', e + '.' + x, e[::-1]])
    if r < .75:
        return 'f.' + rng.choice(['', 'x', 'html5', 'tx', 'jso', 'unknown', 'ht ml', 'é', 'png.', 'htmlx', '0', 'cssx', 'txt~'])
    if r < .85:
        return rng.choice(['noext', 'html', '.html', '.css', 'png', '..x', 'json'])
    if r < .9:
        t = gen.magic_text(rng, '', lambda c: c not in '/\0' and ord(c) >= 32)
        if t and len(t.encode()) < 100:
            return rng.choice(['g.' + t, 'g' + t, 'g' + t + '.html'])
    return 'd.' + gen.token(rng, 4)


def make(rng, i, tier):
    if i < 6:
        # a client that stops reading for long
        t = [31, 16, 11, 6, 2.5, 1.2][i] * (1 if tier == 'quick' else 4)
        new = sorted({x for n in dictionary()['new_int'] for x in (n, n / 1000, n * 60) if .05 < x <= (45 if tier == 'quick' else 200)})
        if i == 5 and new:
            t = new[-1] + 1.5
        return {'files': [{'name': '0/f.' + rng.choice(EXTS), 'size': rng.choice([9000001, 12 << 20]), 'seed': rng.randrange(1 << 30), 'link': False, 'kind': 'rand'}],
                'hs': [[['send_file', None]]], 'reader': 'slow', 'stall': t, 'unlink': False, 'grow': 0, 'm': 'GET', 'd': None, 'change': []}
    g = giants(GIANT, CAPS)
    if 40 <= i < 40 + len(g):
        n = g[i - 40] + rng.randrange(1, 9)
        return {'files': [{'name': '0/f.' + rng.choice(EXTS), 'size': n, 'seed': rng.randrange(1 << 30), 'link': False, 'kind': 'rand'}],
                'hs': [[['send_file', None]]], 'reader': 'fast', 'stall': 0, 'giant': 1, 'unlink': False, 'grow': 0, 'm': 'GET', 'd': None, 'change': []}
    if i % 25 == 7:
        return {'huge': rng.choice([(1 << 31) - 1, 1 << 31, (1 << 31) + 5, (1 << 32) - 1, 1 << 32, (1 << 32) + 7, (5 << 32) + 3, 10 ** 12]), 'ext': rng.choice(EXTS),
                'd': gen.dress(rng, .3), 'm': rng.choice(['GET', 'POST'])}
    pool = size_pool(140000 if tier == 'quick' else 600000)
    files = []
    for k in range(rng.choice([1, 2, 3])):
        n = rng.choice(pool) if rng.random() < .8 else rng.randrange(0, 20000)
        if i % 30 == 0:
            n = rng.choice([1 << 20, (1 << 20) + 1, 3000001, 5 << 20])
        files.append({'name': f'{k}/' + name(rng, i + k), 'size': n, 'seed': rng.randrange(1 << 30),
                      'link': rng.random() < .1, 'kind': rng.choice(['zero', 'rand', 'rand', 'crlf', 'magic'])})
    bad = ['missing.txt', 'dir', 'dir/', 'dangling', 'dirlink', 'fifo', 'sock', '0/none.html', '', '/dev/null', 'dir.html',
           files[0]['name'] + '/x', 'n' * 300 + '.txt', files[0]['name'] + 'x']
    hs = []
    for k in range(rng.choice([1, 1, 2, 3])):
        acts = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            r = rng.random()
            if r < .55:
                acts.append(['send_file', rng.choice(files)['name']])
            elif r < .75:
                acts.append(['send_file', rng.choice(bad)])
            elif r < .87:
                acts.append(rng.choice([['send_str', 'x' * rng.randrange(0, 50)], ['send_size', rng.choice([0, 1, 511, 2048, 5000]), 5]]))
            else:
                acts.append(rng.choice([['set', 'X-A', 'b'], ['status', 'Created'], ['with_type', 'text/x-own'], ['attachment'], ['status', 'NotFound']]))
        hs.append(acts)
    return {'files': files, 'hs': hs, 'reader': rng.choice(['fast', 'fast', 'slow', 'slow', 'many']),
            'unlink': rng.random() < .15, 'grow': rng.choice([1, 511, 2048, 4097, 50000]) if rng.random() < .12 else 0, 'm': rng.choice(['GET', 'GET', 'POST', 'PUT', 'DELETE', 'PATCH']),
            'd': gen.dress(rng, .4), 'change': [rng.choice(['same', 'swap', 'size', 'gone', 'dir', 'keep']) for _ in range(6)] if rng.random() < .35 else [],
            'up': gen.upset(rng, .15), 'at': [rng.random(), rng.random()]}


def content(f):
    rng = random.Random(f['seed'])
    if f['kind'] == 'zero':
        return bytes(f['size'])
    if f['kind'] == 'crlf':
        return (b'\r\n\r\nHTTP/1.1 200 OK\r\n' * (f['size'] // 20 + 1))[:f['size']]
    if f['kind'] == 'magic':
        return gen.magic_bytes(rng, f['size'])
    return rng.randbytes(f['size'])


def slow_read(port, req, rng, sut, stall=0):
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rng.choice([2304, 4096, 20000]))
    s.settimeout(20)
    s.connect(('127.0.0.1', port))
    try:
        s.sendall(req)
        buf = b''
        pauses = 4
        while pauses:
            time.sleep(rng.choice([.001, .01, .04]) if not stall or pauses != 2 else stall)
            try:
                d = s.recv(rng.choice([1, 100, 1500, 4000]))
            except ConnectionError:
                return Reply(buf, 'reset', len(req))
            except (TimeoutError, socket.timeout):
                break
            if not d:
                return Reply(buf, 'eof', len(req))
            buf += d
            pauses -= 1
        d, end = recv_all(s, sut)
        return Reply(buf + d, end, len(req))
    finally:
        s.close()


def check_huge(env, case):
    """A sparse file of several GB: the head and the first bytes only."""
    base = os.path.join(env.scratch(), 'h')
    os.makedirs(base, exist_ok=True)
    p = f'{base}/big.{case["ext"]}'
    with open(p, 'wb') as f:
        f.truncate(case['huge'])
    sut = env.sut
    aid, port, _ = sut.start([{'op': 'route', 'method': 'use', 'path': '', 'h': {'rid': 1, 'flow': 'next', 'obs': 'none', 'acts': [['send_file', p]]}}])
    try:
        s = connect(port)
        s.sendall(gen.dressed(case['m'], '/f', [('X-Tok', env.tok())], case['d']))
        buf = b''
        s.settimeout(20)
        while b'\r\n\r\n' not in buf or len(buf) < 30000:
            try:
                d = s.recv(65536)
            except (TimeoutError, socket.timeout):
                raise Inconclusive('huge file: no data')
            except ConnectionError:
                d = b''
            if not d:
                return f'file of {case["huge"]} bytes: the response ended after {len(buf)} bytes: {buf[:300]!r}'
            buf += d
        s.close()
        env.add('evaluations')
        env.add('huge_files')
        head, body = buf.split(b'\r\n\r\n', 1)
        hs = [l.split(b': ', 1) for l in head.split(b'\r\n')[1:]]
        cl = [v for n, v in hs if n.lower() == b'content-length']
        if cl != [str(case['huge']).encode()] or body.strip(b'\0'):
            return f'file of {case["huge"]} zero bytes: Content-Length {cl}, body begins {body[:50]!r}'
        ct = [v.decode().split(';')[0] for n, v in hs if n.lower() == b'content-type']
        if ct != [respmodel.MIME[case['ext']]]:
            return f'file {p}: Content-Type {ct}'
        env.seen(['huge', case['huge'], case['ext']])
    finally:
        os.unlink(p)
        sut.events()
        if sut.alive():
            sut.stop(aid)
    return None


def change(p, how, data, seed):
    """Alter a file between two requests; size and times may stay the same."""
    if how == 'keep' or p not in data:
        return
    real = os.path.realpath(p)
    st = os.stat(real)
    rng = random.Random(seed)
    if how in ('same', 'swap', 'size'):
        new = rng.randbytes(len(data[p]) if how != 'size' else max(0, len(data[p]) + rng.choice([-1, 1, 100, 5000, -len(data[p])])))
        if how == 'swap':  # a new file moved into place
            with open(real + '.new', 'wb') as f:
                f.write(new)
            os.replace(real + '.new', real)
        else:
            with open(real, 'wb') as f:
                f.write(new)
        if rng.random() < .6:
            os.utime(real, ns=(st.st_atime_ns, st.st_mtime_ns))
        data[p] = new
    else:
        os.unlink(p)
        del data[p]
        if how == 'dir':
            os.mkdir(p)


def one_round(env, case, sut, port, flat, data, last, rnd):
    m = respmodel.Model()
    for a in flat:
        m.apply(a, files=data)
    rng = random.Random(case['files'][0]['seed'])
    reps = []
    n = 4 if case['reader'] == 'many' and not case['unlink'] and not case['grow'] else 1
    toks = [env.tok() for _ in range(n)]
    reqs = [gen.dressed(case['m'], '/f', [('X-Tok', t)], case['d']) for t in toks]
    if n > 1:
        def go(q, slow):
            try:
                reps.append(slow_read(port, q, random.Random(q), sut) if slow else talk(port, q, sut))
            except OSError as e:
                reps.append(e)
        ts = [threading.Thread(target=go, args=(q, k % 2)) for k, q in enumerate(reqs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    else:
        reps.append(slow_read(port, reqs[0], rng, sut, case.get('stall', 0)) if case['reader'] == 'slow' else talk(port, reqs[0], sut))
    what = f'{"after changes " + str(case["change"]) + " " if rnd else ""}request {case["m"]} {case["d"]}, files {[(f["name"], f["size"], f["kind"]) for f in case["files"]]}, operations {case["hs"]}, reader {case["reader"]}'
    for rep in reps:
        if isinstance(rep, OSError):
            raise rep
        env.add('evaluations')
        env.add('reader_' + case['reader'])
        env.add('wire_bytes', len(rep.data))
        r, p = reply_problem(rep)
        if p:
            return f'{what}: {p}'
        if last is not None and last[0] != 'send_file':
            m.headers['Content-Type'] = r.get('Content-Type') or ''  # type of a plain body after a file: left open
        p = m.compare(r)
        if p:
            return f'{what}: {p}'
    ev = sut.events()
    want = ['ok' if a[1] in data else 'err' for a in flat if a[0] == 'send_file']
    for t in toks:
        got = [e['file'][:3].rstrip(':') for e in ev if e['tok'] == t and 'file' in e]
        env.add('send_file_results', len(got))
        if got != want and not case['unlink']:
            return f'{what}: send_file returned {got}, expected {want}'
    if want:
        env.seen([case['hs'], [(f['name'], f['size']) for f in case['files']], case['reader']])
        env.sample({'operations': str(case['hs'])[:300], 'sizes': [f['size'] for f in case['files']], 'reader': case['reader']})
    return None


def check(env, case):
    if 'huge' in case:
        return check_huge(env, case)
    base = os.path.join(env.scratch(), 'f')
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + '/dir')
    os.makedirs(base + '/dir.html')
    os.symlink('nowhere', base + '/dangling')
    os.symlink('dir', base + '/dirlink')
    os.mkfifo(base + '/fifo')
    us = socket.socket(socket.AF_UNIX)
    us.bind(base + '/sock')
    data = {}
    for f in case['files']:
        p = os.path.join(base, f['name'])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        data[p] = content(f)
        real = p + '.real' if f['link'] else p
        with open(real, 'wb') as fh:
            fh.write(data[p])
        if f['link']:
            if os.path.lexists(p):
                os.unlink(p)
            os.symlink(real, p)
    if case['hs'][0][0] == ['send_file', None]:
        case['hs'][0][0][1] = case['files'][0]['name']
    hs = [[[a[0], a[1] if a[1].startswith('/') or not a[1] else os.path.join(base, a[1])] if a[0] == 'send_file' else a for a in h] for h in case['hs']]
    flat = [a for h in hs for a in h]
    last = next((a for a in reversed(flat) if a[0] in ('send_str', 'send_size') or a[0] == 'send_file' and a[1] in data), None)
    if case['unlink'] and last and last[0] == 'send_file':
        hs[-1].append(['unlink', last[1]])
    elif case['grow'] and last and last[0] == 'send_file':
        hs[-1].append(['append', last[1], case['grow']])
    ops = [{'op': 'route', 'method': 'use', 'path': '', 'h': {'rid': k, 'flow': 'next', 'obs': 'none', 'acts': h}} for k, h in enumerate(gen.trapped(hs, case.get('at')))]
    sut = env.sut
    sut.events()
    aid, port, _ = sut.start(ops)
    try:
        for rnd in range(2 if case['change'] and not case['unlink'] and not case['grow'] else 1):
            if rnd:
                for k, f in enumerate(case['files']):
                    change(os.path.join(base, f['name']), case['change'][k], data, f['seed'] + 1)
                last = next((a for a in reversed(flat) if a[0] in ('send_str', 'send_size') or a[0] == 'send_file' and a[1] in data), None)
                env.add('changed_files')
            gen.disturb(port, '/f', case.get('up', []) if not case['unlink'] and not case['grow'] else [], sut)
            v = one_round(env, case, sut, port, flat, data, last, rnd)
            if v:
                return v
    finally:
        us.close()
        if sut.alive():
            sut.stop(aid)
        shutil.rmtree(base, ignore_errors=True)
    return None
