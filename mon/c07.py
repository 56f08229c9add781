import select, socket, time, json
import gen, heads, model
from core import dictionary, connect, recv_all, reply_problem, parse_response, Reply, Inconclusive, quiescent_wait
RULE = ('a case takes request streams (well-formed with headers, cookies, query, multi-byte text and bodies; malformed; '
        'truncated) and sends each once in one write and then in many segmentations with pauses in between: every two-part '
        'split of small streams, byte by byte, and random multi-part splits biased to line ends, the blank line, multi-byte '
        'characters and 512-byte boundaries. What the handler echoes of its request and the response must be identical. '
        'Distinct by stream and segmentation.')
CASES = (190, 1800)
CAP = (75, 780)
FLOOR = 3000
OPS = [{'op': 'route', 'method': 'use', 'path': '', 'h': {'rid': 1, 'flow': 'next', 'obs': 'id', 'acts': [['echo_req']]}},
       {'op': 'route', 'method': 'all', 'path': '/v/:x', 'h': {'rid': 2, 'flow': 'next', 'obs': 'id', 'acts': [['echo_req']]}}]


def stream(rng, tok, big):
    r = rng.random()
    if r < .22:
        for _ in range(30):
            k, raw = heads.malformed(rng, tok)
            if r < .18 or k == 'method':
                break
        return raw
    hs = [('Host', 'h'), ('X-Tok', tok)]
    for _ in range(rng.choice([0, 1, 2, 4])):
        hs.append((gen.token(rng, rng.randrange(1, 8)), gen.text(rng, rng.randrange(0, 14), .2).strip(' \t')))
    if rng.random() < .3:
        hs.append(('Cookie', 'a=b; ç=日'))
    hs += [tuple(x) for x in gen.lines(rng, .3) if x[0].lower() not in ('host', 'content-length')]
    if big:
        for _ in range(rng.choice([0, 1, 3])):
            hs.append((gen.token(rng, 6), gen.text(rng, rng.choice([100, 300, 509, 512, 700, 1500]), .1).strip(' \t')))
    rng.shuffle(hs)
    body = b''
    if rng.random() < .6:
        n = rng.choice([1, 2, 4, 9, 30]) if not big else rng.choice([1, 100, 511, 512, 513, 1024, 3000, 9000])
        body = gen.random_bytes(rng, n)
        if rng.random() < .2:
            hs.append(('Content-Length', str(n)))
            body = body[:rng.randrange(0, n)]
            return gen.request('POST', '/v/t', hs, body, host=False, cl=False)
    t = rng.choice(['/', '/v/é', '/v/abc?x=1&y=%C3%A9', '/v/日本?q', '/none/x'])
    raw = gen.request(rng.choice(model.METHODS + ['GET', 'POST', 'PUT']), t, hs, body, rng.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0']), host=False)
    if rng.random() < .1:
        raw += gen.random_bytes(rng, rng.choice([1, 4, 20]))
    return raw


def cuts_for(rng, raw, big):
    """Yield lists of cut positions."""
    n = len(raw)
    if n < 2:
        return
    if not big:
        for c in range(1, n):
            yield [c]
        yield list(range(1, n))
    hot = set()
    for i in range(n - 1):
        if raw[i:i + 2] == b'\r\n':
            hot.update((i, i + 1, i + 2))
    i = raw.find(b'\r\n\r\n')
    if i >= 0:
        hot.update(range(max(1, i - 2), min(n, i + 8)))
    for k in range(512, n, 512):
        hot.update(range(k - 3, min(n, k + 4)))
    hot = sorted(x for x in hot if 0 < x < n)
    for _ in range(40 if big else 12):
        k = rng.choice([1, 2, 2, 3, 5, 9])
        c = {rng.choice(hot) if hot and rng.random() < .7 else rng.randrange(1, n) for _ in range(k)}
        yield sorted(c)
    if i >= 0:
        # all ways to cut the blank line
        for m in range(1, 32):
            c = [i + b for b in range(5) if m >> b & 1]
            c = [x for x in c if 0 < x < n]
            if c:
                yield c


DELAYS = [32, 16, 11, 6, 2.2, 1.1]


def make(rng, i, tier):
    big = i % 3 == 2
    out = []
    for k in range(2 if not big else 5):
        raw = stream(rng, f's{i}k{k}', big)
        cuts = list(cuts_for(rng, raw, big))
        if not big and len(raw) > 420:
            cuts = rng.sample(cuts, min(len(cuts), 420))
        out.append([raw.hex(), cuts])
    if i % 50 in (10, 11):
        # a long stream in crumbs of a few bytes
        while True:
            raw = stream(rng, f's{i}k', True)
            if heads.classify(raw)[0] == 'ok' and 900 < len(raw) < 6000:
                break
        step = [1, 2][i % 2]
        return {'streams': [[raw.hex(), [list(range(1, len(raw), step))] * 6]], 'pause': .0004}
    if i < 6:
        # long silences: one pause per connection, all connections at once
        long_ = DELAYS[i % len(DELAYS)]
        new = sorted({x for n in dictionary()['new_int'] for x in (n, n / 1000, n * 60) if .05 < x <= (45 if tier == 'quick' else 200)})
        if i == 5 and new:
            long_ = new[-1] + 1.5
        elif tier != 'quick':
            long_ *= 4
        while heads.classify(bytes.fromhex(out[0][0]))[0] not in ('ok', 'bad', 'short') or len(out[0][0]) < 100:
            out[0][0] = stream(rng, f's{i}', i % 2).hex()
        n = len(out[0][0]) // 2
        h = bytes.fromhex(out[0][0]).find(b'\r\n\r\n')
        cuts = [[c] for c in {1, 2, n - 1, n // 2, *range(max(1, h), min(n, h + 6)), *rng.sample(range(1, n), min(n - 1, 40))} if 0 < c < n]
        return {'streams': [[out[0][0], cuts]], 'pause': long_}
    return {'streams': out, 'pause': rng.choice([.002, .003])}


def outcome(rep, surplus):
    r, p = reply_problem(rep, surplus)
    if r is None and p is None:
        return None
    if p:
        return ('problem', p)
    hs = sorted([n, v] for n, v in r.headers if n.lower() != 'date')
    return (r.version, r.code, r.reason, hs, r.body)


def send_batch(sut, port, jobs, half, pause):
    """jobs: list of part lists, all sent in lockstep with pauses. -> replies"""
    socks, broken = [], set()
    for _ in jobs:
        socks.append(connect(port))
    try:
        for r in range(max(map(len, jobs))):
            if r:
                time.sleep(pause)
            for s, parts in zip(socks, jobs):
                if r < len(parts):
                    try:
                        s.sendall(parts[r])
                        if half and r == len(parts) - 1:
                            s.shutdown(socket.SHUT_WR)
                    except OSError:
                        broken.add(s)
        out = []
        for s, parts in zip(socks, jobs):
            d, end = recv_all(s, sut, 5.0)
            if s in broken and end == 'eof':
                end = 'reset'
            out.append(Reply(d, end, 0))
        return out
    finally:
        for s in socks:
            s.close()


def check(env, case):
    sut = env.sut
    sut.events()
    aid, port, _ = sut.start(OPS)
    try:
        for hx, cuts in case['streams']:
            raw = bytes.fromhex(hx)
            cls, info = heads.classify(raw)
            i = raw.find(b'\r\n\r\n')
            half = cls in ('bad', 'short') or i < 0 or cls == 'any'
            if cls == 'bad' and i >= 0:
                half = False
            extra = heads.has_surplus(raw)
            base = outcome(send_batch(sut, port, [[raw]], half, 0)[0], extra)
            ev0 = [[e['rid'], e.get('vars')] for e in sut.events() if 'rid' in e]
            if base is None:
                continue
            if base[0] == 'problem':
                if cls == 'any':
                    continue
                return f'sent at once, {raw[:200]!r} ({len(raw)} bytes): {base[1]}'
            for b in range(0, len(cuts), 100):
                group = cuts[b:b + 100]
                jobs = [[raw[x:y] for x, y in zip([0] + c, c + [len(raw)])] for c in group]
                reps = send_batch(sut, port, jobs, half, case['pause'])
                ev = [[e['rid'], e.get('vars')] for e in sut.events() if 'rid' in e]
                for c, rep in zip(group, reps):
                    env.add('evaluations')
                    env.add('segments', len(c) + 1)
                    o = outcome(rep, extra)
                    if o is None:
                        env.add('cut_by_reset')
                        continue
                    if o != base:
                        return (f'{raw[:200]!r} ({len(raw)} bytes) cut at {c[:20]}: got {str(o)[:600]}, sent at once: {str(base)[:600]}')
                    env.seen([hx, c])
                if sorted(map(str, ev)) != sorted(map(str, ev0 * len(group))):
                    return f'{raw[:200]!r}: handler runs {len(ev)} over {len(group)} segmentations, expected {len(ev0) * len(group)}'
            env.add('streams')
            env.add('streams_' + cls)
            env.sample({'stream': raw[:100].decode('latin1'), 'bytes': len(raw), 'segmentations': len(cuts), 'class': cls})
    finally:
        if sut.alive():
            sut.stop(aid)
    return None
