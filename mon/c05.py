import heads, gen
from core import talk, reply_problem, jbytes
RULE = ('a case is a batch of request heads broken in one of 16 ways (request line, version, header names/values, control '
        'bytes, encoding, truncation, missing Host, unknown method, byte-level mutation), judged by a reference classifier; '
        'bad ones must get one complete 400 (501 for unknown methods) and run no handler although global and catch-all '
        'handlers are registered; interleaved well-formed ones must run them. Distinct by bytes; non-trivial: classified bad.')
CASES = (9000, 54000)
FLOOR = 5000
OPS = [{'op': 'route', 'method': 'use', 'path': '', 'h': {'rid': 1, 'flow': 'next', 'obs': 'id', 'acts': [['send_str', 'ran']]}},
       {'op': 'route', 'method': 'all', 'path': '/:a', 'h': {'rid': 2, 'flow': 'next', 'obs': 'id', 'acts': [['send_str', 'ran']]}},
       {'op': 'route', 'method': 'all', 'path': '/', 'h': {'rid': 3, 'flow': 'next', 'obs': 'id', 'acts': [['send_str', 'ran']]}}]


def make(rng, i, tier):
    out = []
    for k in range(40):
        tok = f'c{i}n{k}'
        if rng.random() < .1:
            out.append(['valid', heads.build(*heads.base_lines(rng, tok)).hex()])
            continue
        kind, raw = heads.malformed(rng, tok)
        if rng.random() < .1:
            raw += rng.choice([b'x', b'GET / HTTP/1.1\r\nHost: a\r\n\r\n', b'\r\n\r\n', b'y' * 1000]) if b'\r\n\r\n' in raw else b''
        if rng.random() < .05:
            # push the fault past the first read
            j = raw.find(b'\r\n')
            if j >= 0:
                raw = raw[:j] + b'\r\nX-Pad: ' + b'p' * rng.choice([400, 500, 511, 512, 1024, 3000]) + raw[j:]
        out.append([kind, raw.hex()])
    return {'reqs': out}


def check(env, case):
    sut = env.sut
    sut.events()
    aid, port, _ = sut.start(OPS)
    runs = sut.stat()['runs']
    expect_runs = 0
    open_ = 0
    try:
        for kind, hx in case['reqs']:
            raw = bytes.fromhex(hx)
            cls, want = heads.classify(raw)
            before = None
            if cls == 'any':
                open_ += 1
                before = sut.stat()['runs']
            rep = talk(port, raw, sut, half=b'\r\n\r\n' not in raw)
            env.add('evaluations')
            env.add('class_' + cls)
            env.add('kind_' + kind)
            r, p = reply_problem(rep, heads.has_surplus(raw))
            if p:
                if cls == 'any':
                    # still has to be answered unless it is an incomplete body we left open
                    if rep.end == 'hang':
                        continue
                return f'{kind}: {raw[:300]!r}: {p}'
            if cls in ('bad', 'method', 'short'):
                if r is None:
                    env.add('cut_by_reset')
                    if sut.stat()['runs'] != runs:
                        return f'{kind}: a handler ran for the malformed request {raw[:300]!r}'
                    continue
                if r.code != want:
                    return f'{kind}: {raw[:300]!r} was answered with {r.code}, expected {want}'
                now = sut.stat()['runs']
                if now != runs:
                    return f'{kind}: a handler ran for the malformed request {raw[:300]!r}'
                env.seen(raw)
                env.sample({'kind': kind, 'request': raw[:120].decode('latin1'), 'answer': r.code})
            else:
                now = sut.stat()['runs']
                if cls == 'ok' and now == runs:
                    return f'{kind}: no handler ran for the well-formed request {raw[:300]!r} (answer {rep!r})'
                runs = now
    finally:
        if sut.alive():
            sut.stop(aid)
            sut.events()
    return None
