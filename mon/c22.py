import random
import gen, respmodel
from core import talk, reply_problem
RULE = ('all 60 named codes through the API and on the wire (a response with and without reason-relevant headers, HTTP/1.0 and '
        '1.1), the codes the server itself produces (400, 404, 501) by many causes, and custom codes with random numbers and '
        'texts. Number, phrase and their pairing are compared with the IANA registry. Distinct by (code, route).')
CASES = (24000, 144000)
FLOOR = 1500


# Registered phrases; where the crate's long-standing spelling differs from the registry in a way that is left open, both.
def phrases(name):
    c, p = respmodel.STATUS[name]
    alt = {'SwitchingProtocol': ['Switching Protocols'], 'MultipleChoice': ['Multiple Choices'],
           'PayloadTooLarge': ['Content Too Large'], 'UnprocessableEntity': ['Unprocessable Content']}.get(name, [])
    return c, [p] + alt


def make(rng, i, tier):
    if i % 4 == 0:
        return {'kind': 'api', 'other': [[rng.choice([0, 1, 99, 200, 299, 404, 600, 999, 1000, -1, rng.randrange(100, 600)]), gen.text(rng, rng.randrange(0, 20))] for _ in range(10)]}
    if i % 4 == 1:
        names = list(respmodel.STATUS)
        rng.shuffle(names)
        return {'kind': 'wire', 'names': names[:20], 'seed': rng.randrange(1 << 30), 'more': rng.random() < .5}
    if i % 4 == 2:
        u = rng.random() < .6
        return {'kind': 'custom', 'seed': rng.randrange(1 << 30), 'codes': [[rng.randrange(100, 1000), ''.join(rng.choice('abcXYZ -' if u else 'abcXYZ -.,/()éñжωß:!0') for _ in range(rng.randrange(1, 20))).strip() or 'x'] for _ in range(10)]}
    return {'kind': 'errors', 'seed': rng.randrange(1 << 30)}


ERR = [(b'GET /a HTTP/1.1\r\n\r\n', 400), (b'GET /a\r\n\r\n', 400), (b'GET /a HTTP/1.1\r\nHost: l\r\nbad\r\n\r\n', 400), (b'GET /../a HTTP/1.1\r\nHost: l\r\n\r\n', 400),
       (b'BREW /a HTTP/1.1\r\nHost: l\r\n\r\n', 501), (b'GET /absent HTTP/1.1\r\nHost: l\r\n\r\n', 404), (b'GET /n HTTP/1.1\r\nHost: l\r\n\r\n', 404),
       (b'FOO /absent HTTP/1.1\r\nHost: l\r\n\r\n', 501), (b'GET /absent HTTP/1.0\r\n\r\n', 404), (b'\xff\r\n\r\n', 400), (b'get /a HTTP/1.1\r\nHost: l\r\n\r\n', 501),
       (b'GET /a HTTP/1.1\r\nHost: \x01\r\n\r\n', 400), (b'GET /a HTTP/1.1\r\nHost: l\r\n: v\r\n\r\n', 400)]


def wrap(case, k, more, act):
    """The status operation among others that do not set the status."""
    rng = random.Random(f'{case["seed"]}:{k}')
    acts = more + [act]
    for _ in range(rng.choice([0, 0, 1, 3])):
        acts.insert(rng.randrange(len(more), len(acts) + 1), rng.choice([['set', 'X-A', 'b'], ['cookie', {'name': 'a', 'value': 'b'}], ['http_version', '1.0'], ['http_version', '1.1'],
                    ['default_headers'], ['attachment'], ['with_type', 'text/html'], ['charset', 'utf-8'], ['send_str', 'early'], ['send_file', '/nonexistent']]))
    b = rng.choice([['send_str', 'x'], ['send_str', ''], ['send_size', rng.choice([1, 600, 5000]), 3], ['send_file', '/etc/passwd']])
    acts.insert(rng.randrange(len(more), len(acts) + 1), b)
    return acts


def judge_line(raw, code, names):
    line = raw.split(b'\r\n')[0].decode('utf8', 'replace')
    parts = line.split(' ', 2)
    if len(parts) != 3 or parts[1] != str(code) or parts[2] not in [n.upper() for n in names]:
        return f'status line {line!r}, expected {code} {names[0].upper()}'
    return None


def check(env, case):
    sut = env.sut
    if case['kind'] == 'api':
        rows = sut.cmd('status')['status']
        nums = {}
        for name, num, phrase, asint, shown, dbg in rows:
            env.add('evaluations')
            c, ps = phrases(name)
            if num != c or asint != c:
                return f'{name} has number {num} (as integer {asint}), registered {c}'
            if phrase.lower() not in [p.lower() for p in ps]:
                return f'{name} has phrase {phrase!r}, registered {ps[0]!r}'
            if shown.lower() != phrase.lower():
                return f'{name} prints as {shown!r}, phrase {phrase!r}'
            if num in nums:
                return f'{name} and {nums[num]} share {num}'
            nums[num] = name
            env.seen('api' + name)
        for n, s in case['other']:
            v = sut.cmd('status_other', n=n, s=s)['v']
            env.add('evaluations')
            if v[0] != n or v[2] != n or v[1] != s or v[3] != s:
                return f'custom code ({n}, {s!r}) yields {v}'
            env.seen(f'other{n}{s}')
        env.sample({'named_codes': len(rows), 'custom': case['other'][:2]})
        return None
    ops = [{'op': 'route', 'method': 'get', 'path': '/n', 'h': {'rid': 1, 'obs': 'none', 'acts': [['status', 'Created']]}},
           {'op': 'route', 'method': 'get', 'path': '/a', 'h': {'rid': 1, 'obs': 'none', 'acts': [['send_str', 'x']]}}]
    for k, n in enumerate(case.get('names', [])):
        more = [['status', 'Gone'], ['redirect', '/l']] if case['more'] else []
        ops.append({'op': 'route', 'method': 'all', 'path': f'/w{k}', 'h': {'rid': 1, 'obs': 'none', 'acts': wrap(case, k, more, ['status', n])}})
    for k, (n, s) in enumerate(case.get('codes', [])):
        ops.append({'op': 'route', 'method': 'all', 'path': f'/w{k}', 'h': {'rid': 1, 'obs': 'none', 'acts': wrap(case, k, [], ['status_other', n, s])}})
    aid, port, _ = sut.start(ops)
    try:
        if case['kind'] == 'errors':
            for raw, code in ERR:
                rep = talk(port, raw, sut)
                env.add('evaluations')
                r, p = reply_problem(rep)
                nm = {400: 'Bad Request', 404: 'Not Found', 501: 'Not Implemented'}[code]
                p = p or judge_line(rep.data, code, [nm])
                if p:
                    return f'{raw!r}: {p}'
                env.seen(raw)
                env.add('server_errors')
        for k, x in enumerate(case.get('names', []) + case.get('codes', [])):
            rng = random.Random(f'{case["seed"]}:{k}:r')
            rep = talk(port, gen.dressed(rng.choice(['GET', 'GET', 'POST', 'DELETE']), f'/w{k}', [], gen.dress(rng, .4)), sut)
            env.add('evaluations')
            env.add('on_wire')
            r, p = reply_problem(rep)
            code, names = phrases(x) if isinstance(x, str) else (x[0], [x[1]])
            p = p or judge_line(rep.data, code, names)
            if p:
                return f'status {x}: {p}'
            env.seen(str(x))
    finally:
        if sut.alive():
            sut.stop(aid)
    return None
