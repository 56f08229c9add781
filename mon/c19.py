import gen, model, respmodel
from core import talk, connect, recv_all, reply_problem, parse_response, known_findings, Inconclusive, Reply, size_pool
import random, socket, time
RULE = ('a case is an app whose handlers do every combination of nothing, status, headers, cookies, empty and non-empty bodies, '
        'missing files, Stop and Next, and requests of all known methods, HTTP/1.0 and 1.1, with and without header lines and '
        'bodies, Connection, Expect and Upgrade headers, half-closed or open streams, and clients that linger. The bytes '
        'received until the server ends the connection must be exactly one response: the modelled one, or a complete 404 when '
        'no body was supplied. A class with surplus bytes checks that there is never a second response. Distinct by (app, request).')
CASES = (6000, 36000)
FLOOR = 4000
METHODS = ['GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'HEAD']


def acts(rng):
    out = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        out.append(rng.choice([
            ['status', rng.choice(list(respmodel.STATUS))], ['set', 'X-A', 'b'], ['cookie', {'name': 'n', 'value': 'v', 'plain': 1}],
            ['redirect', '/else'], ['send_file', '/nonexistent/f.txt'], ['default_headers'], ['attachment'], ['charset', 'utf-8'],
            ['send_str', ''], ['send_str', 'text'], ['send_size', rng.choice([0, 1, 2000, 70000]), 3], ['http_version', '1.0'],
            ['with_type', 'text/plain'], ['status', 'NoContent'], ['status', 'NotModified'], ['status', 'NotFound'], ['status', 'Continue'],
        ]))
    if rng.random() < .5:
        out.insert(rng.randrange(len(out) + 1), rng.choice([['send_str', ''], ['send_str', 'b'], ['send_size', rng.choice([1, 600, 20000]), 4]]))
    return out


def make(rng, i, tier):
    hs = []
    for k in range(rng.choice([0, 1, 1, 2, 3, 4])):
        hs.append({'m': rng.choice(['use', 'get', 'post', 'all', 'all', 'all', 'put', 'head', 'patch', 'delete']), 'p': rng.choice(['/a', '/b', '/:v', '/']),
                   'flow': rng.choice(['next', 'next', 'stop']), 'acts': gen.trapped([acts(rng)], [0, rng.random()])[0]})
    reqs = []
    for k in range(8):
        r = {'m': rng.choice(METHODS[:5]) if rng.random() < .8 else rng.choice(['HEAD', 'OPTIONS', 'TRACE', 'CONNECT']), 'p': rng.choice(['/a', '/a', '/b', '/b', '/c', '/', '/a/b', '/a?x=1']),
             'v': rng.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0']), 'hdr': [], 'body': rng.choice([0, 0, 0, 1, 10, 700, 5000]),
             'how': rng.choice(['plain', 'plain', 'half', 'linger', 'split'])}
        if hs and rng.random() < .6:
            h = rng.choice(hs)
            r['p'] = h['p'].replace(':v', 'c')
            if h['m'] not in ('use', 'all'):
                r['m'] = h['m'].upper()
        if r['v'] == 'HTTP/1.0' and rng.random() < .5:
            r['bare'] = 1
            r['body'] = 0
        for h in (('Connection', 'keep-alive'), ('Connection', 'close'), ('Expect', '100-continue'), ('Upgrade', 'h2c'), ('TE', 'trailers'),
                  ('Keep-Alive', 'timeout=5'), ('Accept', '*/*'), ('Range', 'bytes=0-1'), ('If-None-Match', '*')):
            if rng.random() < .12:
                r['hdr'].append(list(h))
        if rng.random() < .25:
            n = rng.choice(['Connection', 'Connection', 'connection', 'Keep-Alive', 'Proxy-Connection', 'Expect', 'Upgrade', 'TE', 'Accept', 'Range', 'From',
                            'If-Modified-Since', 'Cache-Control', 'Pragma', 'Trailer', 'Via', 'Warning', 'Max-Forwards', 'Content-Type', 'User-Agent'])
            v = rng.choice(['', 'Close', 'Keep-Alive', 'KEEP-ALIVE', 'Upgrade', 'close, TE', 'keep-alive, Upgrade', 'timeout=5, max=10', 'timeout=x', 'max=0',
                            'timeout=99999999999999999999999', '100-Continue', 'websocket', 'gzip, trailers', '0', 'no-cache', gen.magic_text(rng, 'v', str.isprintable)])
            v = ''.join(c for c in v if c >= ' ' and c != '\x7f').strip(' \t')
            r['hdr'].append([n, v])
        r['hdr'] += gen.lines(rng, .3)
        if rng.random() < .15:
            r['surplus'] = rng.choice(['get', 'bytes', 'crlf', 'many'])
        reqs.append(r)
    return {'hs': hs, 'reqs': reqs}


def check(env, case):
    sut = env.sut
    known = 'F1' in known_findings('C19')
    ops = [{'op': 'route', 'method': h['m'], 'path': h['p'], 'h': {'rid': k, 'flow': h['flow'], 'obs': 'none', 'acts': h['acts']}}
           for k, h in enumerate(case['hs'])]
    flat, _ = model.flatten(ops)
    aid, port, _ = sut.start(ops)
    try:
        for q in case['reqs']:
            rng = random.Random(str(q))
            gen.disturb(port, q['p'], gen.upset(rng, .08), sut, method=q['m'])
            body = rng.randbytes(q['body'])
            raw = gen.request(q['m'], q['p'], [tuple(h) for h in q['hdr']], body, version=q['v'], host=q['v'] == 'HTTP/1.1' or rng.random() < .3)
            if rng.random() < .1:
                raw = raw.replace(b'\r\nHost: localhost\r\n', rng.choice([b'\r\nHost:\r\n', b'\r\nHost: \r\n', b'\r\nHOST:x\r\n', b'\r\nhost: :80\r\n']), 1)
            if q.get('bare'):
                raw = f'{q["m"]} {q["p"]} HTTP/1.0\r\n\r\n'.encode()
            sur = {'get': gen.request('GET', '/a'), 'bytes': rng.randbytes(100), 'crlf': b'\r\n', 'many': gen.request('POST', '/b', [], b'x' * 50) * 20}.get(q.get('surplus'), b'')
            s = connect(port)
            parts = [raw + sur]
            if q['how'] == 'split':
                c = rng.randrange(1, len(raw))
                parts = [raw[:c], raw[c:] + sur]
            if q['how'] == 'linger':
                # keep the stream open in our direction, read only after a while
                s.sendall(raw + sur)
                time.sleep(.01)
                d, end = recv_all(s, sut)
                s.close()
                rep = Reply(d, end, len(raw))
            else:
                rep = talk(port, parts, sut, half=q['how'] == 'half', delay=.002, sock=s)
            env.add('evaluations')
            env.add('how_' + q['how'])
            m = respmodel.Model()
            ran = model.dispatch(flat, q['m'], model.norm(q['p'].split('?')[0]))
            for h, _ in ran:
                for a in h['acts']:
                    m.apply(a, files={})
            what = f'{raw[:120]!r}{" + surplus " + repr(sur[:40]) if sur else ""} ({q["how"]}) with handlers {case["hs"]}'
            if rep.end in ('timeout', 'limit'):
                raise Inconclusive(rep.end)
            if q['m'] == 'HEAD' and rep.end == 'eof' and rep.data.endswith(b'\r\n\r\n') and rep.data.count(b'\r\n\r\n') == 1:
                env.add('head_without_body')
                continue  # whether HEAD responses carry the body is left open
            r, why = parse_response(rep.data)
            if why and sur and rep.end == 'reset' and known:
                env.add('known_F1')
                continue
            if rep.end == 'hang':
                return f'{what}: the server is idle but the response or its end did not come; got {rep.data[:100]!r}'
            if why:
                return f'{what}: not exactly one complete response: {why} ({rep.end}); {rep.data[:200]!r}'
            if m.body is None and (r.code != 404 or not r.all('content-length')):
                return f'{what}: no body was supplied, but the answer is {r.code} with headers {r.headers}'
            p = m.compare(r)
            if p:
                return f'{what}: {p}'
            if m.body is None:
                env.add('not_found')
            elif not m.body:
                env.add('empty_bodies')
            env.seen([case['hs'], q['m'], q['p'], q['how'], q['hdr'], q['v']])
            env.sample({'request': raw[:80].decode('latin1'), 'answer': r.code, 'handlers_run': len(ran)})
    finally:
        if sut.alive():
            sut.stop(aid)
    return None
