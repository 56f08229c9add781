"""Reference classifier of request heads and generators of malformed ones (C05, C07, C17, C26)."""
import model, gen, string

KNOWN = set(model.METHODS + model.OTHER_METHODS)
SEPARATORS = '()<>@,;\\"/[]?={} \t'


def classify(data):
    """data: bytes of a request stream that the client then half-closes.
    -> ('bad', 400) | ('method', 501) | ('ok', dict) | ('any', None) for what the properties leave open."""
    i = data.find(b'\r\n\r\n')
    if i < 0:
        return ('bad', 400) if data else ('any', None)
    try:
        head = data[:i].decode('utf8')
    except UnicodeDecodeError:
        return 'bad', 400
    lines = head.split('\r\n')
    toks = lines[0].split(' ')
    open_ = False
    if len(toks) != 3 or '' in toks or not toks[2].startswith('HTTP/'):
        return 'bad', 400
    if any(ord(c) < 32 or ord(c) == 127 for c in lines[0]):
        open_ = True
    hs = []
    for l in lines[1:]:
        if ':' not in l:
            return 'bad', 400
        n, _, v = l.partition(':')
        if not n or any(c not in model.TOKEN for c in n):
            return 'bad', 400
        v = v.strip(' \t')
        if any((ord(c) < 32 and c != '\t') or ord(c) == 127 for c in v):
            return 'bad', 400
        if '\t' in v or any(0x80 <= ord(c) < 0xa0 for c in v):
            open_ = True
        hs.append((n, v))
    m, target, ver = toks
    if not target.startswith('/'):
        open_ = True
    else:
        segs = model.norm(target.partition('?')[0])
        if segs is None:
            return 'bad', 400
    hm = model.headers(hs)
    if ver == 'HTTP/1.1':
        if 'host' not in hm:
            return 'bad', 400
    elif ver != 'HTTP/1.0':
        open_ = True
    if 'transfer-encoding' in hm or 'expect' in hm:
        open_ = True
    n = 0
    if 'content-length' in hm:
        cl = hm['content-length']
        if not (cl.isascii() and cl.isdigit()) or int(cl) >= 1 << 62:
            open_ = True
        else:
            n = int(cl)
    body = data[i + 4:]
    if open_:
        return 'any', None
    if m not in KNOWN:
        if any(c not in model.TOKEN for c in m):
            return 'any', None
        return ('method', 501) if len(body) >= n else ('any', None)
    if len(body) < n:
        return 'short', 400
    return 'ok', {'method': m, 'target': target, 'version': ver, 'headers': hs, 'map': hm, 'body': body[:n]}


def has_surplus(data):
    """Does the stream go on after the request (or after a bad head)?"""
    i = data.find(b'\r\n\r\n')
    if i < 0:
        return False
    cls, info = classify(data)
    if cls == 'ok':
        return len(data) > i + 4 + len(info['body'])
    return len(data) > i + 4


def base_lines(rng, tok):
    m = rng.choice(model.METHODS + ['GET', 'POST'])
    hs = [['Host', 'localhost'], ['X-Tok', tok]]
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
        hs.append([gen.token(rng), gen.text(rng, rng.randrange(0, 30)).strip(' \t')])
    hs += [list(x) for x in gen.lines(rng, .3)]
    rng.shuffle(hs)
    t = gen.plain(gen.instantiate(rng, gen.pattern_segs(rng, 0)))
    if rng.random() < .15:
        t += '?' + ''.join(c for c in rng.choice(gen.QUERIES) if c > ' ')
    return m, t, 'HTTP/1.0' if rng.random() < .2 else 'HTTP/1.1', hs


def hname(rng):
    return rng.choice(list(gen.COMMON) + ['Host', 'Cookie', 'Content-Length', 'X-Tok']) if rng.random() < .35 else gen.token(rng)


def build(m, t, v, hs, body=b''):
    return (f'{m} {t} {v}\r\n' + ''.join(f'{n}: {x}\r\n' for n, x in hs) + '\r\n').encode('utf8', 'surrogateescape') + body


BAD_LINES = ['GET', 'GET /', 'GET / ', ' GET / HTTP/1.1', 'GET / HTTP/1.1 ', 'GET  / HTTP/1.1', 'GET /  HTTP/1.1', 'GET  HTTP/1.1',
             'GET / HTTP/1.1 x', 'GET /a b HTTP/1.1', 'GET / http/1.1', 'GET / HTDP/1.1', 'GET / HTTP', 'GET / HTTP1.1', 'GET / H',
             'GET / 1.1', 'GET / /1.1', 'GET\t/\tHTTP/1.1', '', ' ', '  ', '   ', 'x', 'GET / HTTPé1', 'GET / HTTé/', 'GET / éé',
             'GET / 日', 'GET / HTTP\\1.1', 'HTTP/1.1 GET /', 'GET /\tHTTP/1.1', 'POST / HTTP:/1.1', 'GET / TTP/1.1', 'GET / HTTPS/1.1',
             'GET/HTTP/1.1', 'GET / HTTP /1.1', 'GET / XHTTP/1.1', 'GET / Http/1.1', 'GET / HTTP-1.1', 'GET / HTT/1.1']
BAD_METHODS = ['FOO', 'get', 'Get', 'GETT', 'GE', 'ALL', 'All', 'all', 'NONE', 'None', 'PROPFIND', 'POSTS', 'X', 'post', 'head', 'Head',
               'OPTION', 'CONNECTX', 'PATCHED', 'DEL', 'PUTT', 'G', 'HEADX', '!', 'M-SEARCH', 'LINK', 'UNLINK', 'PURGE', 'BREW', 'USE',
               'A' * 300]


def malformed(rng, tok):
    """(kind, bytes) of a head the classifier must call bad or unknown method."""
    m, t, v, hs = base_lines(rng, tok)
    k = rng.choice(['line', 'line', 'line2', 'nocolon', 'emptyname', 'badname', 'badname', 'ctl', 'ctl', 'utf8', 'trunc', 'trunc', 'nohost',
                    'method', 'method', 'fold', 'mutate', 'mutate', 'mutate', 'spacecolon', 'version', 'blankfirst', 'ends'])
    i = rng.randrange(len(hs) + 1)
    if k == 'line':
        raw = build(m, t, v, hs)
        return k, rng.choice(BAD_LINES).encode() + raw[raw.index(b'\r\n'):]
    if k == 'line2':
        l = [m, t, v]
        j = rng.randrange(4)
        if j == 0:
            l.insert(rng.randrange(4), gen.segment(rng))
        elif j == 1:
            l.pop(rng.randrange(3))
        elif j == 2:
            l.insert(rng.randrange(4), '')
        else:
            l[2] = l[2][rng.randrange(1, 6):] if rng.random() < .5 else l[2][:rng.randrange(0, 5)]
        raw = build(m, t, v, hs)
        return k, ' '.join(l).encode() + raw[raw.index(b'\r\n'):]
    if k == 'nocolon':
        raw = build(m, t, v, hs[:i])[:-2]
        return k, raw + rng.choice([gen.token(rng), 'Host', 'Content-Length 5', 'a=b', '-', ' ', '\t', 'x' * 700]).encode() + b'\r\n' + \
            build(m, t, v, hs[i:]).split(b'\r\n', 1)[1]
    if rng.random() < .06:  # many lines before the fault
        hs = [['P%d' % j, 'q'] for j in range(rng.choice([20, 50, 64, 100, 128, 200] if rng.random() < .9 else [257, 513, 1025, 4097]))] + hs
        i = len(hs)
    if k == 'emptyname':
        hs.insert(i, ['', rng.choice(['v', '', ':', 'a: b'])])
    elif k == 'badname':
        n = hname(rng)
        j = rng.randrange(len(n) + 1)
        c = rng.choice(list(SEPARATORS) + [chr(x) for x in range(1, 32) if x not in (10, 13)] + ['\x7f', '\x80', 'é', '日', '\u212a', 'İ', '０'])
        hs.insert(i, [n[:j] + c + n[j:], 'v'])
    elif k == 'spacecolon':
        hs.insert(i, [hname(rng) + rng.choice([' ', '\t', '  ']), 'v'])
    elif k == 'ctl':
        val = gen.text(rng, rng.randrange(0, 20)).strip(' \t') if rng.random() < .9 else 'v' * rng.choice([100, 255, 256, 500, 1000, 4096] if rng.random() < .8 else [8193, 16385, 66000])
        j = rng.randrange(len(val) + 1)
        c = chr(rng.choice([x for x in range(0, 32) if x != 9] + [127, 127, 31, 30, 1, 0]))
        val = 'a' + val[:j] + c + val[j:] + 'z'
        if rng.random() < .2:
            rng.choice(hs)[1] = val
        else:
            hs.insert(i, [hname(rng), val])
    elif k == 'fold':
        hs.insert(i + 0, [' folded' + rng.choice(['', ' x']), 'v'])
        if i == 0 and rng.random() < .5:
            hs[0][0] = '\tfolded'
    elif k == 'nohost':
        v = 'HTTP/1.1'
        hs = [x for x in hs if x[0].lower() != 'host']
        if rng.random() < .3:
            hs.append([rng.choice(['X-Host', 'Hos', 'Hosts', 'Hostname']), 'localhost'])
    elif k == 'method':
        m = rng.choice(BAD_METHODS) if rng.random() < .7 else gen.token(rng)
    elif k == 'version':
        v = rng.choice(['HTTP', 'HTT', 'HTTP.1.1', 'FTP/1.1', 'http/1.0', '1.1', 'é' * 3, 'HTTP\u20441.1', 'H' * 200, 'hTTP/1.1', 'X/1.1'])
    raw = build(m, t, v, hs)
    if k == 'blankfirst':
        raw = rng.choice([b'\r\n', b'\r\n', b'\r\n\r\n', b'\n', b'\r', b' ', b'\t', b'\0', b'\r\n' * 3, b'\r\n ', b'\xef\xbb\xbf ']) + raw
    if k == 'utf8':
        j = rng.randrange(0, len(raw) - 4)
        raw = raw[:j] + rng.choice([b'\xff', b'\xc3', b'\xe2\x82', b'\xed\xa0\x80', b'\x80', b'\xf8\x88\x80\x80\x80', b'\xc0\xaf']) + raw[j:]
        if raw[j + 1:j + 4] and b'\r\n\r\n' not in raw:
            raw += b'\r\n\r\n'
    elif k == 'ends':
        # line ends of other systems
        r = rng.randrange(5)
        if r == 0:
            raw = raw.replace(b'\r\n', rng.choice([b'\n', b'\r', b'\n\r', b'\r\r\n', b'\n\n', b'\0', b'\x0b', b'\xc2\x85', b'\xe2\x80\xa8']))
        elif r == 1:
            raw = raw[:-4] + rng.choice([b'\n\n', b'\r\n\n', b'\n\r\n', b'\r\r', b'\r\n\r', b'\r\n \r\n', b'\n\r', b'\r\r\n\r\r\n'])
        elif r == 2:
            raw = raw.replace(b'\r\n', b'\n', rng.randrange(1, 4))
        elif r == 3:
            raw = raw.replace(b'\r\n', b'\n')[:-1] + b'\r\n\r\n'
        else:
            raw = raw.replace(b'\r\n', b'\r')[:-1] + b'\r\n\r\n'
    elif k == 'trunc':
        raw = raw[:rng.choice([rng.randrange(1, len(raw) - 1), len(raw) - 1, len(raw) - 2, len(raw) - 3, len(raw) - 4])]
    elif k == 'mutate':
        b = bytearray(raw)
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            j = rng.randrange(len(b))
            q = rng.randrange(5)
            if q == 0:
                b[j] = rng.randrange(256)
            elif q == 1:
                del b[j]
            elif q == 2:
                b.insert(j, rng.choice(b'\r\n :\t\0\x7f/?%.aZ0"\xc3\xa9'))
            elif q == 3:
                b[j] ^= 1 << rng.randrange(8)
            else:
                l = rng.randrange(1, 6)
                b[j:j] = b[j:j + l]
        raw = bytes(b)
    return k, raw
