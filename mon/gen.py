"""Generators shared by the checks."""
import string
from core import dictionary

VARNAMES = ['x', 'y', 'id', 'name', 'k1', 'long_variable_name', 'X', 'é', 'a', 'b', '0', 'v.1', '', ':c', 'a:b', 'x*', 'x?', '$id', '{id}', 'x-y', 'a b', 'x.', '*', '%41', 'ID']
SEGS = ['a', 'b', 'c', 'ab', 'A', 'users', 'x', 'y', '0', '1', '42', 'a.b', '...', 'a-b', 'é', '日本', '%61', '%2F', '%2e%2e',
        '*', 'a:b', '~u', 'index.html', 'a=b', 'a&b', 'a,b', '@', '!', '..a', 'b..', '.a', '-', '_', 'ß', '🦀', '%', '+', '(a)', "'", 'a#b', '#',
        '\u00a0', '\u00a0a', 'a\u3000', 'b\u2028', '\ufeffa', 'a\\b', '\\', '\u2024\u2024', ';', 'a;b', 'a;v=1;w=2', ';;', 'a,b,c', 'a=b=c', 'x&y&z', '"q"', '[0]', '{a}', '<b>', 'a|b', '`', '^']


def seg_ok(s):
    return s and s not in ('.', '..') and not any(c in s for c in '/? \r\n\t\0') and all(ord(c) > 32 and ord(c) != 127 for c in s)


def segment(rng, odd=0.25):
    r = rng.random()
    if r > odd:
        return rng.choice(SEGS[:6])
    if r > odd * 0.35:
        return rng.choice(SEGS)
    if r > odd * 0.15:
        for _ in range(5):
            s = rng.choice(dictionary()['str'])
            if seg_ok(s) and not s.startswith(':'):
                return s
        return 'lit'
    if rng.random() < .3:
        s = ''.join(rng.choice("!$&'()*+,;=:@%|^`{}[]<>\"\\-._~ab1é") for _ in range(rng.choice([1, 2, 4, 8, 14]))).strip('.')
        return s if s and s[0] != ':' else 'q' + s
    n = rng.choice([1, 2, 3, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 200, 255, 256, 257, 300] if rng.random() < .97 else [511, 513, 1023, 1025, 2049, 4097, 8193])
    return ''.join(rng.choice(string.ascii_letters + string.digits + '-._~') for _ in range(n)).strip('.') or 'q'


def depth(rng):
    r = rng.random()
    if r < .08:
        return 0
    if r < .4:
        return 1
    if r < .7:
        return 2
    if r < .9:
        return 3
    if r < .97:
        return rng.randrange(4, 9)
    return rng.randrange(9, 48) if r < .996 else rng.randrange(48, 400) if r < .9998 else rng.randrange(400, 2200)


def pattern_segs(rng, pvar=0.3, variables=True):
    out, used = [], set()
    for _ in range(depth(rng)):
        if variables and rng.random() < pvar:
            n = rng.choice(VARNAMES[:5] if rng.random() < .8 else VARNAMES)
            if n in used:
                n = n + str(len(out))
            used.add(n)
            out.append(':' + n)
        else:
            out.append(segment(rng))
    return out


def instantiate(rng, pat):
    """Request segments matched by a pattern."""
    return [segment(rng) if p.startswith(':') else p for p in pat]


def mutate_segs(rng, segs):
    s = list(segs)
    k = rng.randrange(6)
    if k == 0 and s:
        s.pop(rng.randrange(len(s)))
    elif k == 1:
        s.insert(rng.randrange(len(s) + 1), segment(rng))
    elif k == 2 and s:
        s[rng.randrange(len(s))] = segment(rng)
    elif k == 3 and s:
        i = rng.randrange(len(s))
        s[i] = s[i].swapcase()
    elif k == 4 and s:
        i = rng.randrange(len(s))
        s[i] = s[i] + rng.choice(['x', '.', 'a', '0', ':'])
    elif k == 5 and len(s) > 1:
        rng.shuffle(s)
    return [x for x in s if x not in ('', '.', '..')]


def plain(segs):
    return '/' + '/'.join(segs)


def decorate(rng, segs, n=None, registration=False):
    """A path string equivalent to segs, with '.', '..', '' noise; never climbs above the root."""
    out = []
    n = rng.randrange(1, 6) if n is None else n
    seq = [[x] for x in segs]
    for _ in range(n):
        i = rng.randrange(len(seq) + 1)
        k = rng.random()
        if k < .3:
            ins = ['']
        elif k < .55:
            ins = ['.']
        elif k < .85:
            ins = [segment(rng), '..']
        elif k < .93:
            ins = [segment(rng), segment(rng), '..', '..']
        else:
            ins = [segment(rng), '.', segment(rng), '', '..', segment(rng), '..', '..']
        seq.insert(i, ins)
    for x in seq:
        out += x
    p = '/' + '/'.join(out)
    if rng.random() < .4:
        p += '/'
    if registration and rng.random() < .2:
        p = p.lstrip('/')
    return p


def climbing(rng):
    """A path that goes above the root at some point (possibly coming back)."""
    while True:
        parts, d = [], 0
        for _ in range(rng.randrange(0, 4) if rng.random() < .96 else rng.randrange(4, 400)):
            k = rng.random()
            if k < .5:
                parts.append(segment(rng)); d += 1
            elif k < .6:
                parts.append('.')
            elif k < .7:
                parts.append('')
            elif d > 0:
                parts.append('..'); d -= 1
        parts += ['..'] * d
        # interleave noise in the final climb
        parts.append('..')
        for _ in range(rng.randrange(0, 4)):
            parts.append(rng.choice([segment(rng), '.', '', '..', 'a']))
        return '/' + '/'.join(parts)


def token(rng, n=None):
    t = "!#$%&'*+-.^_`|~" + string.ascii_letters + string.digits
    n = n or rng.randrange(1, 20)
    return ''.join(rng.choice(t) for _ in range(n))


TEXT = string.ascii_letters + string.digits + '-_.~!*()\',;:@&=+$/?#[]"\\<>^`{|}% '
UNI = 'éßñ日本語🦀Ωж' 'éßñ日本語🦀Ωж' + '\u00a0\u2003\u3000\ufeff\u2028\u212a\u017f\u0301'


def text(rng, n, uni=0.05):
    return ''.join(rng.choice(UNI) if rng.random() < uni else rng.choice(TEXT) for _ in range(n))


MAGIC = [b'\xef\xbb\xbf', b'\xff\xfe', b'\xfe\xff', b'\x1f\x8b\x08\x00', b'\0', b'\0\0\0\0', b'\r\n', b'\n', b'\r', b'\r\n\r\n', b'\n\n', b' ', b'  ', b'\t',
         b'0\r\n\r\n', b'5\r\nhello\r\n0\r\n\r\n', b'HTTP/1.1 200 OK\r\n', b'<!DOCTYPE html>', b'<?xml', b'{', b'}', b'[]', b'null', b'undefined', b'"', b"'",
         b'%', b'%00', b'%0d%0a', b'+', b'&', b'=', b';', b',', b'\xc3', b'\x80', b'\xff', b'\xf0\x9f\xa6\x80', b'\xe2\x80\xa8', b'\xc2\xa0', b'\xc2\x85', b'\x7f',
         b'\x1b[0m', b'-1', b'0', b'00', b'1e9', b'--', b'--boundary', b'/*', b'//', b'../', b'\\', b'$', b'#', b'PK\x03\x04', b'\x89PNG\r\n\x1a\n', b'%PDF-', b'GIF89a']


def magic(rng):
    """A short byte string that code might treat specially."""
    return rng.choice(MAGIC) if rng.random() < .5 else rng.choice(dictionary()['bytes'])


def magic_bytes(rng, n=None):
    """n bytes (or a few) that begin, end or are interspersed with special strings."""
    parts = [magic(rng) if rng.random() < .5 else rng.randbytes(rng.randrange(0, 8)) for _ in range(rng.randrange(1, 5))]
    b = magic(rng) + b''.join(parts) + (magic(rng) if rng.random() < .7 else b'')
    if n is None:
        return b
    if len(b) >= n:
        return b[:n]
    if rng.random() < .5:
        k = rng.randrange(0, len(b))
        return b[:k] + rng.randbytes(n - len(b)) + b[k:]
    return (b * (n // len(b) + 1))[:n]


def magic_text(rng, base, ok):
    """base with a special string before, after or instead of it; ok(c) says which characters are allowed."""
    t = ''.join(c for c in magic(rng).decode('utf8', 'ignore') if ok(c))
    return rng.choice([t, t + base, base + t, t + base + t])


def random_bytes(rng, n):
    k = rng.randrange(7)
    if k == 6:
        return magic_bytes(rng, n)
    if k == 0:
        return b'\r\n\r\n' * (n // 4) + b'x' * (n % 4)
    if k == 1:
        return bytes([rng.randrange(256)]) * n
    if k == 2:
        b = b'GET /a HTTP/1.1\r\nHost: y\r\nX-Tok: leak\r\n\r\n'
        return (b * (n // len(b) + 1))[:n]
    if k == 3 and n <= 65536:
        return text(rng, n).encode('utf8')[:n].ljust(n, b'.')
    return rng.randbytes(n)


# Request features that must not matter to a check: header lines a client may send, with values code might act on.
COMMON = {
    'X-HTTP-Method-Override': ['GET', 'PUT', 'DELETE', 'PATCH', 'HEAD', 'POST'], 'X-Method-Override': ['DELETE', 'POST'],
    'X-Original-URL': ['/a', '/b', '/'], 'X-Rewrite-URL': ['/a', '/c'], 'X-Forwarded-For': ['10.0.0.1', '127.0.0.1, ::1'],
    'X-Forwarded-Proto': ['https', 'http'], 'X-Forwarded-Host': ['other'], 'X-Forwarded-Prefix': ['/a'], 'Forwarded': ['for=1.2.3.4;proto=https'],
    'X-Real-IP': ['::1'], 'X-Requested-With': ['XMLHttpRequest'], 'X-Request-Id': ['1', 'abc'], 'X-Debug': ['1', 'true'],
    'Accept': ['*/*', 'application/json', 'text/html', 'image/*;q=0.5', ''], 'Accept-Encoding': ['gzip', 'gzip, deflate, br', 'identity', '*'],
    'Accept-Language': ['en', 'de-DE,de;q=0.9'], 'Accept-Charset': ['utf-8', 'iso-8859-1'], 'Accept-Ranges': ['bytes'],
    'Range': ['bytes=0-1', 'bytes=0-', 'bytes=-5', 'bytes=2-1', 'lines=1-2'], 'If-Range': ['"x"'], 'If-None-Match': ['*', '"abc"', 'W/"x"'],
    'If-Match': ['*', '"abc"'], 'If-Modified-Since': ['Thu, 01 Jan 1970 00:00:00 GMT', 'Fri, 31 Dec 9999 23:59:59 GMT', 'never'],
    'If-Unmodified-Since': ['Thu, 01 Jan 1970 00:00:00 GMT'], 'Connection': ['close', 'keep-alive', 'Close', 'KEEP-ALIVE', 'Upgrade', 'close, TE', ''],
    'Proxy-Connection': ['keep-alive'], 'Keep-Alive': ['timeout=5', 'timeout=5, max=10', 'max=0', 'x'], 'Upgrade': ['h2c', 'websocket'],
    'Upgrade-Insecure-Requests': ['1'], 'HTTP2-Settings': ['AAMAAABkAAQAAP__'], 'Sec-WebSocket-Key': ['dGhlIHNhbXBsZSBub25jZQ=='],
    'Content-Type': ['application/x-www-form-urlencoded', 'multipart/form-data; boundary=x', 'application/json', 'text/plain; charset=utf-8', 'text/html', ''],
    'Content-Encoding': ['gzip', 'identity', 'br'], 'Content-Language': ['en'], 'Content-Range': ['bytes 0-1/2'], 'Content-MD5': ['x'],
    'Content-Location': ['/a'], 'Content-Disposition': ['attachment'], 'Content-Transfer-Encoding': ['base64'],
    'Authorization': ['Basic YTpi', 'Bearer x', ''], 'Proxy-Authorization': ['Basic YTpi'], 'Origin': ['null', 'http://a'], 'Referer': ['/a', 'http://x/..'],
    'User-Agent': ['curl/8.0', 'Mozilla/5.0 (X11; Linux)', ''], 'From': ['a@b'], 'DNT': ['1'], 'TE': ['trailers', 'gzip'], 'Trailer': ['X-T'],
    'Date': ['Thu, 01 Jan 1970 00:00:00 GMT', 'x'], 'Via': ['1.1 p'], 'Warning': ['199 - x'], 'Max-Forwards': ['0', '10'], 'Pragma': ['no-cache'],
    'Cache-Control': ['no-cache', 'max-age=0', 'only-if-cached', 'no-store'], 'Prefer': ['return=minimal', 'respond-async'], 'Priority': ['u=1'],
    'Access-Control-Request-Method': ['PUT'], 'Sec-Fetch-Mode': ['navigate'], 'Early-Data': ['1'], 'Server': ['x'], 'Location': ['/b'],
    'Set-Cookie': ['a=b'], 'Status': ['404', '200'], 'Vary': ['*'], 'Allow': ['GET'], 'Age': ['1'], 'Expires': ['0'], 'ETag': ['"a"'], 'Link': ['</a>'],
    'Path': ['/a'], 'Method': ['GET', 'PUT'], 'Version': ['1.0'], 'Query': ['a=b'], 'Body': ['x'], 'Url': ['/b'], 'Length': ['3'], 'A': ['b'],
}
RESERVED = {'host', 'content-length', 'transfer-encoding', 'cookie', 'expect', 'x-tok', 'x-out', 'x-panic', 'x-sleep'}
QUERIES = ['', 'a=b', 'a', '=', '&&', 'x=1&y=2', 'a[]=1&a[]=2', 'a[k]=v', '_method=DELETE', '_method=PUT', 'method=post', 'path=/b', 'id=7', '/../..', '/..', '%2e%2e/',
           '?', 'a?b', 'q=%zz', 'q=%41', 'debug=1', '/b', '%00', '#x', 'x=..', 'format=json', '.json', 'a=b#c', 'é=ü', ':x', 'x=:y']


def line_value(rng):
    r = rng.random()
    if r < .4:
        return rng.choice(rng.choice(list(COMMON.values())))
    if r < .7:
        return ''.join(c for c in rng.choice(dictionary()['str']) if c >= ' ' and c != '\x7f').strip(' \t')
    return text(rng, rng.choice([0, 1, 3, 20, 100])).strip(' \t')


def dress(rng, p=.6, body=True, query=True, v10=True):
    """Incidental features of a request (JSON): version, other header lines, query, body. None for a bare one."""
    if rng.random() >= p:
        return None
    d = {'v': 'HTTP/1.0' if v10 and rng.random() < .25 else 'HTTP/1.1', 'pre': [], 'post': []}
    names = set()
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 8]) if rng.random() < .97 else rng.randrange(20, 130)):
        r = rng.random()
        n = rng.choice(list(COMMON))
        if r < .12:
            for _ in range(6):
                n = rng.choice(dictionary()['str'])
                if n and all(c.isascii() and (c.isalnum() or c in "!#$%&'*+-.^_`|~") for c in n):
                    break
            else:
                n = 'X-Lit'
        elif r < .18:
            n = token(rng)
        v = rng.choice(COMMON[n]) if n in COMMON and rng.random() < .8 else line_value(rng)
        if rng.random() < .03:
            v = ''
        if rng.random() < .1:
            n = n.lower() if rng.random() < .5 else n.upper()
        if n.lower() in RESERVED or n.lower() in names:
            continue
        names.add(n.lower())
        d[rng.choice(['pre', 'post'])].append([n, v])
    if rng.random() < .03:
        d['post'].append(['X-Long', 'z' * rng.choice([300, 1000, 5000, 20000, 70000])])
    if query and rng.random() < .35:
        d['q'] = rng.choice(QUERIES) if rng.random() < .8 else ''.join(c for c in line_value(rng) if c > ' ')
    if body and rng.random() < .25:
        d['b'] = rng.choice([0, 1, 2, 10, 100, 512, 1500, 9000])
    if d['v'] == 'HTTP/1.0' and rng.random() < .5:
        d['nohost'] = 1
    elif rng.random() < .2:
        d['host'] = rng.choice(['a', '', 'a:80', '127.0.0.1', '[::1]:443', 'example.com', 'a, b', 'LOCALHOST', 'x' * 300, 'é'])
    return d


def lines(rng, p=.5):
    """Incidental header lines."""
    d = dress(rng, p, False, False)
    return d['pre'] + d['post'] if d else []


def dressed(method, target, headers, d, body=b''):
    """The request with the incidental features d (see dress) around the given headers."""
    if d is None:
        return request(method, target, headers, body)
    if d.get('q') is not None and '?' not in target:
        target += '?' + d['q']
    h = [] if d.get('nohost') else [('Host', d.get('host', 'localhost'))]
    h = [tuple(x) for x in d['pre']] + h + list(headers) + [tuple(x) for x in d['post']]
    if not body and d.get('b') is not None:
        body = (b'a=b&c=d\r\n\r\n\0\xff' * (d['b'] // 12 + 1))[:d['b']]
        if not body:
            h.append(('Content-Length', '0'))
    return request(method, target, h, body, d['v'], host=False)


def request(method, target, headers=(), body=b'', version='HTTP/1.1', host=True, cl=True):
    h = []
    if host:
        h.append(('Host', 'localhost'))
    h += list(headers)
    if cl and body:
        h.append(('Content-Length', str(len(body))))
    head = f'{method} {target} {version}\r\n' + ''.join(f'{n}: {v}\r\n' for n, v in h) + '\r\n'
    return head.encode('utf8') + body


def near(rng, s):
    """Text of the same length that differs from s in one or two letters or digits, never inside an escape."""
    at = [i for i, c in enumerate(s) if c.isascii() and c.isalnum() and '%' not in s[max(0, i - 2):i]]
    if not at:
        return s
    i, j = rng.choice(at), rng.choice(at)
    c = list(s)
    r = rng.random()
    if r < .4:
        c[i], c[j] = c[j], c[i]
    elif r < .6:
        c[i] = c[i].swapcase()
    elif r < .8:
        c[i] = rng.choice('abXY019')
    elif r < .87:  # one up, the next 31 down: common hashes stay the same
        if i + 1 in at and chr(ord(c[i]) + 1).isalnum() and (chr(ord(c[i + 1]) - 31).isalnum() and c[i + 1] > 'O'):
            c[i], c[i + 1] = chr(ord(c[i]) + 1), chr(ord(c[i + 1]) - 31)
    else:  # one up and one down: sums stay the same
        if c[i] not in '9zZ' and c[j] not in '0aA' and i != j:
            c[i], c[j] = chr(ord(c[i]) + 1), chr(ord(c[j]) - 1)
    return ''.join(c)


def upset(rng, p=.12):
    """Requests that go wrong, to be sent before a judged one."""
    return [rng.choice(['panic', 'panic', 'malformed', 'cut', 'leave']) for _ in range(rng.choice([1, 1, 2, 4]))] if rng.random() < p else []


def disturb(port, target, kinds, sut, headers=(), method='POST', drop=True):
    """Send the requests of upset(); handlers holding panic_if_hdr panic on them. Their events are dropped."""
    from core import talk, connect
    for k in kinds:
        hs = [('X-Tok', 'upset')] + list(headers)
        if k in ('panic', 'malformed'):
            hs += [('X-Panic', '1')]
            raw = request(method, target, hs, b'upset body')
            talk(port, raw if k == 'panic' else raw.replace(b'X-Panic: 1\r\n', b'bad line\r\n'), sut)
        else:
            s = connect(port)
            s.sendall(request(method, target, hs, b'x' * 700)[:-3 if k == 'cut' else -699])
            s.close()
    if kinds and drop:
        sut.events()


def trapped(hs, at):
    """The handlers' operations with a panic, taken only on request, at the place given by two numbers in 0..1."""
    hs = [list(h) for h in hs]
    if at:
        h = hs[int(at[0] * len(hs))]
        h.insert(int(at[1] * (len(h) + 1)), ['panic_if_hdr'])
    return hs
