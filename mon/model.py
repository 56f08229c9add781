"""Reference models: what Octane promises, written independently of its code."""
import datetime

METHODS = ['GET', 'POST', 'PUT', 'DELETE', 'HEAD', 'PATCH']
OTHER_METHODS = ['OPTIONS', 'TRACE', 'CONNECT']
TOKEN = set("!#$%&'*+-.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ^_`abcdefghijklmnopqrstuvwxyz|~")


def norm(path):
    """Segments of a path, or None if it climbs above the root."""
    out = []
    for seg in path.split('/'):
        if seg in ('', '.'):
            continue
        if seg == '..':
            if not out:
                return None
            out.pop()
        else:
            out.append(seg)
    return out


def match(pattern, segs, variables=True):
    """Variables bound by pattern (list) on segs (list), or None."""
    if len(pattern) != len(segs):
        return None
    v = {}
    for p, s in zip(pattern, segs):
        if p.startswith(':'):
            if not variables:
                return None
            v[p[1:]] = s
        elif p != s:
            return None
    return v


def flatten(ops):
    """Registrations in effective order: [(method, pattern or None, handler)], plus per-op success."""
    flat, routers, results = [], {}, []
    for op in ops:
        if op['op'] == 'route':
            dst = flat if op.get('on') is None else routers.setdefault(op['on'], [])
            if op['method'] == 'use':
                dst.append(('use', None, op['h']))
                results.append(True)
            else:
                n = norm(op['path'])
                results.append(n is not None)
                if n is not None:
                    dst.append((op['method'], n, op['h']))
        elif op['op'] == 'mount':
            flat.extend(routers.pop(op['router'], []))
            results.append(True)
        else:
            results.append(True)
    return flat, results


def dispatch(flat, method, segs, variables=True):
    """Handlers that run: [(handler, vars)]."""
    out = []
    for m, pat, h in flat:
        if m == 'use':
            v = {}
        elif m == 'all' or m == method.lower():
            v = match(pat, segs, variables)
            if v is None:
                continue
        else:
            continue
        out.append((h, v))
        if h.get('flow') == 'stop':
            break
    return out


def unpercent(s):
    """Percent-decoding of a str to bytes; escapes without two hex digits are kept."""
    b = s.encode('utf8')
    out = bytearray()
    i = 0
    hexd = b'0123456789abcdefABCDEF'
    while i < len(b):
        if b[i] == 37 and i + 2 < len(b) and b[i + 1] in hexd and b[i + 2] in hexd:
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def query(q):
    """Reference query map, or None if some part does not decode to UTF-8."""
    out = {}
    for item in q.split('&'):
        if not item:
            continue
        name, _, val = item.partition('=')
        if not name:
            continue
        try:
            out[unpercent(name).decode('utf8')] = unpercent(val).decode('utf8')
        except UnicodeDecodeError:
            return None
    return out


def equery(q):
    """Reference extended query, in the SUT's JSON form; None if undecodable."""
    out = {}
    try:
        for item in q.split('&'):
            if not item:
                continue
            name, eq, val = item.partition('=')
            if not name:
                continue
            v = unpercent(val).decode('utf8')
            if eq and name.endswith(']') and '[' in name:
                i = name.rindex('[')
                outer, inner = unpercent(name[:i]).decode('utf8'), unpercent(name[i + 1:-1]).decode('utf8')
                if inner == '':
                    cur = out.setdefault(outer, {'a': []})
                    if 'a' in cur:
                        cur['a'].append(v)
                else:
                    cur = out.setdefault(outer, {'o': {}})
                    if 'o' in cur:
                        cur['o'][inner] = v
            else:
                out[unpercent(name).decode('utf8')] = {'s': v}
    except UnicodeDecodeError:
        return None
    return out


def headers(lines):
    """Reference header map of (name, value) lines."""
    out = {}
    for n, v in lines:
        n, v = n.lower(), v.strip(' \t')
        out[n] = out[n] + ', ' + v if n in out else v
    return out


def cookies(value):
    out = []
    for item in value.split(';'):
        name, eq, val = item.partition('=')
        name, val = name.strip(), val.strip()
        if eq and name:
            out.append([name, val])
    return out


DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
EPOCH = datetime.datetime(1970, 1, 1)


def http_date(t):
    d = EPOCH + datetime.timedelta(seconds=t)
    return f'{DAYS[d.weekday()]}, {d.day:02d} {MONTHS[d.month - 1]} {d.year:04d} {d.hour:02d}:{d.minute:02d}:{d.second:02d} GMT'
