"""Model of the response operations (C12, C13, C14, C19, C26)."""
import model

STATUS = {
    'Continue': (100, 'Continue'), 'SwitchingProtocol': (101, 'Switching Protocol'), 'Processing': (102, 'Processing'),
    'EarlyHints': (103, 'Early Hints'), 'Ok': (200, 'OK'), 'Created': (201, 'Created'), 'Accepted': (202, 'Accepted'),
    'NonauthoritativeInformation': (203, 'Non-Authoritative Information'), 'NoContent': (204, 'No Content'),
    'ResetContent': (205, 'Reset Content'), 'PartialContent': (206, 'Partial Content'), 'Multistatus': (207, 'Multi-Status'),
    'AlreadyReported': (208, 'Already Reported'), 'ImUsed': (226, 'IM Used'), 'MultipleChoice': (300, 'Multiple Choice'),
    'MovedPermanently': (301, 'Moved Permanently'), 'Found': (302, 'Found'), 'SeeOther': (303, 'See Other'),
    'NotModified': (304, 'Not Modified'), 'TemporaryRedirect': (307, 'Temporary Redirect'),
    'PermanentRedirect': (308, 'Permanent Redirect'), 'BadRequest': (400, 'Bad Request'), 'Unauthorized': (401, 'Unauthorized'),
    'PaymentRequired': (402, 'Payment Required'), 'Forbidden': (403, 'Forbidden'), 'NotFound': (404, 'Not Found'),
    'MethodNotAllowed': (405, 'Method Not Allowed'), 'NotAcceptable': (406, 'Not Acceptable'),
    'ProxyAuthenticationRequired': (407, 'Proxy Authentication Required'), 'RequestTimeout': (408, 'Request Timeout'),
    'Conflict': (409, 'Conflict'), 'Gone': (410, 'Gone'), 'LengthRequired': (411, 'Length Required'),
    'PreconditionFailed': (412, 'Precondition Failed'), 'PayloadTooLarge': (413, 'Payload Too Large'),
    'UriTooLong': (414, 'URI Too Long'), 'UnsupportedMediaType': (415, 'Unsupported Media Type'),
    'RangeNotSatisfiable': (416, 'Range Not Satisfiable'), 'ExpectationFailed': (417, 'Expectation Failed'),
    'ImATeapot': (418, "I'm a teapot"), 'MisdirectedRequest': (421, 'Misdirected Request'),
    'UnprocessableEntity': (422, 'Unprocessable Entity'), 'Locked': (423, 'Locked'), 'FailedDependency': (424, 'Failed Dependency'),
    'TooEarly': (425, 'Too Early'), 'UpgradeRequired': (426, 'Upgrade Required'),
    'PreconditionRequired': (428, 'Precondition Required'), 'TooManyRequests': (429, 'Too Many Requests'),
    'RequestHeaderFieldsTooLarge': (431, 'Request Header Fields Too Large'),
    'UnavailableForLegalReasons': (451, 'Unavailable For Legal Reasons'), 'InternalServerError': (500, 'Internal Server Error'),
    'NotImplemented': (501, 'Not Implemented'), 'BadGateway': (502, 'Bad Gateway'), 'ServiceUnavailable': (503, 'Service Unavailable'),
    'GatewayTimeout': (504, 'Gateway Timeout'), 'HttpVersionNotSupported': (505, 'HTTP Version Not Supported'),
    'VariantAlsoNegotiates': (506, 'Variant Also Negotiates'), 'InsufficientStorage': (507, 'Insufficient Storage'),
    'LoopDetected': (508, 'Loop Detected'), 'NotExtended': (510, 'Not Extended'),
    'NetworkAuthenticationRequired': (511, 'Network Authentication Required'),
}

MIME = {}
for line in '''
css text/css;csv text/csv;html text/html;htm text/html;ics text/calendar;js text/javascript;mjs text/javascript;txt text/plain
abw application/x-abiword;arc application/x-freearc;azw application/vnd.amazon.ebook;bin application/octet-stream
bz application/x-bzip;bz2 application/x-bzip2;csh application/x-csh;doc application/msword
docx application/vnd.openxmlformats-officedocument.wordprocessingml.document;eot application/vnd.ms-fontobject
epub application/epub+zip;gz application/gzip;json application/json;jsonld application/ld+json
mpkg application/vnd.apple.installer+xml;odp application/vnd.oasis.opendocument.presentation
ods application/vnd.oasis.opendocument.spreadsheet;odt application/vnd.oasis.opendocument.text;ogx application/ogg
pdf application/pdf;php application/x-httpd-php;ppt application/vnd.ms-powerpoint
pptx application/vnd.openxmlformats-officedocument.presentationml.presentation;rar application/vnd.rar;rtf application/rtf
sh application/x-sh;swf application/x-shockwave-flash;tar application/x-tar;vsd application/vnd.visio
xhtml application/xhtml+xml;xls application/vnd.ms-excel
xlsx application/vnd.openxmlformats-officedocument.spreadsheetml.sheet;xml application/xml
xul application/vnd.mozilla.xul+xml;zip application/zip;7z application/x-7z-compressed;bmp image/bmp;gif image/gif
ico image/vnd.microsoft.icon;jpeg image/jpeg;jpg image/jpeg;png image/png;svg image/svg+xml;tif image/tiff;tiff image/tiff
webp image/webp;aac audio/aac;mp3 audio/mpeg;oga audio/ogg;opus audio/opus;wav audio/wav;weba audio/webm
avi video/x-msvideo;mpeg video/mpeg;ogv video/ogg;ts video/mp2t;webm video/webm;otf font/otf;ttf font/ttf;woff font/woff
woff2 font/woff2;java application/java-archive;mid audio/midi;midi audio/x-midi
'''.strip().replace('\n', ';').split(';'):
    k, v = line.split()
    MIME[k] = v


def ext_of(path):
    base = path.rsplit('/', 1)[-1]
    if '.' not in base[1:]:
        return ''
    return base.rsplit('.', 1)[1]


def mime(path):
    return MIME.get(ext_of(path).lower(), 'text/plain')


class Model:
    def __init__(self):
        self.version, self.code, self.reason = '1.1', 200, 'OK'
        self.headers = {}
        self.cookies = []
        self.body = None
        self.charset = None
        self.ctype_loose = False   # default Content-Type with a charset: exact spelling left open
        self.length = None

    def default(self):
        if self.length is not None:
            self.headers['Content-Length'] = str(self.length)
        self.headers['Date'] = None
        if 'Content-Type' not in self.headers:
            self.headers['Content-Type'] = 'text/html'
            self.ctype_loose = self.charset

    def set(self, k, v):
        self.headers[k] = v
        if k == 'Content-Type':
            self.ctype_loose = False

    def apply(self, act, files=None, req=None):
        from core import pattern
        a = act[0]
        if a == 'send':
            self.body = bytes.fromhex(act[1])
        elif a == 'send_str':
            self.body = act[1].encode('utf8')
        elif a == 'send_size':
            self.body = pattern(act[1], act[2])
        elif a == 'echo_body':
            self.body = req['body']
        elif a == 'send_file':
            if files.get(act[1]) is None:
                return
            self.body = files[act[1]]
            self.set('Content-Type', mime(act[1]))
        elif a == 'set':
            self.set(act[1], act[2])
        elif a == 'status':
            self.code, self.reason = STATUS[act[1]]
        elif a == 'status_other':
            self.code, self.reason = act[1], act[2]
        elif a == 'redirect':
            self.code, self.reason = STATUS['Found']
            self.set('Location', act[1])
        elif a == 'cookie':
            self.cookies.append(act[1])
        elif a == 'charset':
            self.charset = act[1]
        elif a == 'with_type':
            self.set('Content-Type', act[1])
        elif a == 'attachment':
            self.set('Content-Disposition', 'attachment')
        elif a == 'attachment_fn':
            self.set('Content-Disposition', ('attachment', act[1]))
            self.set('Content-Type', mime(act[1]))
        elif a == 'http_version':
            self.version = act[1]
        elif a == 'default_headers':
            self.default()
        if a in ('send', 'send_str', 'send_size', 'echo_body', 'send_file'):
            self.length = len(self.body)
            self.default()

    def compare(self, r, cookies=True):
        """Problem with response r or None."""
        if self.body is None:
            return None if r.code == 404 else f'no body was supplied but the answer is {r.code}'
        if (r.version, r.code) != (self.version, self.code):
            return f'status line HTTP/{r.version} {r.code}, expected HTTP/{self.version} {self.code}'
        if r.body != self.body:
            k = next((i for i, (a, b) in enumerate(zip(r.body, self.body)) if a != b), min(len(r.body), len(self.body)))
            return f'body of {len(r.body)} bytes, expected {len(self.body)}; first difference at {k}'
        got = [(n, v) for n, v in r.headers if n != 'Set-Cookie' or not cookies]
        names = [n for n, _ in got]
        if len(set(names)) != len(names):
            return f'repeated header lines: {sorted(names)}'
        if set(names) != set(self.headers):
            return f'header names {sorted(names)}, expected {sorted(self.headers)}'
        for n, v in got:
            w = self.headers[n]
            if n == 'Date':
                if len(v) != 29 or not v.endswith(' GMT'):
                    return f'Date {v!r}'
            elif n == 'Content-Type' and self.ctype_loose:
                if not v.startswith('text/html') or self.ctype_loose not in v:
                    return f'Content-Type {v!r} with charset {self.ctype_loose!r}'
            elif isinstance(w, tuple):
                if not v.startswith(w[0]) or w[1] not in v:
                    return f'{n}: {v!r}, expected {w}'
            elif v != w.strip(' \t'):
                return f'{n}: {v!r}, expected {w!r}'
        return None
