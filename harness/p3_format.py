"""HTTP/1 text form, SPDY/3 block, HAR conversion"""
import sys, os, types, struct, zlib
sys.path.insert(0, os.environ['VERIF_HARNESS'])
from hcommon import *
sys.path.insert(0, REPO)
MODE = sys.argv[3] if len(sys.argv) > 3 else ''


# ------------------------------------------------------------------ HTTP/1
def t_http1(inp):
    from compressor import format_http1, parse_http1
    from compressor.http1 import Processor
    h, req = inp['h'], inp['req']
    h0 = list(h.items())
    exp = dict(h)
    exp.setdefault(':version', 'HTTP/1.1')
    if not req:
        exp.setdefault(':status-text', '?')
    text = format_http1(h)
    eq(list(h.items()), h0, 'formatted dictionary changed')
    eq(parse_http1(text, req), exp, 'parsed headers')
    eq(format_http1(h), text, 'formatting again')
    host = inp.get('hostname', 'Host')
    p = Processor(None, req, [])
    c = p.compress(h, 'example.com')
    eq(p.decompress(c), exp, 'headers from the http1 codec')
    eq(p.decompress(p.compress(h, 'example.com')), exp, 'headers from the http1 codec, second time')
    # shape of the text: request or status line, one field line per value, blank line
    lines = text.split('\r\n')
    eq(lines[-2:], ['', ''], 'end of the message')
    top = '%s %s %s' % ((exp[':method'], exp[':path'], exp[':version']) if req else (exp[':version'], exp[':status'], exp[':status-text']))
    eq(lines[0], top, 'first line')
    want = []
    for k, v in h.items():
        if k in ((':method', ':path', ':version') if req else (':version', ':status', ':status-text')):
            continue
        for x in v.split('\0'):
            want.append('%s: %s' % ('host' if k == ':host' else k, x))
    eq(sorted(lines[1:-2]), sorted(want), 'field lines')


TOK = ['accept', 'cookie', 'x-a', 'b', 'set-cookie', 'via', ':scheme', ':x', 'x_y', '0', '!', 'content-length', 'accept-encoding', 'az', 'date', 'n' * 90, 'x-' + 'y' * 300]
V1 = ['', 'a', 'a b', 'a: b', ':', ':x', 'a:b:c', 'text/html; q=0.5', 'a,b', '\xe9', 'GET / HTTP/1.1', 'HTTP/1.1 200 OK', '"q"', 'a\tb', '0', ': ', 'a  b', 'x' * 300, '#', '%0d%0a', 'Sat, 1 Jan 2000 00:00:00 GMT', '\x01', 'host: x']
METH = ['get', 'GET', 'post', 'M-SEARCH', 'x']
PATHS = ['/', '/a?b=c&d=e:f', '*', '/%20', '/a:b', '/\xe9', 'http://x/y', '/' + 'p' * 200]
VERS = ['HTTP/1.1', 'HTTP/1.0', 'http/2.0', 'unknown', 'h2']
PHR = ['OK', 'Not Found', 'Moved  Permanently', '?', 'a: b', 'Found HTTP/1.1', 'x y z']


def nul(r):
    v = r.rng.choice(V1).strip()
    while r.rng.random() < .25:
        v += '\0' + r.rng.choice(V1).strip()
    return v


def frame(r, req):
    h = []
    if req:
        h += [(':method', r.rng.choice(METH)), (':path', r.rng.choice(PATHS))]
        if r.rng.random() < .6:
            h.append((':host', nul(r)))
    else:
        h += [(':status', r.rng.choice(['200', '404', '0', '999', '']) or '100')]
        if r.rng.random() < .6:
            h.append((':status-text', r.rng.choice(PHR)))
    if r.rng.random() < .6:
        h.append((':version', r.rng.choice(VERS)))
    for n in r.rng.sample(TOK + ([':status', ':status-text'] if req else [':path', 'host']), r.rng.randrange(5)):
        h.append((n, nul(r)))
    r.rng.shuffle(h)
    return dict(h)


def g_http1(r):
    for req in (True, False):
        base = {':method': 'get', ':path': '/'} if req else {':status': '200'}
        yield 'http1', dict(h=base, req=req)
        for k in TOK + ([':host'] if req else []):
            for v in V1:
                v = v.strip()
                yield 'http1', dict(h=dict(base, **{k: v}), req=req)
                yield 'http1', dict(h=dict([(k, v)], **base), req=req)
                yield 'http1', dict(h=dict(base, **{k: v + '\0' + v, 'zz': 'last'}), req=req)
                yield 'http1', dict(h=dict(base, **{k: '\0' + v + '\0'}), req=req)
        for k in ((':status', ':status-text', ':scheme') if req else (':path', ':scheme', 'host', ':x-' + 'q' * 100)):
            yield 'http1', dict(h=dict(base, **{k: 'some value'}), req=req)
            yield 'http1', dict(h=dict([(k, 'a\0b')], **base), req=req)
        for ver in VERS:
            yield 'http1', dict(h=dict(base, **{':version': ver}), req=req)
    for ph in PHR:
        yield 'http1', dict(h={':status': '200', ':status-text': ph}, req=False)
    for p in PATHS:
        for m in METH:
            yield 'http1', dict(h={':method': m, ':path': p}, req=True)
    while True:
        req = r.rng.random() < .5
        yield 'http1', dict(h=frame(r, req), req=req)


# ------------------------------------------------------------------ SPDY/3
def block(h):
    return b''.join(struct.pack('!L', len(k)) + k.encode('ascii') + struct.pack('!L', len(v)) + v.encode('ascii') for k, v in h)


def t_spdy3(inp):
    from compressor.spdy3 import Processor
    msgs = [dict(m) for m in inp['msgs']]
    params = inp['params']
    p = Processor(None, True, list(params))
    d = zlib.decompressobj()
    if params:
        from compressor.spdy_dictionary import spdy_dict
    for m in msgs:
        items = list(m.items())
        b = p.Spdy3HeadersFormat(m)
        eq(list(m.items()), items, 'headers changed')
        eq(b, block(items), 'uncompressed block')
        i, got = 0, []
        while i < len(b):
            n = struct.unpack('!L', b[i:i + 4])[0]
            k = b[i + 4:i + 4 + n]
            i += 4 + n
            n = struct.unpack('!L', b[i:i + 4])[0]
            got.append((k.decode('ascii'), b[i + 4:i + 4 + n].decode('ascii')))
            i += 4 + n
        eq(got, items, 'headers parsed from the block')
        f = p.compress(m, 'example.com')
        ok(isinstance(f, bytes), 'frame is bytes')
        if not params:
            eq(f[:min(12, len(b))] + d.decompress(f[min(12, len(b)):]), block(items), 'frame after inflation')


def g_spdy3(r):
    ns = ['a', ':path', 'accept-encoding', 'x' * 255, 'x' * 256, 'y' * 300, '']
    vs = ['', 'v', 'a; b', 'x' * 255, 'x' * 256, 'x' * 65536, 'a\0b', '/', '\x7f']
    for n in ns:
        for v in vs:
            yield 'spdy3', dict(msgs=[[(n, v)]], params=[])
            yield 'spdy3', dict(msgs=[[(n, v), ('second', 'w')], [('second', 'w'), (n, v)]], params=[])
    yield 'spdy3', dict(msgs=[[]], params=[])
    yield 'spdy3', dict(msgs=[[('a', 'b')], [('a', 'b')]], params=['dict'])
    while True:
        ms = []
        for _ in range(r.rng.randrange(1, 4)):
            ms.append([(r.rng.choice(ns) if r.rng.random() < .3 else bytestr(r.rng, r.rng.randrange(1, 9), 'ab-:'), r.rng.choice(vs) if r.rng.random() < .3 else bytestr(r.rng, r.rng.randrange(30), 'ab \0;')) for _ in range(r.rng.randrange(6))])
        yield 'spdy3', dict(msgs=ms, params=[])


# ------------------------------------------------------------------ HAR
PHRASES = {'200': 'OK', '404': 'Not Found', '302': 'Found', '304': 'Not Modified', '500': 'Internal Server Error', '999': 'unknown', '0': 'unknown', '204': 'No Content'}


def hdrs(xs):
    out = {}
    for n, v in xs:
        n = n.lower()
        n = ':host' if n == 'host' else n
        out.setdefault(n, []).append(v)
    return {n: '\0'.join(v) for n, v in out.items()}


def t_har(inp):
    from lib.harfile import har2hdrs
    es, rq, rs = [], [], []
    for e in inp['entries']:
        url = e['scheme'] + '://' + e['host'] + e['path'] + ('?' + e['query'] if e['query'] is not None else '') + ('#' + e['frag'] if e['frag'] is not None else '')
        es.append(dict(request=dict(method=e['method'], url=url, httpVersion=e['v1'], headers=[dict(name=n, value=v) for n, v in e['rq']]),
                       response=dict(status=e['status'], statusText=e['text'], httpVersion=e['v2'], headers=[dict(name=n, value=v) for n, v in e['rs']])))
        if e['scheme'].lower() not in ('http', 'https'):
            continue
        h = hdrs(e['rq'])
        h[':method'] = e['method'].lower()
        h[':path'] = e['path'] + ('?' + e['query'] if e['query'] else '')
        h[':scheme'] = e['scheme'].lower()
        h[':version'] = e['v1']
        h.setdefault(':host', e['host'])
        rq.append(h)
        h = hdrs(e['rs'])
        h[':status'] = str(e['status'])
        h[':status-text'] = e['text'].strip() or PHRASES[str(e['status'])]
        h[':version'] = e['v2']
        rs.append(h)
    har = {'log': {'entries': es}}
    keep = json.dumps(har)
    a, b = har2hdrs(har)
    eq(json.dumps(har), keep, 'HAR data changed')
    eq(a, rq, 'request headers')
    eq(b, rs, 'response headers')


HN = ['Host', 'HOST', 'host', 'Accept', 'accept', 'ACCEPT', 'Cookie', 'Set-Cookie', 'set-cookie', 'X', 'Content-Type', 'via', ':weird']


def g_har(r):
    def hs(n):
        return [(r.rng.choice(HN), r.rng.choice(['', 'a', 'A b', 'x\0y', ' pad ', 'www.other.org', '\xe9', 'b; c'])) for _ in range(n)]

    def entry():
        return dict(scheme=r.rng.choice(['http', 'https', 'http', 'https', 'HTTP', 'Https', 'ftp', 'data', 'ws', 'chrome-extension']), host=r.rng.choice(['www.example.com', 'a.b:8080', 'X.org', '10.0.0.1']),
                    path=r.rng.choice(['/', '/a/b', '/a:b//c', '/x;p=1', '', '/http://y/z']), query=r.rng.choice([None, None, 'a=b', '', 'u=http://x/y', 'a?b', 'q=1&q=2']), frag=r.rng.choice([None, None, None, 'f', 'a/b?c']),
                    method=r.rng.choice(['GET', 'POST', 'get', 'Put']), v1=r.rng.choice(['HTTP/1.1', 'HTTP/1.0', 'h2']), v2=r.rng.choice(['HTTP/1.1', 'HTTP/1.0', 'h2']),
                    status=r.rng.choice([int(x) for x in sorted(PHRASES)]), text=r.rng.choice(['', ' ', 'OK', 'Fine thanks', ' padded ', '?']), rq=hs(r.rng.randrange(6)), rs=[(n, v) for n, v in hs(r.rng.randrange(6))])
    yield 'har', dict(entries=[])
    while True:
        yield 'har', dict(entries=[entry() for _ in range(r.rng.randrange(1, 5))])


r = Run()
r.go({'http1': t_http1, 'spdy3': t_spdy3, 'har': t_har}, {'http1': [g_http1(r)], 'spdy3': [g_spdy3(r)], 'har': [g_har(r)]}.get(MODE, []))
