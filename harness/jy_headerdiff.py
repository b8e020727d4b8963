"""headerdiff: integers and strings (ints), sequences of header lists (lossless), table sizes (sizes)"""
import sys, os
sys.path.insert(0, os.environ['VERIF_HARNESS'])
from hcommon import *
sys.path.insert(0, REPO)
from compressor.headerdiff import Processor, HeaderTuple
from compressor.headerdiff import headerDiffCodec as M

BYTES = {0: [0, 0x20, 0x70], 4: [0x20, 0x30, 0x60, 0x70], 5: [0, 0x40], 14: [0xc0]}


def mk(huffman=False, req=True, size=32768, **kw):
    return M.HeaderDiffCodec(size, delta_type=(M.DELTA_FULL, ''), huffman=huffman, isRequest=req, **kw)


def t_int(inp):
    c = mk()
    pre, post = inp['pre'].encode('latin-1'), inp['post'].encode('latin-1')
    c.encodedStream = pre
    c.writeInteger(inp['byte'], inp['p'], inp['v'])
    s = c.encodedStream
    eq(s[:len(pre)], pre, 'bytes written before')
    c.decodedStream, c.decodedStreamIndex = s + post, len(pre)
    b = 0
    if inp['p']:
        b = c.readNextByte()
        m = 2 ** (inp['p'] if inp['p'] < 8 else inp['p'] - 8) - 1
        eq(b & ~m & 0xff, inp['byte'], 'flag bits')
    eq(c.readInteger(b, inp['p']), inp['v'], 'integer')
    eq(c.decodedStreamIndex, len(s), 'bytes consumed')


def t_str(inp):
    c = mk(inp['huffman'], inp['req'])
    s, post = inp['s'].encode('latin-1'), inp['post'].encode('latin-1')
    c.encodedStream = 'xyz'
    c.writeLiteralString(s)
    n = len(c.encodedStream)
    c.decodedStream, c.decodedStreamIndex = c.encodedStream + post, 3
    eq(c.readLiteralString(), s, 'string')
    eq(c.decodedStreamIndex, n, 'bytes consumed')


def esc(x):
    return x.encode('latin-1')


def dtype(t):
    return {'full': (M.DELTA_FULL, ''), 'bound': (M.DELTA_BOUND, '/&= ,'), 'max': (M.DELTA_MAX, 2)}[t]


def enc_table(c):
    t = [None] * len(c.headersTableEncoder)
    for h in c.headersTableEncoder.values():
        ok(0 <= h.index < len(t) and t[h.index] is None, 'encoder index %r used twice or out of range' % h.index)
        t[h.index] = (h.name, h.value)
    return t


def names(d):
    return [k for k, v in sorted(d.items(), key=lambda x: x[1])]


def t_seq(inp):
    kw = dict(windowSize=inp['deflate'], dict='abcde', delta_usage=inp['delta'], delta_type=dtype(inp['dt']), huffman=inp['huffman'], isRequest=inp['req'])
    enc, dec = M.HeaderDiffCodec(inp['size'], **kw), M.HeaderDiffCodec(inp['size'], **kw)
    sizes = inp['mode'] == 'sizes'
    for n, l in enumerate(inp['msgs']):
        l = [(esc(k), esc(v)) for k, v in l]
        f = enc.encodeHeaders([HeaderTuple(k, v) for k, v in l], inp['req'])
        ok(f[:8] == '%c%c' % ((len(f) - 8) >> 8, (len(f) - 8) & 255) + '\0' * 6, 'frame header of message %d' % n)
        if sizes:
            s = sum(len(h.value) for h in enc.headersTableEncoder.values())
            eq(enc.headersTableEncoderSize, s, 'encoder: accounted size after message %d' % n)
            ok(s <= inp['size'], 'encoder: indexed headers larger than the buffer after message %d' % n)
        got = dec.decodeHeaders(f, inp['req'])
        if sizes:
            s = sum(len(v) for k, v in dec.indexedHeadersDecoder)
            eq(dec.indexedHeadersSizeDecoder, s, 'decoder: accounted size after message %d' % n)
            ok(s <= inp['size'], 'decoder: indexed headers larger than the buffer after message %d' % n)
            continue
        eq(got, l, 'headers of message %d' % n)
        eq(enc_table(enc), dec.indexedHeadersDecoder, 'indexed headers after message %d' % n)
        eq(enc.headersTableEncoderSize, dec.indexedHeadersSizeDecoder, 'sizes after message %d' % n)
        eq(names(enc.headerNamesEncoderRequestTable), dec.headerNamesDecoderRequestTable, 'request names after message %d' % n)
        eq(names(enc.headerNamesEncoderResponseTable), dec.headerNamesDecoderResponseTable, 'response names after message %d' % n)


def crumbs(d):
    return sorted((k, x.strip()) for k, v in d.items() for x in v.split(';' if k == 'cookie' else '\0'))


def t_proc(inp):
    a, b = Processor(None, inp['req'], inp['params']), Processor(None, inp['req'], inp['params'])
    for n, l in enumerate(inp['msgs']):
        d = dict((esc(k), esc(v)) for k, v in l)
        eq(crumbs(b.decompress(a.compress(d, 'h'))), crumbs(d), 'message %d through compress and decompress' % n)


NAMES = [u'a', u'ab', u'b', u'', u'cookie', u':path', u'accept', u'x-new', u'date', u':status', u'te']
VALS = [u'', u'b', u'bc', u'c', u'/', u'/a/b?x=1&y=2', u'/a/b?x=1&y=3', u'aaaa', u'aaaabbbbbbbbbbbbbbbbbbbbbbbb', u'aaaacccccccccccccccccccccccc']


class Gen:
    def __init__(self, r):
        self.r = r.rng

    def val(self, size):
        r = self.r
        k = r.randrange(6)
        if k < 2:
            return r.choice(VALS)
        if k == 2:
            return r.choice(VALS)[:r.randrange(20)] + u'%d' % r.randrange(9) * r.randrange(1, 30)
        if k == 3:
            return u'%d' % r.randrange(5) * r.choice([1, 10, max(0, min(size, 900) - r.randrange(3)), min(size, 900) // 2])
        return u'/p%d/' % r.randrange(3) + u'q' * r.randrange(3) + u'%d' % r.randrange(40)

    def name(self):
        r = self.r
        return r.choice(NAMES) if r.randrange(5) else u'n%d' % r.randrange(70)

    def seq(self, mode):
        r = self.r
        size = r.choice([0, 1, 8, 30, 60, 100, 200, 500, 900, 32768])
        msgs, pool = [], []
        for _ in range(r.randrange(1, 9)):
            m = []
            for _ in range(r.choice([0, 1, 2, 4, 8, 16])):
                m.append(r.choice(pool) if pool and r.randrange(5) < 2 else (self.name(), self.val(size)))
            pool += m
            msgs.append([list(h) for h in m])
        return dict(mode=mode, size=size, deflate=r.choice([None, None, 15, 8, 9]) if mode == 'lossless' else None, delta=bool(r.randrange(3)), dt=r.choice(['full', 'bound', 'max']),
                    huffman=r.randrange(8) == 0, req=bool(r.randrange(2)), msgs=msgs)

    def wide(self, mode):
        """more indexed headers than the short index reaches"""
        r = self.r
        n = r.choice([63, 64, 65, 70, 100, 200, 250])
        a = [[u'h%d' % i, u'v%d' % i] for i in range(n)]
        b = [list(h) for h in a if r.randrange(3)]
        c = [[h[0], h[1] + r.choice([u'', u'x', u'yyyy'])] for h in a[-20:]]
        for m in (b, c):
            r.shuffle(m)
        return dict(mode=mode, size=r.choice([32768, 300, 600]), deflate=None, delta=bool(r.randrange(2)), dt=r.choice(['full', 'bound', 'max']), huffman=False, req=bool(r.randrange(2)), msgs=[a, b, c, b][:r.randrange(2, 5)])

    def proc(self):
        r = self.r
        ps = [r.choice([[], ['buffer=%d' % r.choice([100, 500, 32768])]]), r.choice([[], ['deflate=15']]), r.choice([[], ['delta=false']]), r.choice([[], ['delta_type=3'], ["delta_type='/&= \\coma'"], ['delta_type=']]), r.choice([[], [], ['huffman']])]
        msgs = []
        for _ in range(r.randrange(1, 6)):
            d = {}
            for _ in range(r.randrange(0, 9)):
                k = self.name()
                d[k] = (u';' if k == u'cookie' else u'\0').join(self.val(200) + u' ' * r.randrange(2) for _ in range(r.choice([1, 1, 1, 2, 3])))
            if msgs and r.randrange(2):
                d = dict([x for x in msgs[-1] if r.randrange(5)] + list(d.items())[:2])
            msgs.append([list(x) for x in d.items()])
        return dict(params=[x for p in ps for x in p], req=bool(r.randrange(2)), msgs=msgs)


def g_int(r):
    vals = list(range(0, 600)) + [2 ** k + d for k in range(7, 40) for d in (-2, -1, 0, 1, 2)] + [m + 128 ** k + d for m in (15, 31, 16383) for k in range(0, 4) for d in (-2, -1, 0, 1)]
    for v in vals:
        for p in sorted(BYTES):
            for b in BYTES[p]:
                yield 'int', dict(byte=b, p=p, v=v, pre=u'', post=u'\xff')
    while True:
        p = r.rng.choice(sorted(BYTES))
        yield 'int', dict(byte=r.rng.choice(BYTES[p]), p=p, v=r.rng.getrandbits(r.rng.randrange(1, 50)), pre=b2l(bytestr(r.rng, r.rng.randrange(3))), post=b2l(bytestr(r.rng, r.rng.randrange(3))))


def g_str(r):
    for h in (False, True):
        for n in list(range(0, 40)) + [126, 127, 128, 129, 255, 256, 300, 16383, 16384]:
            if not h or n < 400:
                yield 'str', dict(s=u'a' * n, post=u'\x80', huffman=h, req=True)
    for b in range(256):
        yield 'str', dict(s=u'%c' % b, post=u'', huffman=True, req=True)
        yield 'str', dict(s=u'%c' % b, post=u'\xff', huffman=True, req=False)
    while True:
        h = r.rng.randrange(2) == 0
        yield 'str', dict(s=b2l(bytestr(r.rng, r.rng.choice([0, 1, 5, 127, 128, 129, r.rng.randrange(300)]))), post=b2l(bytestr(r.rng, 2)), huffman=h, req=bool(r.rng.randrange(2)))


def g_seq(r, mode):
    g = Gen(r)
    while True:
        yield 'seq', g.seq(mode)


def g_wide(r, mode):
    g = Gen(r)
    while True:
        yield 'seq', g.wide(mode)


def g_fixed(r, mode):
    for a, b in (((u'a', u'bc'), (u'ab', u'c')), ((u'', u'ab'), (u'a', u'b'))):
        for d in (True, False):
            yield 'seq', dict(mode=mode, size=32768, deflate=None, delta=d, dt='full', huffman=False, req=True, msgs=[[list(a)], [list(b)], [list(a), list(b)]])
    for n in (63, 64, 65, 66, 130):
        a = [[u'n%d' % i, u'v'] for i in range(n)]
        yield 'seq', dict(mode=mode, size=32768, deflate=None, delta=False, dt='full', huffman=False, req=True, msgs=[a, a])


def g_proc(r):
    g = Gen(r)
    while True:
        yield 'proc', g.proc()


r = Run()
MODE = r.args[0] if r.args else 'ints'
if MODE == 'ints':
    gens = [g_int(r), g_int(r), g_str(r)]
else:
    gens = [g_fixed(r, MODE), g_seq(r, MODE), g_seq(r, MODE), g_seq(r, MODE), g_wide(r, MODE)] + ([g_proc(r)] if MODE == 'lossless' else [])
r.go({'int': t_int, 'str': t_str, 'seq': t_seq, 'proc': t_proc}, gens)
