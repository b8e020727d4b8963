"""http2: sequences of header sets through the real encoder and decoder (argument: lossless | sizes | terminates)"""
import sys, os
sys.path.insert(0, os.environ['VERIF_HARNESS'])
from hcommon import *
sys.path.insert(0, REPO)
from compressor.http2 import http2Codec as H
from compressor.http2 import Processor, split_headers, join_headers


def esc(x):
    return x.encode('latin-1')


def hdrs(l):
    return [(esc(k), esc(v)) for k, v in l]


def el(h):
    return len(h[0]) + len(h[1]) + 32


def spec_append(table, size, h, mx):
    """(kept entries, new size) after inserting h"""
    t, s = list(table), size
    while t and s + el(h) > mx:
        s -= el(t.pop(0)[0])
    if s + el(h) <= mx:
        t.append((h, True))
        s += el(h)
    return t, s


class Watch(H.HTTP2Codec):
    """the real codec, with the two insertions checked against their definition"""

    def look(self, side):
        t = self.encoder_table if side == 'e' else self.decoder_table
        return [(e.header, e.referenced) for e in t]

    def both(self, side, fn, entry):
        t0 = self.look(side)
        s0 = self.encoder_table_size if side == 'e' else self.decoder_table_size
        mx = self.max_encoder_size if side == 'e' else self.max_decoder_size
        r = fn(self, entry)
        t1 = self.look(side)
        s1 = self.encoder_table_size if side == 'e' else self.decoder_table_size
        w, ws = spec_append([x for x in t0], s0, entry.header, mx)
        eq([x[0] for x in t1], [x[0] for x in w], 'entries after an insertion')
        eq([x[1] for x in t1[:-1]], [x[1] for x in w[:-1]], 'references after an insertion')
        eq(s1, ws, 'accounted size after an insertion')
        ok(s1 <= mx, 'table larger than its buffer after an insertion: %r' % s1)
        return r

    def append_encoded_header(self, entry):
        return self.both('e', H.HTTP2Codec.append_encoded_header, entry)

    def append_decoded_header(self, entry):
        return self.both('d', H.HTTP2Codec.append_decoded_header, entry)


def sizes(c):
    for t, s, n in ((c.encoder_table, c.encoder_table_size, 'encoder'), (c.decoder_table, c.decoder_table_size, 'decoder')):
        eq(s, sum(el(e.header) for e in t), 'accounted size of the %s table' % n)


def t_seq(inp):
    mode = inp['mode']
    K = Watch if mode == 'sizes' else H.HTTP2Codec
    enc = K(inp['size'], is_request=inp['req'])
    dec = K(inp['size'], is_request=inp['req'])
    sizes(enc)
    for n, l in enumerate(inp['msgs']):
        l = hdrs(l)
        before = set((e.header) for e in enc.encoder_table)
        f = enc.encode_headers(list(l))
        if mode == 'terminates':
            cap = 8 + sum(2 * (len(k) + len(v)) + 12 for k, v in l) + 3 * len(before)
            ok(len(f) <= cap, 'block of message %d longer than every header written once allows: %d > %d' % (n, len(f), cap))
            continue
        if mode == 'sizes':
            sizes(enc)
        ok(len(f) - 8 < 65536 and f[:8] == '%c%c' % ((len(f) - 8) >> 8, (len(f) - 8) & 255) + '\0' * 6, 'frame header of message %d' % n)
        got = dec.decode_headers(f)
        if mode == 'sizes':
            sizes(dec)
            continue
        eq(sorted(set(got)), sorted(set(l)), 'headers of message %d' % n)
        eq(len(got), len(set(got)), 'headers of message %d emitted once' % n)
        eq([(e.header, e.referenced) for e in dec.decoder_table], [(e.header, e.referenced) for e in enc.encoder_table], 'tables after message %d' % n)
        eq(dec.decoder_table_size, enc.encoder_table_size, 'table sizes after message %d' % n)


def w_int(first, prefix, v):
    """a prefixed integer, written here and not by the codec"""
    m = (1 << prefix) - 1
    if v < m:
        return chr(first | v)
    out = chr(first | m) if prefix else ''
    v -= m
    while v > 127:
        out += chr(128 | (v & 127))
        v >>= 7
    return out + chr(v)


def t_dec(inp):
    """one instruction per block, written here: also those the encoder never writes (substitution)"""
    d = Watch(inp['size'], is_request=inp['req'])
    for n, (k, i, name, value) in enumerate(inp['ops']):
        name, value = name.encode('latin-1'), value.encode('latin-1')
        old = [(e.header, e.referenced) for e in d.decoder_table]
        hs = [h for h, _ in old]
        i = i % len(hs) if hs else 0
        if not hs and k in ('sub', 'idx'):
            continue
        lit = w_int(0, 0, len(name)) + name
        val = w_int(0, 0, len(value)) + value
        p = {'idx': w_int(0x80, 7, i), 'inc': w_int(0x40, 5, 0) + lit + val, 'not': w_int(0x60, 5, 0) + lit + val,
             'sub': w_int(0, 6, 0) + lit + w_int(0, 0, i) + val}[k]
        got = d.decode_headers(chr(len(p) >> 8) + chr(len(p) & 255) + '\0' * 6 + p)
        new = (name, value)
        if k in ('inc', 'sub'):
            t = list(hs)
            if k == 'sub':
                t[i] = None
            c = 0
            while sum(el(h) for h in t[c:] if h is not None) + el(new) > inp['size'] and c < len(t):
                c += 1
            want = [h for h in t[c:] if h is not None] + ([new] if el(new) <= inp['size'] else [])
            eq(sorted(e.header for e in d.decoder_table), sorted(want), 'entries after instruction %d' % n)
            have = [e.header for e in d.decoder_table]
            if new not in hs:
                eq([h for h in have if h != new], [h for h in want if h != new], 'order of the entries after instruction %d' % n)
        else:
            eq([e.header for e in d.decoder_table], hs, 'entries after instruction %d' % n)
        if k != 'idx':
            ok(new in got, 'literal of instruction %d is in the set' % n)
        sizes(d)


def crumbs(d):
    return sorted(set((k, x.strip()) for k, v in d.items() for x in v.split(';' if k == 'cookie' else '\0')))


def t_proc(inp):
    ps = ['buffer_size=%d' % inp['size']] if inp['size'] is not None else []
    a = Processor(None, inp['req'], ps)
    b = Processor(None, inp['req'], ps)
    for n, l in enumerate(inp['msgs']):
        d = dict(hdrs(l))
        eq(crumbs(b.decompress(a.compress(d, 'h'))), crumbs(d), 'message %d through compress and decompress' % n)


NAMES = [u':path', u':host', u':method', u':scheme', u':status', u'accept', u'cookie', u'date', u'x', u'y-long-header-name', u'via', u'etag', u'']
BASE = [(u':path', u'/'), (u':method', u'get'), (u':scheme', u'http'), (u':scheme', u'https'), (u':status', u'200'), (u'accept', u''), (u'cookie', u''), (u'via', u''), (u':host', u'')]


class Gen:
    def __init__(self, r):
        self.r = r.rng

    def val(self, room):
        r = self.r
        k = r.randrange(8)
        if k == 0:
            return u''
        if k == 1:
            return u'/'
        if k < 6:
            return u'v%d' % r.randrange(12)
        if k == 6:
            return u'%d' % r.randrange(5) * r.choice([1, 10, 40, 95, 96, 97, 127, 128, 160])
        return u'%d' % r.randrange(5) * r.choice([1, room // 3, room // 2, max(0, room - 40), room, room + 5])

    def one(self, room):
        r = self.r
        if r.randrange(4) == 0:
            return r.choice(BASE)
        return (r.choice(NAMES) + (u'%d' % r.randrange(3) if r.randrange(5) == 0 else u''), self.val(room))

    def seq(self, mode):
        r = self.r
        size = r.choice([0, 31, 40, 80, 120, 200, 400, 700, 1000, 4096])
        room = min(size, 1500)
        msgs = []
        pool = []
        for _ in range(r.randrange(1, 9)):
            m = []
            for _ in range(r.choice([0, 1, 2, 3, 5, 9, 20])):
                h = r.choice(pool) if pool and r.randrange(5) < 2 else self.one(room)
                if h not in m:
                    m.append(h)
            if msgs and r.randrange(3) == 0:
                last = [tuple(h) for h in msgs[-1]]
                m = [h for h in last if r.randrange(6)] + [h for h in m if h not in last][:r.randrange(4)]
            if r.randrange(2):
                r.shuffle(m)
            pool += m
            msgs.append([list(h) for h in m])
        return dict(mode=mode, size=size, req=bool(r.randrange(2)), msgs=msgs)

    def grow(self, mode):
        """many entries: indices beyond the one-byte range, references evicted in the middle of a message"""
        r = self.r
        n = r.choice([20, 60, 100, 127, 128, 160])
        size = r.choice([1500, 4096, 6000, 9000])
        a = [[u'h%d' % i, u'v%d' % r.randrange(3)] for i in range(n)]
        b = [list(h) for h in a if r.randrange(3)] + [[u':path', u'/'], [u'accept', u'']]
        c = [[u'n%d' % i, u'w' * r.choice([1, 30, 120])] for i in range(r.choice([1, 10, 40]))] + b[-r.randrange(1, 30):]
        ms = [a, b, c, b, []][:r.randrange(2, 6)]
        for m in ms[1:]:
            if r.randrange(2):
                r.shuffle(m)
        return dict(mode=mode, size=size, req=bool(r.randrange(2)), msgs=ms)

    def proc(self):
        r = self.r
        size = r.choice([None, 80, 200, 400, 1000])
        msgs = []
        for _ in range(r.randrange(1, 6)):
            d = {}
            for _ in range(r.randrange(0, 9)):
                k = r.choice(NAMES[:-1])
                d[k] = (u';' if k == u'cookie' else u'\0').join(self.val(300) + u' ' * r.randrange(2) for _ in range(r.choice([1, 1, 1, 2, 3])))
            if msgs and r.randrange(2):
                d = dict([x for x in msgs[-1] if r.randrange(5)] + list(d.items())[:2])
            msgs.append([list(x) for x in d.items()])
        return dict(size=size, req=bool(r.randrange(2)), msgs=msgs)


def g_seq(r, mode):
    g = Gen(r)
    while True:
        yield 'seq', g.seq(mode)


def g_grow(r, mode):
    g = Gen(r)
    while True:
        yield 'seq', g.grow(mode)


def g_fixed(r, mode):
    # a referenced ':path' entry evicted while the message is encoded
    for pad in (1, 2, 3, 10, 30, 60):
        for size in (120, 200, 1500, 4096):
            for h in BASE:
                m = [list(h)]
                yield 'seq', dict(mode=mode, size=size, req=True, msgs=[m, m + [[u'n%d' % i, u'z' * 60] for i in range(pad)], m, m])
                yield 'seq', dict(mode=mode, size=size, req=False, msgs=[m, [[u'n%d' % i, u'z' * 60] for i in range(pad)] + m, m, []])


def g_dec(r):
    g = Gen(r)
    while True:
        size = r.rng.choice([40, 120, 200, 400, 1300, 1400, 2000])
        ops = []
        for _ in range(r.rng.randrange(1, 25)):
            nm, v = g.one(size)
            ops.append([r.rng.choice(['idx', 'inc', 'inc', 'not', 'sub', 'sub', 'sub']), r.rng.randrange(60), nm, v])
        yield 'dec', dict(size=size, req=bool(r.rng.randrange(2)), ops=ops)


def g_proc(r):
    g = Gen(r)
    while True:
        yield 'proc', g.proc()


r = Run()
MODE = r.args[0] if r.args else 'lossless'
gens = [g_fixed(r, MODE), g_seq(r, MODE), g_seq(r, MODE), g_seq(r, MODE), g_grow(r, MODE)]
if MODE == 'sizes':
    gens.append(g_dec(r))
if MODE == 'lossless':
    gens.append(g_proc(r))
r.go({'seq': t_seq, 'proc': t_proc, 'dec': t_dec}, gens)
