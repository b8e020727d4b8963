"""Huffman coding: five copies of huffman.py (delta family) and headerdiff's HuffmanCodec; frequency tables shipped and generated"""
import sys, os, imp
sys.path.insert(0, os.environ['VERIF_HARNESS'])
from hcommon import *

COPIES = ['delta', 'delta2', 'delta2_bohe', 'delta_bohe', 'bohe']
MODS, TABLES, BB = {}, {}, {}
for d in COPIES:
    p = os.path.join(REPO, 'compressor', d)
    sys.path.insert(0, p)
    for m in ('common_utils', 'bit_bucket', 'huffman', 'header_freq_tables'):
        sys.modules.pop(m, None)
    MODS[d] = __import__('huffman')
    BB[d] = sys.modules['bit_bucket'].BitBucket
    t = __import__('header_freq_tables')
    TABLES[d] = [getattr(t, n) for n in ('request_freq_table', 'response_freq_table')]
    sys.path.remove(p)
HD = imp.load_source('hd_huffman', os.path.join(REPO, 'compressor', 'headerdiff', 'Huffman.py'))
CACHE = {}


def sym(x):
    return x if isinstance(x, int) else ord(x)


def coder(copy, tab):
    """tab: index of a shipped table, or the list of frequencies of symbols 0.."""
    k = (copy, tab if isinstance(tab, int) else tuple(tab))
    if k not in CACHE:
        if len(CACHE) > 40:
            CACHE.clear()
        CACHE[k] = MODS[copy].Huffman(TABLES[copy][tab] if isinstance(tab, int) else [(i, f) for i, f in enumerate(tab)])
    return CACHE[k]


def codes(h):
    out = []
    for b, n in h.code_table:
        bits = ''.join('{0:08b}'.format(x) for x in b)
        ok(len(b) == (n + 7) // 8 and n > 0, 'code of %d bits in %d bytes' % (n, len(b)))
        ok('1' not in bits[n:], 'bits after the code')
        out.append(bits[:n])
    return out


def t_tree(inp):
    h = coder(inp['copy'], inp['tab'])
    cs = codes(h)
    n = 257 if isinstance(inp['tab'], int) else len(inp['tab'])
    eq(len(cs), n, 'number of codes')
    s = sorted(cs)
    for a, b in zip(s, s[1:]):
        ok(not b.startswith(a), 'the code %s is a prefix of %s' % (a, b))
    for k, c in enumerate(cs):
        bb = BB[inp['copy']]()
        bb.StoreBits(h.code_table[k])
        if k == 256:
            eq(h.DecodeFromBB(bb, True, 0), [], 'end-of-string code')
        else:
            eq(h.DecodeFromBB(bb, False, len(c)), [k], 'symbol decoded from its own code')
        eq(8 * bb.idx_byte + bb.idx_boff, len(c), 'bits consumed for one symbol')


def t_text(inp):
    h = coder(inp['copy'], inp['tab'])
    cs = codes(h)
    s = inp['s']
    want = ''.join(cs[c] for c in s) + (cs[256] if inp['eof'] else '')
    e, n = h.Encode(s, inp['eof'])
    eq(''.join('{0:08b}'.format(x) for x in e)[:n], want, 'encoded bits')
    bb = BB[inp['copy']]()
    for b in inp['pre']:
        bb.StoreBit(b)
    h.EncodeToBB(bb, s, inp['eof'])
    eq(bb.NumBits(), len(inp['pre']) + len(want), 'bits stored')
    for b in inp['post']:
        bb.StoreBit(b)
    for b in inp['pre']:
        eq((bb.GetBits(1)[0][0] >> 7), b, 'bit stored before')
    if not inp['eof'] and not want:
        return
    eq(h.DecodeFromBB(bb, inp['eof'], 0 if inp['eof'] and inp['zero'] else len(want)), s, 'decoded string')
    eq(8 * bb.idx_byte + bb.idx_boff, len(inp['pre']) + len(want), 'bits consumed')
    for b in inp['post']:
        eq((bb.GetBits(1)[0][0] >> 7), b, 'bit stored after')


HDC = {}


def hd(req, tab):
    k = (req, None if tab is None else tuple(tab))
    if k not in HDC:
        if len(HDC) > 30:
            HDC.clear()
        HDC[k] = (HD.request_codec if req else HD.response_codec) if tab is None else HD.HuffmanCodec(dict((i, f) for i, f in enumerate(tab)))
    return HDC[k]


def t_hdtree(inp):
    c = hd(inp['req'], inp['tab'])
    cs = sorted(('{0:0%db}' % n).format(v) for v, n in c.encoder.values())
    eq(len(cs), 257, 'number of codes')
    for v, n in c.encoder.values():
        ok(v < 2 ** n and n > 0, 'code value %d of %d bits' % (v, n))
    for a, b in zip(cs, cs[1:]):
        ok(not b.startswith(a), 'the code %s is a prefix of %s' % (a, b))


def t_hd(inp):
    c = hd(inp['req'], inp['tab'])
    s = ''.join(chr(x) for x in inp['s'])
    e = c.encode(s)
    bits = ''.join(('{0:0%db}' % n).format(v) for v, n in [c.encoder[ch] for ch in s] + [c.encoder[256]])
    eq(''.join('{0:08b}'.format(ord(x)) for x in e)[:len(bits)], bits, 'encoded bits')
    eq(len(e), (len(bits) + 7) // 8, 'encoded length')
    got, n = c.decode(e + ''.join(chr(x) for x in inp['post']))
    eq(got, s, 'decoded string')
    eq(n, len(e), 'bytes consumed')


class Gen:
    def __init__(self, r):
        self.r = r.rng

    def freqs(self, n=None):
        r = self.r
        n = n or r.choice([2, 3, 4, 5, 8, 9, 17, 39, 40, 64, 100, 256, 257, 257])
        k = r.randrange(6)
        if k == 0:
            return [r.choice([0, 1, 1, 2]) for _ in range(n)]
        if k == 1:
            return [r.randrange(0, 50000) for _ in range(n)]
        if k == 2:  # a few heavy symbols, many light ones: depths far apart
            h = r.choice([1, 3, 7, 15])
            f = [10 ** 6] * min(h, n - 1) + [r.choice([1, 1, 1, 2])] * (n - min(h, n - 1))
            r.shuffle(f)
            return f
        if k == 3:  # deep
            b = r.choice([1.3, 1.6, 2, 2.1])
            f = [int(b ** min(i, 28)) for i in range(n)]
            r.shuffle(f)
            return f
        if k == 4:
            return [7] * n
        return [int(r.paretovariate(0.6)) % 10 ** 7 for _ in range(n)]

    def bits(self):
        return [self.r.randrange(2) for _ in range(self.r.randrange(10))]

    def text(self, n):
        r = self.r
        if r.randrange(3) == 0:
            return [r.randrange(min(n, 256)) for _ in range(r.choice([0, 1, 2, 3, 60]))]
        a = [r.randrange(min(n, 256)) for _ in range(3)]
        return [r.choice(a) for _ in range(r.randrange(20))]


def g_shipped(r):
    g = Gen(r)
    for d in COPIES:
        for t in (0, 1):
            yield 'tree', dict(copy=d, tab=t)
    for req in (True, False):
        yield 'hdtree', dict(req=req, tab=None)
        for c in range(256):
            yield 'hd', dict(req=req, tab=None, s=[c], post=[255, 0][:c % 3])
    for d in COPIES:
        for t in (0, 1):
            for c in range(0, 256, 5):
                yield 'text', dict(copy=d, tab=t, s=[c, (c + 128) % 256], pre=g.bits(), post=g.bits(), eof=bool(c % 2), zero=True)
    while True:
        if r.rng.randrange(3):
            yield 'text', dict(copy=r.rng.choice(COPIES), tab=r.rng.randrange(2), s=g.text(257), pre=g.bits(), post=g.bits(), eof=bool(r.rng.randrange(2)), zero=bool(r.rng.randrange(2)))
        else:
            yield 'hd', dict(req=bool(r.rng.randrange(2)), tab=None, s=g.text(256), post=[r.rng.randrange(256) for _ in range(r.rng.randrange(3))])


FIXED = [[10 ** 6] * 7 + [1] * 32, [10 ** 7] * 3 + [1] * 128, [2 ** i for i in range(30)], [2 ** i for i in range(12)] + [1] * 20, [0] * 257, [1, 0], [0, 1, 2],
         [1, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233, 377, 610, 987, 1597, 2584], [2 ** 16] + [1] * 256, [2 ** 20] * 7 + [0] * 250]
DEEP = [[2 ** i for i in range(40)], [2 ** i for i in range(60)] + [1] * 197, [3 ** i for i in range(36)] + [0]]


def g_tables(r):
    g = Gen(r)
    k = 0
    while True:
        for d in COPIES:
            f = (FIXED + DEEP)[k] if k < len(FIXED + DEEP) else g.freqs()
            n = len(f)
            yield 'tree', dict(copy=d, tab=f)
            for _ in range(4):
                eof = n == 257 and bool(r.rng.randrange(2))
                yield 'text', dict(copy=d, tab=f, s=g.text(n), pre=g.bits(), post=g.bits(), eof=eof, zero=bool(r.rng.randrange(2)))
        f = g.freqs(257)
        yield 'hdtree', dict(req=True, tab=f)
        for _ in range(4):
            yield 'hd', dict(req=True, tab=f, s=g.text(256), post=[255])
        k += 1


r = Run()
r.go({'tree': t_tree, 'text': t_text, 'hdtree': t_hdtree, 'hd': t_hd}, [g_shipped(r), g_tables(r)])
