"""delta2: variable-length integers, strings and instruction lists (ints), the LRU store (lru), whole header blocks (codec)"""
import sys, os
sys.path.insert(0, os.environ['VERIF_HARNESS'])
from hcommon import *
sys.path.insert(0, REPO)
from compressor import delta2 as D
from compressor.delta2 import spdy4_codec_impl as S
from compressor.delta2 import lrustorage as M
from compressor.delta2 import common_utils as U


class Options:
    verbose = 0


def esc(x):
    return x.encode('latin-1')


HUFF = {True: D.request_huffman, False: D.response_huffman}


def store(bb, bits):
    for b in bits:
        bb.StoreBit(b)


def take(bb, n):
    return [bb.GetBit() for _ in range(n)]


def t_int(inp):
    bb = S.BitBucket()
    pre, post = inp['pre'], inp['post']
    store(bb, pre)
    w = inp['w']
    if w == 0:
        S.PackVarInt(bb, 0, inp['v'], None)
    elif inp.get('packint'):
        S.PackInt(bb, w, inp['v'], None)
    else:
        {8: S.PackInt8, 16: S.PackInt16}[w](bb, w, inp['v'], None)
    n = bb.NumBits()
    store(bb, post)
    eq(take(bb, len(pre)), pre, 'bits stored before')
    if w == 0:
        got = S.UnpackVarInt(bb, 0, None)
    elif inp.get('packint'):
        got = S.UnpackInt(bb, w, None)
    else:
        got = {8: S.UnpackInt8, 16: S.UnpackInt16}[w](bb, w, None)
    eq(got, inp['v'], 'integer')
    eq(8 * bb.idx_byte + bb.idx_boff, n, 'bits consumed')
    eq(take(bb, len(post)), post, 'bits stored after')


def t_str(inp):
    bb = S.BitBucket()
    pre, post, s, h = inp['pre'], inp['post'], esc(inp['s']), HUFF[inp['req']]
    store(bb, pre)
    S.PackStr(bb, (inp['pad'], 1), s, h)
    n = bb.NumBits()
    if inp['pad']:
        eq(n % 8, 0, 'padding')
    store(bb, post)
    eq(take(bb, len(pre)), pre, 'bits stored before')
    eq(S.UnpackStr(bb, (inp['pad'], 1), h), s, 'string')
    eq(8 * bb.idx_byte + bb.idx_boff, n, 'bits consumed')
    eq(take(bb, len(post)), post, 'bits stored after')


def clean(op):
    return dict((k, esc(v) if k in ('key', 'val') else v) for k, v in op.items())


def t_ops(inp):
    c = S.Spdy4CoDe([esc(x) for x in inp['params']], 'x', Options)
    h = HUFF[inp['req']]
    ops = {}
    for name, l in inp['ops']:
        ops[name] = [clean(dict(o, opcode=name)) for o in l]
    for o in ops.values():
        for x in o:
            x['opcode'] = str(x['opcode'])
    want = [o for n in ops for o in ops[n]]
    c.huffman = h
    blob = c.OpsToRealOps(ops, inp['group'])
    eq(ord(blob[0]) * 256 + ord(blob[1]), len(blob) - 9, 'frame length')
    g, got = c.RealOpsToOps(blob)
    eq(g, inp['group'], 'group')
    eq(got, want, 'instructions')


# ---------------------------------------------------------------- LRU store
def t_lru(inp):
    s = M.LruStorage(inp['bytes'], inp['items'], inp['seq'], inp['offset'])
    popped = []
    s.pop_cb = lambda e: popped.append((e.seq_num, e.key(), e.val()))
    off = inp['offset'] or 0
    model, nxt = [], off

    def adv(n):
        return off if inp['seq'] is not None and n + 1 >= inp['seq'] else n + 1

    def check(what):
        eq([(e.seq_num, e.key(), e.val()) for e in s.ring], model, 'entries after ' + what)
        eq(s.byte_size, sum(len(k) + len(v) for _, k, v in model), 'accounted size after ' + what)
        eq(len(s), len(model), 'length after ' + what)
        if inp['bytes'] is not None:
            ok(s.byte_size <= inp['bytes'], 'more bytes than allowed after ' + what)
        if inp['items']:
            ok(len(s.ring) <= inp['items'], 'more items than allowed after ' + what)
        n = len(model)
        if n and (inp['seq'] is None or n <= inp['seq'] - off):
            for q, k, v in (model if n < 12 else model[:3] + model[-3:]):
                e = s.Lookup(q)
                eq((e.seq_num, e.key(), e.val()), (q, k, v), 'entry looked up after ' + what)
    for op in inp['ops']:
        if op[0] == 'store':
            k, v = esc(op[1]), esc(op[2])
            size = len(k) + len(v)
            fits = (inp['bytes'] is None or sum(len(a) + len(b) for _, a, b in model) + size <= inp['bytes']) and not (inp['items'] and len(model) + 1 > inp['items'])
            e = M.KV(k, v)
            try:
                s.Store(e)
                ok(fits, 'stored beyond the limits')
                model.append((nxt, k, v))
                nxt = adv(nxt)
            except MemoryError:
                ok(not fits, 'an entry that fits was refused')
            check('Store')
        elif op[0] == 'insert':
            k, v = esc(op[1]), esc(op[2])
            e = M.KV(k, v)
            size = len(k) + len(v)
            del popped[:]
            r = s.Reserve(e, op[3])
            gone = []
            m2 = list(model)
            res = 1
            if inp['items'] == 0 or inp['bytes'] == 0:
                res = 0
            else:
                if inp['items'] is not None:
                    while len(m2) + op[3] > inp['items'] and res:
                        if m2:
                            gone.append(m2.pop(0))
                        else:
                            res = 0
                if res and inp['bytes'] is not None:
                    while sum(len(a) + len(b) for _, a, b in m2) + size > inp['bytes'] and res:
                        if m2:
                            gone.append(m2.pop(0))
                        else:
                            res = 0
            model = m2
            eq(bool(r), bool(res), 'Reserve result')
            eq(popped, gone, 'entries dropped')
            check('Reserve')
            if r:
                for _ in range(op[3]):
                    if _ == 0:
                        s.Store(e)
                        model.append((nxt, k, v))
                        nxt = adv(nxt)
                check('Store after Reserve')
        elif op[0] == 'pop':
            del popped[:]
            r = s.PopOne()
            eq(bool(r), bool(model), 'PopOne result')
            eq(popped, model[:1], 'entry dropped')
            model = model[1:]
            check('PopOne')
        elif op[0] == 'find':
            k, v = esc(op[1]), esc(op[2])
            full = [q for q, a, b in model if a == k and b == v]
            key = [q for q, a, b in model if a == k]
            want = (full[-1], full[-1]) if full else (key[-1], None) if key else (None, None)
            eq(s.FindKeyValEntries(k, v), want, 'FindKeyValEntries')
        elif op[0] == 'lookup':
            if model:
                q = op[1]
                held = [x for x in model if x[0] == q]
                n = len(model)
                if inp['seq'] is None or n <= inp['seq'] - off:
                    try:
                        e = s.Lookup(q)
                        ok(held, 'Lookup found an entry that is not held')
                        eq((e.seq_num, e.key(), e.val()), held[0], 'entry looked up')
                    except (IndexError, StandardError) as x:
                        if isinstance(x, Mismatch):
                            raise
                        ok(not held, 'Lookup did not find an entry that is held')


# ---------------------------------------------------------------- whole blocks
def crumbs(d):
    return sorted(set((k, x.strip(' ')) for k, v in d.items() for x in v.split(';' if k == 'cookie' else '\0')))


def ring(c):
    return [(e.seq_num, e.key(), e.val()) for e in c.storage.lru_storage.ring]


def groups(c):
    return sorted((g, sorted(h.hg_store)) for g, h in c.header_groups.items() if h.hg_store)


def t_codec(inp):
    ps = [esc(x) for x in inp['params']]
    a, b = D.Processor(Options, inp['req'], ps), D.Processor(Options, inp['req'], ps)
    for n, (host, l) in enumerate(inp['msgs']):
        d = dict((esc(k), esc(v)) for k, v in l)
        blob = a.compress(d, esc(host))
        eq(crumbs(b.decompress(blob)), crumbs(d), 'headers of message %d' % n)
        eq(ring(b.decompressor), ring(a.compressor), 'entries stored after message %d' % n)
        eq(b.decompressor.storage.lru_storage.byte_size, a.compressor.storage.lru_storage.byte_size, 'size after message %d' % n)
        eq(groups(b.decompressor), groups(a.compressor), 'header groups after message %d' % n)


NAMES = [u'a', u'b', u'cookie', u':path', u':method', u'accept', u'x-new', u'date', u':status', u':host', u'']
VALS = [u'', u'/', u'get', u'1', u'200', u'OK', u'http', u'https', u'keep-alive', u'/a', u'a=1', u'zz']


class Gen:
    def __init__(self, r):
        self.r = r.rng

    def bits(self, m=9):
        return [self.r.randrange(2) for _ in range(self.r.randrange(m))]

    def word(self, n=None):
        r = self.r
        k = r.randrange(4)
        if k == 0:
            return r.choice(VALS)
        if k == 1:
            return u''.join(unichr(r.randrange(1, 256)) for _ in range(r.randrange(n or 12)))
        return u'v%d' % r.randrange(30) * r.choice([1, 1, 1, 2, 8])

    def val(self, k):
        r = self.r
        if k == u'cookie':
            return u';'.join(self.word().replace(u';', u'').replace(u'\0', u'') + u' ' * r.randrange(2) for _ in range(r.choice([1, 1, 2, 3, 20])))
        return u'\0'.join(self.word().replace(u'\0', u'') for _ in range(r.choice([1, 1, 1, 1, 2, 3])))

    def params(self, big):
        r = self.r
        ps = []
        if r.randrange(2):
            ps.append(u'max_byte_size=%d' % r.choice([0, 1, 10, 40, 100, 300, 1000, 4096]))
        if r.randrange(2):
            ps.append(u'max_entries=%d' % r.choice([0, 1, 2, 3, 5, 20, 189, 1024]))
        for f in ('small_index', 'varint_encoding', 'hg_adjust', 'implicit_hg_add', 'refcnt_vals', 'only_etoggles', 'idx_from_end'):
            if r.randrange(3) == 0:
                ps.append(u'%s=%d' % (f, r.randrange(2)))
        if big:
            return [p for p in ps if not p.startswith(u'max_')]
        return ps

    def codec(self, big=False):
        r = self.r
        msgs, pool = [], []
        hosts = [u'a.com', u'www.a.com', u'b.org', u'x', u'']
        for _ in range(r.choice([1, 3, 6, 12])):
            d = {}
            if msgs and r.randrange(3):
                d.update(x for x in msgs[-1][1] if r.randrange(5))
            for _ in range(r.choice([0, 1, 2, 4, 8, 60 if big else 12])):
                if pool and r.randrange(3) == 0:
                    k, v = r.choice(pool)
                else:
                    k = r.choice(NAMES) if r.randrange(3) else u'n%d' % r.randrange(90)
                    v = self.val(k)
                d[k] = v
            l = [list(x) for x in sorted(d.items())]
            pool += l
            msgs.append([r.choice(hosts[:r.choice([1, 5])]), l])
        return dict(params=self.params(big), req=bool(r.randrange(2)), msgs=msgs)

    def lru(self):
        r = self.r
        off = r.choice([None, 0, 0, 3, 66])
        o = off or 0
        items = r.choice([None, 0, 1, 2, 3, 5, 10])
        seq = r.choice([None, None, o + (items or 5), o + (items or 5) + r.randrange(1, 4), o + 255])
        size = r.choice([None, 0, 1, 4, 10, 25, 1000])
        ks, vs = [u'', u'a', u'b', u'ab', u'key', u'a'], [u'', u'1', u'2', u'ab', u'valueval']
        ops = []
        for _ in range(r.choice([2, 6, 20, 60])):
            k = r.choice(['insert'] * 6 + ['store', 'store', 'pop', 'find', 'find', 'find', 'lookup', 'lookup'])
            if k == 'insert':
                ops.append([k, r.choice(ks), r.choice(vs), r.choice([1, 1, 1, 1, 2, 0])])
                if ops[-1][3] == 0:
                    ops[-1][0] = 'store'
            elif k in ('store', 'find'):
                ops.append([k, r.choice(ks), r.choice(vs)])
            elif k == 'lookup':
                ops.append([k, r.choice([o, o - 1, o + 1, o + r.randrange(12), (seq or 20) - 1, seq or 30])])
            else:
                ops.append([k])
        return dict(bytes=size, items=items, seq=seq, offset=off, ops=ops)

    def oplist(self):
        r = self.r
        ps = self.params(False)
        small = not any(p in (u'small_index=0',) for p in ps)
        varint = not any(p in (u'varint_encoding=0',) for p in ps)
        hi = r.choice([15, 16, 22, 23, 24, 79, 80, 255, 256]) if not varint else r.choice([15, 16, 22, 23, 24, 78, 79, 80, 255, 590, 591, 4000, 65535, 10 ** 6])
        if not varint:
            hi = min(hi, 255 if small else 65535)
        ops = []
        for name in sorted(S.g_opcodes):
            if r.randrange(3) == 0:
                l = []
                for _ in range(r.choice([0, 1, 2, 15, 16, 17, 31, 32, 33, 48])):
                    o = {}
                    for f in S.g_opcodes[name][1:]:
                        o[f] = self.word() if f in ('key', 'val') else r.choice([r.randrange(hi + 1), hi, 0])
                    l.append(o)
                ops.append([name, l])
        return dict(params=ps, req=bool(r.randrange(2)), group=r.randrange(256), ops=ops)


def g_int(r):
    g = Gen(r)
    vs = list(range(0, 700)) + [0xf + 8 ** k + d for k in range(1, 12) for d in (-2, -1, 0, 1)] + [2 ** k + d for k in range(9, 40) for d in (-1, 0)]
    for v in vs:
        if v >= 2 ** 31:
            continue        # a Python 2 long on Jython: see ASSUMPTIONS of C18
        yield 'int', dict(w=0, v=v, pre=[1, 0, 1][:v % 4], post=[1, 1, 1, 1])
        if v < 256:
            yield 'int', dict(w=8, v=v, pre=g.bits(), post=g.bits())
        if v < 65536:
            yield 'int', dict(w=16, v=v, pre=g.bits(), post=g.bits())
    for w in range(1, 33):
        for v in (0, 1, 2 ** w - 1, 2 ** (w - 1), int(r.rng.getrandbits(w))):
            if v < 2 ** w and v < 2 ** 31:
                yield 'int', dict(w=w, v=v, pre=g.bits(), post=g.bits(), packint=True)
    while True:
        w = r.rng.randrange(1, 32)
        yield 'int', dict(w=0, v=int(r.rng.getrandbits(w)), pre=g.bits(), post=g.bits())


def g_str(r):
    g = Gen(r)
    for b in range(256):
        yield 'str', dict(s=unichr(b), pre=g.bits(), post=g.bits(), pad=b % 2, req=bool(r.rng.randrange(2)))
    while True:
        yield 'str', dict(s=g.word(40), pre=g.bits(), post=g.bits(), pad=r.rng.randrange(2), req=bool(r.rng.randrange(2)))


def g_ops(r):
    g = Gen(r)
    for n in (0, 1, 2, 15, 16, 17, 32, 33):
        for op, o in (('stoggl', dict(index=n)), ('skvsto', dict(key=u'k', val=u'v')), ('sclone', dict(index=n, val=u''))):
            yield 'ops', dict(params=[], req=True, group=n, ops=[[op, [o] * n]])
    while True:
        yield 'ops', g.oplist()


def g_lru(r):
    g = Gen(r)
    while True:
        yield 'lru', g.lru()


def g_fixed(r):
    yield 'codec', dict(params=[], req=True, msgs=[[u'h', []], [u'h', [[u'cookie', u'a=1; b=2;a=1']]], [u'h', []]])
    n = 220
    yield 'codec', dict(params=[], req=True, msgs=[[u'h', [[u'n%d' % i, u'v%d' % i] for i in range(n)]], [u'h', [[u'n%d' % i, u'v%d' % i] for i in range(0, n, 2)]], [u'h', [[u'n%d' % i, u'v%d' % i] for i in range(n)]]])
    yield 'codec', dict(params=[], req=True, msgs=[[u'h%d' % i, [[u'a', u'b'], [u'c', u'%d' % (i % 7)]]] for i in range(300)])


def g_codec(r, big):
    g = Gen(r)
    while True:
        yield 'codec', g.codec(big)


r = Run()
MODE = r.args[0] if r.args else 'ints'
gens = {'ints': lambda: [g_int(r), g_str(r), g_ops(r)], 'lru': lambda: [g_lru(r)], 'codec': lambda: [g_fixed(r), g_codec(r, False), g_codec(r, False), g_codec(r, True)]}[MODE]()
r.go({'int': t_int, 'str': t_str, 'ops': t_ops, 'lru': t_lru, 'codec': t_codec}, gens)
