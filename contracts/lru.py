"""delta2: the LRU header store (lrustorage.py) and the two-level Storage built on it"""
import z3
from engine.types import *
from engine.symex import Contract, Loop, zs, zi, zb, OPAQUE_METHODS
from engine.speclib import *

F = 'compressor/delta2/lrustorage.py'
G = 'compressor/delta2/spdy4_codec_impl.py'
K = lambda n: '%s::LruStorage.%s' % (F, n)
S = lambda n: '%s::Storage.%s' % (G, n)
# an entry: what key(), val() and ByteSize() return are ghost fields
KV = TObj(F + '::KV', {'khash': INT, 'kvhash': INT, 'seq_num': INT, 'ghost_key': STR, 'ghost_val': STR, 'ghost_size': INT})
CB = TOpaque('PopCallback')
LRU = TObj(F + '::LruStorage', {'ring': TList(KV), 'byte_size': INT, 'max_items': TOpt(INT), 'max_bytes': TOpt(INT), 'max_seq_num': TOpt(INT),
                                'offset': INT, 'seq_num': INT, 'pop_cb': TOpt(CB)})
# the callback is told which entry goes; it has no access to the ring or the accounting
OPAQUE_METHODS[('PopCallback', '__call__')] = lambda eng, o, args: None
HASH = z3.Function('py_hash', SEQ, I)
_m = lambda a, lo, hi, *r: z3.If(hi > lo, hi - lo, z3.IntVal(0))
SUM = RecDef('LRU_SUM', [AI, I, I], I, lambda a, lo, hi: z3.If(hi <= lo, z3.IntVal(0), a[lo] + SUM(a, lo + 1, hi)), measure=_m, calls=lambda a, lo, hi: [(hi > lo, (a, lo + 1, hi))])
_j = z3.Int('lr_j')
ih1 = lambda *r: [(r[-1] > r[-2], r[:-2] + (r[-2] + 1, r[-1]))]
SUM_SNOC = Lemma('lru-sum-append', [AI, I, I], lambda a, lo, hi: z3.Implies(lo <= hi, SUM(a, lo, hi + 1) == SUM(a, lo, hi) + a[hi]),
                 proof=lambda a, lo, hi: [SUM.unfold(a, lo, hi), SUM.unfold(a, lo, hi + 1), SUM.unfold(a, lo + 1, hi + 1)], ih=ih1, measure=_m)
SUM_EXT = Lemma('lru-sum-of-equal-entries', [AI, AI, I, I], lambda a, b, lo, hi: z3.Implies(z3.ForAll([_j], z3.Implies(z3.And(_j >= lo, _j < hi), a[_j] == b[_j])), SUM(a, lo, hi) == SUM(b, lo, hi)),
                proof=lambda a, b, lo, hi: [SUM.unfold(a, lo, hi), SUM.unfold(b, lo, hi)], ih=ih1, measure=lambda a, b, lo, hi: _m(a, lo, hi))


def fits(a, need, count, mi, mb, lo, hi):
    """mi, mb: (present, value); the entries lo..hi leave room for `count` more of `need` bytes"""
    return z3.And(z3.Implies(mi[0], hi - lo + count <= mi[1]), z3.Implies(mb[0], SUM(a, lo, hi) + need <= mb[1]))


KEEP = RecDef('LRU_KEEP', [AI, I, I, B, I, B, I, I, I], I,
              lambda a, need, count, hi_, mi, hb_, mb, lo, hi: z3.If(z3.Or(hi <= lo, fits(a, need, count, (hi_, mi), (hb_, mb), lo, hi)), lo, KEEP(a, need, count, hi_, mi, hb_, mb, lo + 1, hi)),
              measure=lambda *r: _m(r[0], r[-2], r[-1]), calls=lambda *r: [(r[-1] > r[-2], r[:-2] + (r[-2] + 1, r[-1]))])


class R:
    """one store"""
    def __init__(self, o):
        t = o.ring
        if t._lc().items is not None and t._lc().items == ():
            self.lo = self.hi = z3.IntVal(0)
            self.a = {f: z3.K(I, z3.Empty(SEQ) if KV.fields[f] == STR else z3.IntVal(0)) for f in KV.fields}
        else:
            t = t.sym(KV)
            self.lo, self.hi = t.lo, t.hi
            self.a = {f: t.arrs[KV.slot(f)[0]] for f in KV.fields}
        self.size, self.offset, self.next = o.byte_size, opt(o.offset)[1], opt(o.seq_num)[1]
        self.mi, self.mb, self.ms = [opt(getattr(o, f)) for f in ('max_items', 'max_bytes', 'max_seq_num')]
        self.bytes = self.a['ghost_size']

    def num(self, t):
        d = self.next - (self.hi - t)
        return z3.If(z3.And(self.ms[0], d < self.offset), d + self.ms[1] - self.offset, d)

    def keep(self, need, count, lo=None):
        return KEEP(self.bytes, need, count, self.mi[0], self.mi[1], self.mb[0], self.mb[1], self.lo if lo is None else lo, self.hi)

    def same(self, o, *fs):
        """every entry array, but for the fields listed"""
        return z3.And([self.a[f] == o.a[f] for f in KV.fields if f not in fs])


def opt(v):
    if v is None:
        return (z3.BoolVal(False), z3.IntVal(0))
    if z3.is_expr(v) or isinstance(v, int):
        return (z3.BoolVal(True), zi(v))
    v = v._v
    return (z3.Not(zb(v.isnone)), zi(v.leaves[0]))


def wf(o):
    r = R(o)
    j = z3.Int('wf_j')
    a = r.a
    rng = z3.And(r.lo <= j, j < r.hi)
    return [('accounted size', r.size == SUM(r.bytes, r.lo, r.hi)),
            ('ring', r.lo <= r.hi),
            ('sizes', FA([j], z3.Implies(rng, r.bytes[j] >= 0), r.bytes[j])),
            ('numbers', FA([j], z3.Implies(rng, a['seq_num'][j] == r.num(j)), a['seq_num'][j])),
            ('hashes', FA([j], z3.Implies(rng, z3.And(a['khash'][j] == HASH(a['ghost_key'][j]), a['kvhash'][j] == HASH(a['ghost_key'][j]) + HASH(a['ghost_val'][j]))), a['khash'][j])),
            ('hashes2', FA([j], z3.Implies(rng, z3.And(a['khash'][j] == HASH(a['ghost_key'][j]), a['kvhash'][j] == HASH(a['ghost_key'][j]) + HASH(a['ghost_val'][j]))), a['kvhash'][j])),
            ('next number', z3.And(r.offset >= 0, r.next >= r.offset, z3.If(r.ms[0], z3.And(r.next < r.ms[1], r.mi[0], r.mi[1] <= r.ms[1] - r.offset, r.hi - r.lo <= r.ms[1] - r.offset), r.next - (r.hi - r.lo) >= r.offset))),
            ('at most the allowed number', z3.Implies(r.mi[0], z3.And(r.mi[1] >= 0, r.hi - r.lo <= r.mi[1]))),
            ('at most the allowed size', z3.Implies(r.mb[0], z3.And(r.mb[1] >= 0, r.size <= r.mb[1])))]


def entry_ok(e):
    return [e.ghost_size >= 0, e.khash == HASH(e.ghost_key), e.kvhash == HASH(e.ghost_key) + HASH(e.ghost_val)]


OLD = lambda c: R(c.o('self'))
NEW = lambda c: R(c.p('self'))
MOD = ['self.ring', 'self.byte_size']
KEPT = lambda c: z3.And(OLD(c).same(NEW(c)), OLD(c).hi == NEW(c).hi)


def pop_post(c):
    x, y = OLD(c), NEW(c)
    return wf(c.p('self')) + [('an entry goes unless there is none', c.result == z3.If(x.hi > x.lo, z3.IntVal(1), z3.IntVal(0))), ('the others stay', KEPT(c)), ('the oldest goes', y.lo == z3.If(x.hi > x.lo, x.lo + 1, x.lo))]


def res_inv(c):
    x, y = R(c.ep('self')), NEW(c)
    n, k = c.ep('entry').ghost_size, c.ep('item_count')
    return wf(c.p('self')) + [KEPT(c), ('keeps', z3.And(x.keep(n, k) == x.keep(n, k, y.lo), x.lo <= y.lo, y.lo <= x.hi))]


def res_inv2(c):
    x, y = R(c.ep('self')), NEW(c)
    return res_inv(c) + [z3.Implies(x.mi[0], x.hi - y.lo + c.ep('item_count') <= x.mi[1])]


def res_hints(c):
    x, y = R(c.ep('self')), NEW(c)
    n, k = c.ep('entry').ghost_size, c.ep('item_count')
    return [KEEP.unfold(x.bytes, n, k, x.mi[0], x.mi[1], x.mb[0], x.mb[1], y.lo, x.hi), SUM.unfold(x.bytes, y.lo, x.hi)]


def res_exit(c):
    x, y = OLD(c), NEW(c)
    n, k = c.o('entry').ghost_size, c.o('item_count')
    return [KEEP.unfold(x.bytes, n, k, x.mi[0], x.mi[1], x.mb[0], x.mb[1], y.lo, x.hi), SUM.unfold(x.bytes, y.lo, x.hi)]


def off(x):
    """a budget of 0: nothing is ever stored"""
    return z3.Or(z3.And(x.mi[0], x.mi[1] == 0), z3.And(x.mb[0], x.mb[1] == 0))


def res_post(c):
    x, y = OLD(c), NEW(c)
    n, k = c.o('entry').ghost_size, c.o('item_count')
    return wf(c.p('self')) + [('the others stay', KEPT(c)), ('oldest first and no more than needed', y.lo == z3.If(off(x), x.lo, x.keep(n, k))),
                              ('says whether there is room', (c.result != 0) == z3.And(z3.Not(off(x)), fits(x.bytes, n, k, x.mi, x.mb, y.lo, x.hi))),
                              ('refused only if it can never fit', z3.Implies(z3.And(c.result == 0, z3.Not(off(x))), y.lo == x.hi))]


def room(c):
    x, e = OLD(c), c.o('item')
    return z3.And(z3.Implies(z3.And(x.mi[0], x.mi[1] != 0), x.hi - x.lo + 1 <= x.mi[1]), z3.Implies(x.mb[0], x.size + e.ghost_size <= x.mb[1]))


def stored(x, y, e):
    """y is the store x followed by the entry e"""
    return [('the entry comes last', z3.And([y.hi == x.hi + 1] + [y.a[f] == z3.Store(x.a[f], x.hi, zi(getattr(e, f)) if KV.fields[f] == INT else zs(getattr(e, f))) for f in KV.fields if f != 'seq_num']
                                           + [y.a['seq_num'] == z3.Store(x.a['seq_num'], x.hi, x.next)]))]


def store_post(c):
    x, y = OLD(c), NEW(c)
    return wf(c.p('self')) + [('nothing goes', y.lo == x.lo)] + stored(x, y, c.o('item'))


def store_exit(c):
    x, y = OLD(c), NEW(c)
    return [SUM_SNOC.inst(y.bytes, x.lo, x.hi), SUM_EXT.inst(x.bytes, y.bytes, x.lo, x.hi)]


def idx_post(c):
    x, t = OLD(c), z3.Int('ix_t')
    return [('the place of the entry with this number', FA([t], z3.Implies(z3.And(x.lo <= t, t < x.hi, x.a['seq_num'][t] == c.o('seq_num')), c.result == t - x.lo), x.a['seq_num'][t]))]


def has(x, q):
    t = z3.Int('hs_t')
    return z3.Exists([t], z3.And(x.lo <= t, t < x.hi, x.a['seq_num'][t] == q))


def find_post(c, x=None, r=None):
    x = x or OLD(c)
    k, v = c.o('key'), c.o('val')
    r = r or c.result
    ke, ve = opt(r[0]), opt(r[1])
    j = z3.Int('fk_j')
    a = x.a
    rng = z3.And(x.lo <= j, j < x.hi)
    both = lambda j: z3.And(a['ghost_key'][j] == k, a['ghost_val'][j] == v)
    at_ = lambda q, p: z3.Exists([j], z3.And(rng, p(j), a['seq_num'][j] == q))
    return [('an exact match is found whenever one is stored', FA([j], z3.Implies(z3.And(rng, both(j)), ve[0]), a['ghost_key'][j])),
            ('a match of the key is found whenever one is stored', FA([j], z3.Implies(z3.And(rng, a['ghost_key'][j] == k), ke[0]), a['ghost_key'][j])),
            ('what is found has this key and value', z3.Implies(ve[0], z3.And(ke[0], ke[1] == ve[1], at_(ve[1], both)))),
            ('what is found has this key', z3.Implies(ke[0], at_(ke[1], lambda j: a['ghost_key'][j] == k)))]


def find_inv(c, deep):
    x = OLD(c)
    j = z3.Int('fi_j')
    a = x.a
    k, v = c.ep('key'), c.ep('val')
    if not deep:
        return [('not among the later ones', FA([j], z3.Implies(z3.And(x.hi - c.i <= j, j < x.hi), a['ghost_key'][j] != k), a['ghost_key'][j]))]
    i = c.v('i')
    return [('not among the later ones', FA([j], z3.Implies(z3.And(x.lo + i - c.i <= j, j < x.hi), z3.Not(z3.And(a['ghost_key'][j] == k, a['ghost_val'][j] == v))), a['ghost_key'][j]))]


trusted = 'what an entry answers about itself (RefCntString keeps the string and the number of its holders in a shared list): the ghost fields stand for it. Run on the real code by the harness'
KVc = [Contract('%s::KV.%s' % (F, n), {'self': KV}, returns=t, ensures=(lambda n, g: lambda c: [c.result == getattr(c.o('self'), g)])(n, g), verify=False, why_trusted=trusted)
       for n, t, g in (('key', STR, 'ghost_key'), ('val', STR, 'ghost_val'), ('ByteSize', INT, 'ghost_size'))]
KVc.append(Contract('%s::KV.done' % F, {'self': KV}, verify=False, why_trusted=trusted))
contracts = KVc + [
    Contract(F + '::ComputeKVHash', {'key': STR, 'val': STR}, returns=TTuple(INT, INT), ensures=lambda c: [c.result[0] == HASH(c.o('key')), c.result[1] == HASH(c.o('key')) + HASH(c.o('val'))]),
    Contract(K('PopOne'), {'self': LRU}, returns=INT, requires=lambda c: wf(c.v('self')), modifies=MOD, ensures=pop_post, exit_hints=lambda c: [SUM.unfold(OLD(c).bytes, OLD(c).lo, OLD(c).hi)]
             + ([SUM.unfold(OLD(c).bytes, OLD(c).lo + 1, OLD(c).hi)])),
    Contract(K('Reserve'), {'self': LRU, 'entry': KV, 'item_count': INT}, returns=INT, requires=lambda c: wf(c.v('self')) + entry_ok(c.v('entry')) + [c.v('item_count') >= 0], modifies=MOD,
             ensures=res_post, exit_hints=res_exit,
             loops={0: Loop(inv=res_inv, hints=res_hints, dec=lambda c: NEW(c).hi - NEW(c).lo), 1: Loop(inv=res_inv2, hints=res_hints, dec=lambda c: NEW(c).hi - NEW(c).lo)}),
    Contract(K('Store'), {'self': LRU, 'item': KV}, requires=lambda c: wf(c.v('self')) + entry_ok(c.v('item')) + [z3.Not(z3.And(R(c.v('self')).mi[0], R(c.v('self')).mi[1] == 0))],
             modifies=MOD + ['self.seq_num', 'item.seq_num'], ensures=store_post, exit_hints=store_exit, raises=lambda c: z3.Not(room(c))),
    Contract(K('SeqNumToIdxFromLeft'), {'self': LRU, 'seq_num': INT}, returns=INT, requires=lambda c: wf(c.v('self')) + [has(R(c.v('self')), c.v('seq_num'))], ensures=idx_post),
    Contract(K('FindKeyValEntries'), {'self': LRU, 'key': STR, 'val': STR}, returns=TTuple(TOpt(INT), TOpt(INT)), requires=lambda c: wf(c.v('self')), ensures=find_post,
             loops={0: Loop(inv=lambda c: find_inv(c, False)), 1: Loop(inv=lambda c: find_inv(c, True))}),
    Contract(K('__len__'), {'self': LRU}, returns=INT, requires=lambda c: wf(c.v('self')), ensures=lambda c: [c.result == OLD(c).hi - OLD(c).lo]),
    Contract(K('Lookup'), {'self': LRU, 'seq_num': INT}, returns=KV, requires=lambda c: wf(c.v('self')) + [has(R(c.v('self')), c.v('seq_num'))], ensures=lambda c: is_entry(c, OLD(c), c.o('seq_num'))),
]


def is_entry(c, x, q):
    t = z3.Int('lk_t')
    rng = z3.And(x.lo <= t, t < x.hi, x.a['seq_num'][t] == q)
    return [('the entry with this number', FA([t], z3.Implies(rng, z3.And([getattr(c.result, f) == x.a[f][t] for f in KV.fields])), x.a['seq_num'][t]))]


# ---------------------------------------------------------------- the static entries and the ring together
ST = TObj(G + '::Storage', {'static_storage': LRU, 'lru_storage': LRU, 'idx_from_end': INT})


def swf(o):
    st, l = o.static_storage, o.lru_storage
    x, y = R(st), R(l)
    return wf(st) + wf(l) + [('static entries are numbered from 0', z3.And(x.offset == 0, x.next == x.hi - x.lo, x.hi > x.lo, z3.Not(x.mi[0]), z3.Not(x.mb[0]), z3.Not(x.ms[0]))), ('the others after them', y.offset == x.hi - x.lo)]


both = lambda o: (R(o.static_storage), R(o.lru_storage))


def ins_post(c):
    x, y = R(c.o('self').lru_storage), R(c.p('self').lru_storage)
    e = c.o('entry')
    lo = z3.If(off(x), x.lo, x.keep(e.ghost_size, IV(1)))
    fit = z3.And(z3.Not(off(x)), fits(x.bytes, e.ghost_size, IV(1), x.mi, x.mb, lo, x.hi))
    r = opt(c.result)
    return swf(c.p('self')) + [('oldest first and no more than needed', y.lo == lo), ('stored whenever it can fit', r[0] == fit),
                               ('the entry comes last', z3.If(fit, z3.And([r[1] == x.next] + [f for _, f in stored(x, y, e)]), z3.And(y.hi == x.hi, x.same(y))))]


IV = z3.IntVal


def number_ok(c):
    x, y = both(c.v('self'))
    q = c.v('entry_seqnum')
    return swf(c.v('self')) + [z3.If(q < x.hi - x.lo, has(x, q), has(y, q))]


def look_post(c):
    x, y = both(c.o('self'))
    q = c.o('entry_seqnum')
    out = []
    for z in (x, y):
        out += is_entry(c, z, q)
    return out


def se_post(c):
    x, y = both(c.o('self'))
    k, v = c.o('key'), c.o('val')
    ke, ve = opt(c.result[0]), opt(c.result[1])
    j = z3.Int('se_j')
    rng = lambda z: z3.And(z.lo <= j, j < z.hi)
    out = []
    for nm, z in (('static', x), ('ring', y)):
        a = z.a
        out += [('an exact match is found whenever one is stored (%s)' % nm, FA([j], z3.Implies(z3.And(rng(z), a['ghost_key'][j] == k, a['ghost_val'][j] == v), ve[0]), a['ghost_key'][j])),
                ('a match of the key is found whenever one is stored (%s)' % nm, FA([j], z3.Implies(z3.And(rng(z), a['ghost_key'][j] == k), ke[0]), a['ghost_key'][j]))]
    ex = lambda q, p: z3.Or([z3.Exists([j], z3.And(rng(z), z.a['seq_num'][j] == q, p(z.a))) for z in (x, y)])
    out += [('what is found has this key and value', z3.Implies(ve[0], ex(ve[1], lambda a: z3.And(a['ghost_key'][j] == k, a['ghost_val'][j] == v)))),
            ('what is found has this key', z3.Implies(ke[0], ex(ke[1], lambda a: a['ghost_key'][j] == k)))]
    return out


def to_hg(c):
    x, y = both(c.o('self'))
    i, m = c.o('idx'), y.hi - y.lo
    return [('number of the i-th newest entry', z3.If(i < m, c.result == y.a['seq_num'][y.hi - 1 - i], c.result == (x.hi - x.lo) - 1 - (i - m)))]


def to_lru(c):
    x, y = both(c.o('self'))
    t = z3.Int('tl_t')
    n, m, q = x.hi - x.lo, y.hi - y.lo, c.o('idx')
    return [('how many entries are newer', z3.Implies(q < n, c.result == n + m - 1 - q)),
            ('how many entries are newer (ring)', FA([t], z3.Implies(z3.And(y.lo <= t, t < y.hi, y.a['seq_num'][t] == q), c.result == y.hi - 1 - t), y.a['seq_num'][t]))]


contracts += [
    Contract(S('InsertVal'), {'self': ST, 'entry': KV}, returns=TOpt(INT), requires=lambda c: swf(c.v('self')) + entry_ok(c.v('entry')), modifies=['self.lru_storage', 'entry.seq_num'], ensures=ins_post),
    Contract(S('LookupFromIdx'), {'self': ST, 'entry_seqnum': INT, 'by_seqnum': BOOL}, returns=KV, requires=number_ok, ensures=look_post),
    Contract(S('FindEntryIdx'), {'self': ST, 'key': STR, 'val': STR}, returns=TTuple(TOpt(INT), TOpt(INT)), requires=lambda c: swf(c.v('self')), ensures=se_post),
    Contract(S('LruIdxToHgIdx'), {'self': ST, 'idx': INT}, returns=INT, ensures=to_hg,
             requires=lambda c: swf(c.v('self')) + [c.v('idx') >= 0, c.v('idx') < sum([z.hi - z.lo for z in both(c.v('self'))])]),
    Contract(S('HgIdxToLruIdx'), {'self': ST, 'idx': INT}, returns=INT, ensures=to_lru,
             requires=lambda c: swf(c.v('self')) + [c.v('idx') >= 0, z3.Implies(c.v('idx') >= both(c.v('self'))[0].hi - both(c.v('self'))[0].lo, has(both(c.v('self'))[1], c.v('idx')))]),
]


def init_pre(c):
    mi, ms = opt(c.v('max_items')), opt(c.v('max_seq_num'))
    mb, of = opt(c.v('max_bytes')), opt(c.v('offset'))
    o = z3.If(of[0], of[1], z3.IntVal(0))
    return [o >= 0, z3.Implies(mi[0], mi[1] >= 0), z3.Implies(mb[0], mb[1] >= 0), z3.Implies(ms[0], z3.And(o < ms[1], mi[0], mi[1] <= ms[1] - o))]


def init_post(c):
    o = c.p('self')
    x = R(o)
    out = [('empty', x.lo == x.hi), ('offset and number are set', z3.And(opt(o.offset)[0], opt(o.seq_num)[0]))] + wf(o)
    for f, v in (('max_items', x.mi), ('max_bytes', x.mb), ('max_seq_num', x.ms)):
        q = opt(c.o(f))
        out.append((f, z3.And(v[0] == q[0], z3.Implies(q[0], v[1] == q[1]))))
    q = opt(c.o('offset'))
    return out + [x.offset == z3.If(q[0], q[1], z3.IntVal(0)), x.next == x.offset]


LRU0 = TObj(F + '::LruStorage', dict(LRU.fields, offset=TOpt(INT), seq_num=TOpt(INT)))
contracts.append(Contract(K('__init__'), {'self': LRU0, 'max_bytes': TOpt(INT), 'max_items': TOpt(INT), 'max_seq_num': TOpt(INT), 'offset': TOpt(INT)},
                          requires=init_pre, ensures=init_post, modifies=['self'], exit_hints=lambda c: [SUM.unfold(R(c.p('self')).bytes, R(c.p('self')).lo, R(c.p('self')).hi)]))


def load(P):
    P.add([G, F], 2)
