"""headerdiff: the accounted size of the index (decoder on any byte string)"""
import z3
from engine.types import *
from engine.symex import Contract, Loop, OPAQUE_METHODS, cat, zs, zi, zb
from engine.speclib import *
from contracts.headerdiff import F, K, okp

OPAQUE_METHODS[('Inflate', 'decompress')] = lambda eng, o, args: eng.fresh('inflated', SEQ)
HDR = TTuple(STR, STR)


def _decode(eng, o, args):
    n = eng.fresh('consumed', I)
    eng.assume(n >= 0)
    return (eng.fresh('decoded', SEQ), n)


OPAQUE_METHODS[('HuffmanDecoder', 'decode')] = _decode
HC = TOpaque('HuffmanDecoder')
CODEC = TObj(F + '::HeaderDiffCodec', {
    'indexedHeadersMaxSize': INT, 'windowSize': TOpt(INT), 'decomp': TOpaque('Inflate'), 'huffman': BOOL, 'isRequest': BOOL, 'request_codec': HC, 'response_codec': HC,
    'indexedHeadersDecoder': TList(HDR), 'indexedHeadersSizeDecoder': INT, 'headerNamesDecoderRequestTable': TList(STR), 'headerNamesDecoderResponseTable': TList(STR),
    'decodedStream': STR, 'decodedStreamIndex': INT})
SA = SEQARR
_m = lambda b, lo, hi, *r: z3.If(hi > lo, hi - lo, z3.IntVal(0))
# what an index of entries with these values accounts for
SUM = RecDef('VALUE_SUM', [SA, I, I], I, lambda b, lo, hi: z3.If(hi <= lo, z3.IntVal(0), SUM(b, lo, hi - 1) + L(b[hi - 1])), measure=_m, calls=lambda b, lo, hi: [(hi > lo, (b, lo, hi - 1))])
_j = z3.Int('vs_j')
SUM_EXT = Lemma('value-sum-of-equal-values', [SA, SA, I, I], lambda b, d, lo, hi: z3.Implies(FA([_j], z3.Implies(z3.And(_j >= lo, _j < hi), b[_j] == d[_j]), b[_j]), SUM(b, lo, hi) == SUM(d, lo, hi)),
                proof=lambda b, d, lo, hi: [SUM.unfold(b, lo, hi), SUM.unfold(d, lo, hi)], ih=lambda b, d, lo, hi: [(hi > lo, (b, d, lo, hi - 1))], measure=lambda b, d, lo, hi: _m(b, lo, hi))
SUM_PUT = Lemma('value-sum-after-a-replacement', [SA, I, I, I, SEQ], lambda b, lo, hi, k, v: z3.Implies(z3.And(k >= lo, k < hi), SUM(z3.Store(b, k, v), lo, hi) == SUM(b, lo, hi) - L(b[k]) + L(v)),
                proof=lambda b, lo, hi, k, v: [SUM.unfold(b, lo, hi), SUM.unfold(z3.Store(b, k, v), lo, hi), SUM_EXT.inst(b, z3.Store(b, k, v), lo, hi - 1)],
                ih=lambda b, lo, hi, k, v: [(hi > lo, (b, lo, hi - 1, k, v))], measure=lambda b, lo, hi, *r: _m(b, lo, hi))


def idx(o):
    t = o.indexedHeadersDecoder
    if t._lc().items is not None and t._lc().items == ():
        return z3.K(I, EMPTY), z3.IntVal(0), z3.IntVal(0)
    t = t.sym(HDR)
    return t.arrs[1], t.lo, t.hi




def _none(v):
    v = getattr(v, '_v', v)
    return z3.BoolVal(True) if v is None else zb(v.isnone) if hasattr(v, 'isnone') else z3.BoolVal(False)


anyx = lambda c: z3.BoolVal(True)
DI = ['self.decodedStreamIndex']
at0 = lambda c: c.v('self').decodedStreamIndex >= 0
moved = lambda c: c.p('self').decodedStreamIndex >= c.o('self').decodedStreamIndex
left = lambda c: z3.If(c.p('self').decodedStreamIndex <= L(c.p('self').decodedStream), 1 + L(c.p('self').decodedStream) - c.p('self').decodedStreamIndex, z3.IntVal(0))
READERS = [
    Contract(K('readNextByte'), {'self': CODEC}, returns=INT, requires=lambda c: [at0(c)], raises=anyx, raises_may=True, modifies=DI,
             ensures=lambda c: [c.result >= 0, c.result < 256, c.p('self').decodedStreamIndex == c.o('self').decodedStreamIndex + 1, c.p('self').decodedStreamIndex <= L(c.o('self').decodedStream)]),
    Contract(K('readInteger'), {'self': CODEC, 'currentByte': INT, 'prefixBits': INT}, returns=INT, raises=anyx, raises_may=True, modifies=DI,
             requires=lambda c: [at0(c), c.v('currentByte') >= 0, c.v('currentByte') < 256, z3.Or([c.v('prefixBits') == p for p in (0, 4, 5, 14)])],
             ensures=lambda c: [c.result >= 0, moved(c)],
             loops={0: Loop(inv=lambda c: [c.v('b') >= 0, c.v('b') < 256, c.v('f') >= 1, c.v('value') >= 0, moved(c)], dec=left)}),
    Contract(K('readLiteralString'), {'self': CODEC}, returns=STR, raises=anyx, raises_may=True, modifies=DI, requires=lambda c: [at0(c)], ensures=lambda c: [moved(c)])]


def dec_size(c):
    b, lo, hi = idx(c.p('self'))
    return [('accounted size', c.p('self').indexedHeadersSizeDecoder == SUM(b, lo, hi))]


def dec_final(c):
    """the index after this header: replaced, appended or as it was"""
    b0, lo, hi0 = c.b if hasattr(c, 'b') else idx(c.p('self'))
    return []


decode = Contract(K('decodeHeaders'), {'self': CODEC, 'stream': STR, 'isRequest': BOOL}, returns=TList(HDR), raises=anyx, raises_may=True, lean=True, split=4,
                  cases=lambda c: [z3.And(a, b) for a in (zb(c.v('isRequest')), z3.Not(zb(c.v('isRequest')))) for b in (_none(c.v("self").windowSize), z3.Not(_none(c.v("self").windowSize)))],
                  requires=lambda c: [c.v('self').indexedHeadersSizeDecoder == SUM(*idx(c.v('self')))],
                  modifies=['self.indexedHeadersDecoder', 'self.indexedHeadersSizeDecoder', 'self.headerNamesDecoderRequestTable', 'self.headerNamesDecoderResponseTable', 'self.decodedStream', 'self.decodedStreamIndex'],
                  ensures=dec_size,
                  loops={0: Loop(inv=lambda c: dec_size(c) + [c.p('self').decodedStreamIndex >= 0],
                                 hints=lambda c: [SUM_PUT.all(lambda k, v: (idx(c.p('self'))[0], idx(c.p('self'))[1], idx(c.p('self'))[2], k, v), [I, SEQ], lambda k, v: z3.Store(idx(c.p('self'))[0], k, v)),
                                                  SUM.all(lambda b: (b, idx(c.p('self'))[1], idx(c.p('self'))[2] + 1), [SA], lambda b: SUM(b, idx(c.p('self'))[1], idx(c.p('self'))[2] + 1)),
                                                  SUM_EXT.all(lambda b: (idx(c.p('self'))[0], b, idx(c.p('self'))[1], idx(c.p('self'))[2]), [SA], lambda b: SUM(b, idx(c.p('self'))[1], idx(c.p('self'))[2] + 1))],
                                 types={'headers': TList(HDR)}, dec=lambda c: c.v('nb') - c.v('headers').len)})

# ---------------------------------------------------------------- encoder: how a header is to be represented
from engine.symex import OPAQUE_ATTRS, OPAQUE_ANY, OPAQUE_CLASSES, OPAQUE_ITEMS, OBJ_TYPES
IH = TOpaque('IndexedHeader')
NAME, VALUE, INDEX, FULLN, FULLV = (z3.Function('ih_' + n, IH.sort, s) for n, s in (('name', SEQ), ('value', SEQ), ('index', I), ('fullname', SEQ), ('fullvalue', SEQ)))
OPAQUE_ATTRS.update({('IndexedHeader', 'name'): (NAME, STR), ('IndexedHeader', 'value'): (VALUE, STR), ('IndexedHeader', 'index'): (INDEX, INT), ('IndexedHeader', 'full'): ((FULLN, FULLV), HDR)})
OPAQUE_ANY.update({('IndexedHeader', 'age'): INT, ('IndexedHeader', 'delta_usage'): INT})
OPAQUE_CLASSES[F + '::IndexedHeader'] = IH
OPAQUE_ITEMS[('IndexedHeader', 'bool')] = lambda eng, o: z3.BoolVal(True)
HR = TObj(F + '::HeaderRepresentation', dict(representation=INT, referenceHeader=TOpt(IH), indexing=INT, commonPrefixLength=INT))
OBJ_TYPES[F + '::HeaderRepresentation'] = HR
TBL = TDict(HDR, IH)
NAMES = TDict(STR, INT)
# delta_param: the characters a common prefix may end with (DELTA_BOUND), a number of references (DELTA_MAX)
ENC = lambda t: TObj(F + '::HeaderDiffCodec', {'headersTableEncoder': TBL, 'headersTableEncoderSize': INT, 'indexedHeadersMaxSize': INT, 'delta_usage': BOOL, 'delta_type': STR, 'delta_param': t,
                     'encodedStream': STR, 'huffman': BOOL, 'isRequest': BOOL, 'request_codec': HC, 'response_codec': HC, 'windowSize': TOpt(INT), 'comp': TOpaque('Deflate'),
                     'headerNamesEncoderRequestTable': NAMES, 'headerNamesEncoderResponseTable': NAMES})
OPAQUE_METHODS[('HuffmanDecoder', 'encode')] = lambda eng, o, args: eng.fresh('coded', SEQ)
OPAQUE_METHODS[('Deflate', 'compress')] = OPAQUE_METHODS[('Deflate', 'flush')] = lambda eng, o, args: eng.fresh('deflated', SEQ)
DMAX = zs('delta_max')
KEY = keysort(HDR)
mk = lambda n, v: KEY.mk(n, v)


def opt(v):
    if v is None:
        return z3.BoolVal(True), z3.FreshConst(IH.sort)
    if z3.is_expr(v):
        return z3.BoolVal(False), v
    v = v._v if hasattr(v, '_v') else v
    if hasattr(v, 'isnone'):
        return zb(v.isnone), v.leaves[0]
    return z3.BoolVal(False), v.term


def cells(o):
    d = o.headersTableEncoder.dict
    return d.has, d.arrs[0]


def wf(o):
    has, a = cells(o)
    k = z3.Const('ihk', KEY)
    return FA([k], z3.Implies(has[k], z3.And(mk(NAME(a[k]), VALUE(a[k])) == k, mk(FULLN(a[k]), FULLV(a[k])) == k, INDEX(a[k]) >= 0)), a[k])


def member(o, h):
    has, a = cells(o)
    return z3.And(has[mk(NAME(h), VALUE(h))], a[mk(NAME(h), VALUE(h))] == h)


def prefix_ok(k, s, t):
    return z3.And(k >= 0, k <= L(s), k <= L(t), sub(s, 0, k) == sub(t, 0, k))


def counter(c):
    """the position a loop has reached: the iterations done by a for loop, or the integer local a while loop counts with"""
    if c.i is not None:
        return c.i
    names = [n for n in ('i', 'k', 'n', 'j', 'pos', 'idx', 'p') if c.has(n) and z3.is_int(c.v(n))]
    return c.v(names[0]) if names else None


def pfx_inv(c):
    k, a, b = counter(c), c.o('s1'), c.o('s2')
    if k is None:
        return []
    return [k >= 0, k <= L(a), k <= L(b), sub(a, 0, k) == sub(b, 0, k)]


def pfx_limited_inv(c):
    if c.i is not None:
        return []
    k, a, b = counter(c), c.o('s1'), c.o('s2')
    return [] if k is None else [prefix_ok(k, a, b)]


PFX = [Contract(F + '::common_prefix', {'s1': STR, 's2': STR}, returns=INT, ensures=lambda c: [prefix_ok(c.result, c.o('s1'), c.o('s2'))],
                loops={0: Loop(inv=pfx_inv)}),
       Contract(F + '::common_prefix_limited', {'s1': STR, 's2': STR, 'limits': STR}, returns=INT, ensures=lambda c: [prefix_ok(c.result, c.o('s1'), c.o('s2'))],
                loops={0: Loop(inv=pfx_limited_inv)})]


def sub_added(c, h):
    return L(c.o('headerValue')) - L(VALUE(h))


def det_inv0(c):
    n, h = opt(c.v('deltaSubstitutionHeader'))
    k = c.v('commonPrefixLength')
    return [('the best match is an indexed header of this name', z3.Implies(z3.Not(n), z3.And(member(c.p('self'), h), NAME(h) == c.o('headerName'), prefix_ok(k, c.o('headerValue'), VALUE(h))))),
            ('the length it adds', z3.Implies(z3.Not(n), c.v('deltaSubstitutionAddedLength') == sub_added(c, h))),
            ('none so far', z3.Implies(n, z3.And(k == 0, c.v('deltaSubstitutionAddedLength') == 0)))]


def det_inv1(c):
    n, h = opt(c.v('lruh'))
    o = c.p('self')
    return [('the oldest is an indexed header that may be replaced', z3.Implies(z3.Not(n), z3.And(member(o, h), o.headersTableEncoderSize + sub_added(c, h) < o.indexedHeadersMaxSize)))]


def det_post(c):
    o, hr = c.p('self'), c.result
    n, h = opt(hr.referenceHeader)
    has, a = cells(o)
    name, value = c.o('headerName'), c.o('headerValue')
    rep, ind = hr.representation, hr.indexing
    size, mx = o.headersTableEncoderSize, o.indexedHeadersMaxSize
    return [('kind', z3.And(z3.Or([rep == k for k in (0, 1, 2)]), z3.Or([ind == k for k in (0, 1, 2)]))),
            ('indexed: it is the indexed header of this name and value', (rep == 1) == has[mk(name, value)]), ('indexed: which one', z3.Implies(rep == 1, z3.And(z3.Not(n), member(o, h), NAME(h) == name, VALUE(h) == value, ind == 0))),
            ('delta: an indexed header of this name with this common prefix', z3.Implies(rep == 2, z3.And(z3.Not(n), member(o, h), NAME(h) == name, prefix_ok(hr.commonPrefixLength, value, VALUE(h))))),
            ('added to the index only if it fits', z3.Implies(ind == 1, size + L(value) < mx)),
            ('replaces an indexed header only if it fits', z3.Implies(ind == 2, z3.And(z3.Not(n), member(o, h), size + sub_added(c, h) < mx)))]


determine = Contract(K('determineRepresentation'), {'self': lambda e: ENC(STR if e.case == 0 else INT), 'headerName': STR, 'headerValue': STR, 'isRequest': BOOL}, returns=HR, lean=True,
                     requires=lambda c: [wf(c.v('self')), (c.v('self').delta_type == DMAX) == (c.eng.case == 1)], ensures=det_post, cases=2,
                     loops={0: Loop(inv=det_inv0, types={'deltaSubstitutionHeader': TOpt(IH)}), 1: Loop(inv=det_inv1, types={'lruh': TOpt(IH)})})

# ---------------------------------------------------------------- encoder: the accounted size is the sum over the indexed headers
AK, AP, AH = z3.ArraySort(I, KEY), z3.ArraySort(KEY, I), z3.ArraySort(KEY, B)
LV = lambda k: L(KEY.accessor(0, 1)(k))
_mk = lambda e, n, *r: z3.If(n > 0, n, z3.IntVal(0))
# value lengths of the first n keys of an enumeration
KSUM = RecDef('KEY_SUM', [AK, I], I, lambda e, n: z3.If(n <= 0, z3.IntVal(0), KSUM(e, n - 1) + LV(e[n - 1])), measure=_mk, calls=lambda e, n: [(n > 0, (e, n - 1))])
_i = z3.Int('ks_i')
_k = z3.Const('ks_k', KEY)
KEXT = Lemma('key-sum-of-equal-enumerations', [AK, AK, I], lambda e, d, n: z3.Implies(FA([_i], z3.Implies(z3.And(_i >= 0, _i < n), e[_i] == d[_i]), e[_i]), KSUM(e, n) == KSUM(d, n)),
             proof=lambda e, d, n: [KSUM.unfold(e, n), KSUM.unfold(d, n)], ih=lambda e, d, n: [(n > 0, (e, d, n - 1))], measure=lambda e, d, n: _mk(e, n))
KPUT = Lemma('key-sum-after-a-replacement', [AK, I, I, KEY], lambda e, n, j, x: z3.Implies(z3.And(j >= 0, j < n), KSUM(z3.Store(e, j, x), n) == KSUM(e, n) - LV(e[j]) + LV(x)),
             proof=lambda e, n, j, x: [KSUM.unfold(e, n), KSUM.unfold(z3.Store(e, j, x), n), KEXT.inst(e, z3.Store(e, j, x), n - 1)], ih=lambda e, n, j, x: [(n > 0, (e, n - 1, j, x))], measure=lambda e, n, *r: _mk(e, n))


def into(e, n, d, q, m):
    """every key of the first enumeration is in the second"""
    return FA([_i], z3.Implies(z3.And(_i >= 0, _i < n), z3.And(q[e[_i]] >= 0, q[e[_i]] < m, d[q[e[_i]]] == e[_i])), e[_i])


def distinct(e, p, n):
    return FA([_i], z3.Implies(z3.And(_i >= 0, _i < n), p[e[_i]] == _i), e[_i])


def _perm(e, p, n, d, q, m):
    return z3.Implies(z3.And(n >= 0, m >= 0, distinct(e, p, n), distinct(d, q, m), into(e, n, d, q, m), into(d, m, e, p, n)), z3.And(n == m, KSUM(e, n) == KSUM(d, m)))


def _swap(e, p, n, d, q, m):
    j, last = q[e[n - 1]], d[m - 1]
    return z3.Store(d, j, last), z3.Store(q, last, j)


PERM = Lemma('key-sum-does-not-depend-on-the-order', [AK, AP, I, AK, AP, I], _perm,
             proof=lambda e, p, n, d, q, m: [KSUM.unfold(e, n), KSUM.unfold(d, m), KSUM.unfold(_swap(e, p, n, d, q, m)[0], m), KPUT.inst(d, m, q[e[n - 1]], d[m - 1]), KEXT.inst(d, d, m)],
             ih=lambda e, p, n, d, q, m: [(n > 0, (e, p, n - 1) + _swap(e, p, n, d, q, m) + (m - 1,))], measure=lambda e, p, n, *r: _mk(e, n))


def enumerates(has, e, p, n):
    return z3.And(n >= 0, FA([_i], z3.Implies(z3.And(_i >= 0, _i < n), z3.And(has[e[_i]], p[e[_i]] == _i)), e[_i]), FA([_k], z3.Implies(has[_k], z3.And(p[_k] >= 0, p[_k] < n, e[p[_k]] == _k)), has[_k]))


def _added(has, e, p, n, k, g, d, q, m):
    return z3.Implies(z3.And(enumerates(has, e, p, n), z3.Not(has[k]), g == z3.Store(has, k, True), enumerates(g, d, q, m)), z3.And(m == n + 1, KSUM(d, m) == KSUM(e, n) + LV(k)))


ADDED = Lemma('key-sum-with-a-key-added', [AH, AK, AP, I, KEY, AH, AK, AP, I], _added,
              proof=lambda has, e, p, n, k, g, d, q, m: [PERM.inst(z3.Store(e, n, k), z3.Store(p, k, n), n + 1, d, q, m), KSUM.unfold(z3.Store(e, n, k), n + 1), KEXT.inst(e, z3.Store(e, n, k), n)])
REMOVED = Lemma('key-sum-with-a-key-removed', [AH, AK, AP, I, KEY, AH, AK, AP, I],
                lambda has, e, p, n, k, g, d, q, m: z3.Implies(z3.And(enumerates(has, e, p, n), has[k], g == z3.Store(has, k, False), enumerates(g, d, q, m)), z3.And(n == m + 1, KSUM(d, m) == KSUM(e, n) - LV(k))),
                proof=lambda has, e, p, n, k, g, d, q, m: [ADDED.inst(g, d, q, m, k, has, e, p, n)])


def ksum(c, o):
    n, e, p, h = c.eng.enum_facts(o.headersTableEncoder.dict.has, KEY)
    return KSUM(e, n)


def chain(c, has):
    """how the sum changes with each key put into, or taken out of, the table"""
    out = []
    while z3.is_store(has):
        base, k, v = has.children()
        n, e, p, g = c.eng.enum_facts(has, KEY)
        n0, e0, p0, h0 = c.eng.enum_facts(base, KEY)
        out += [(ADDED if z3.is_true(v) else REMOVED).inst(h0, e0, p0, n0, k, g, e, p, n)]
        has = base
    return out


def names_ok(o):
    k = z3.Const('nk', SEQ)
    return [FA([k], z3.Implies(d.dict.has[k], d.dict.arrs[0][k] >= 0), d.dict.has[k]) for d in (o.headerNamesEncoderRequestTable, o.headerNamesEncoderResponseTable)]


def enc_state(c):
    o = c.p('self')
    return [('accounted size', o.headersTableEncoderSize == ksum(c, o)), ('at most the buffer', o.headersTableEncoderSize <= o.indexedHeadersMaxSize), ('index', wf(o)), ('names', z3.And(names_ok(o)))]


HT = TOpaque('HeaderTuple')
OPAQUE_ATTRS.update({('HeaderTuple', 'name'): (z3.Function('ht_name', HT.sort, SEQ), STR), ('HeaderTuple', 'value'): (z3.Function('ht_value', HT.sort, SEQ), STR)})
SELF2 = lambda e: ENC(STR if e.case == 0 else INT)
dcase = lambda c: (c.v('self').delta_type == DMAX) == (c.eng.case == 1)
WRITERS = [
    Contract(K('writeInteger'), {'self': SELF2, 'currentByte': INT, 'prefixBits': INT, 'integerValue': INT}, modifies=['self.encodedStream'], cases=2, lean=True,
             requires=lambda c: [c.v('integerValue') >= 0, okp(c.v('prefixBits'), c.v('currentByte')), dcase(c)], ensures=lambda c: [],
             loops={0: Loop(inv=lambda c: [c.v('integerValue') >= 0], dec=lambda c: c.v('integerValue'))}),
    Contract(K('writeLiteralString'), {'self': SELF2, 'value': STR}, modifies=['self.encodedStream'], requires=lambda c: [dcase(c)], ensures=lambda c: [], cases=2, lean=True)]
encode = Contract(K('encodeHeaders'), {'self': SELF2, 'headerTuples': TList(HT), 'isRequest': BOOL}, returns=STR, raises=anyx, raises_may=True, cases=2, split=2, lean=True,
                  requires=lambda c: [dcase(c)] + [x if not isinstance(x, tuple) else x[1] for x in enc_state(c)],
                  modifies=['self.headersTableEncoder', 'self.headersTableEncoderSize', 'self.encodedStream', 'self.headerNamesEncoderRequestTable', 'self.headerNamesEncoderResponseTable'],
                  ensures=lambda c: enc_state(c)[:2],
                  loops={0: Loop(inv=lambda c: []), 1: Loop(inv=enc_state, final=lambda c: chain(c, c.p('self').headersTableEncoder.dict.has))})

INIT = lambda t: TObj(F + '::HeaderDiffCodec', {'headersTableEncoder': TBL, 'headersTableEncoderSize': INT, 'indexedHeadersMaxSize': INT, 'delta_type': STR, 'delta_param': t, 'comp': TNone(), 'decomp': TNone(), 'dictionary': TNone(),
                      'windowSize': TNone(), 'headerNamesEncoderRequestTable': NAMES, 'headerNamesEncoderResponseTable': NAMES,
                      'indexedHeadersDecoder': TList(HDR), 'indexedHeadersSizeDecoder': INT, 'headerNamesDecoderRequestTable': TList(STR), 'headerNamesDecoderResponseTable': TList(STR)})


def no_keys(d):
    if d.items is not None:
        return z3.BoolVal(not d.items)
    k = z3.Const('ihk', KEY)
    return FA([k], z3.Not(d.has[k]), d.has[k])


def init_post(c):
    o = c.p('self')
    return [('nothing indexed, encoder', z3.And(o.headersTableEncoderSize == 0, no_keys(o.headersTableEncoder.dict))), ('nothing indexed, decoder', z3.And(o.indexedHeadersSizeDecoder == 0, o.indexedHeadersDecoder.len == 0))]


# without deflate (the zlib objects it makes play no part)
init = Contract(K('initCodec'), {'self': INIT(STR)}, ensures=init_post, modifies=['self.comp', 'self.decomp', 'self.headersTableEncoder', 'self.headersTableEncoderSize', 'self.headerNamesEncoderRequestTable', 'self.headerNamesEncoderResponseTable',
                'self.indexedHeadersDecoder', 'self.indexedHeadersSizeDecoder', 'self.headerNamesDecoderRequestTable', 'self.headerNamesDecoderResponseTable'])
contracts = [init, decode] + READERS + PFX + [determine] + WRITERS + [encode]
LEMMAS = []


def load(P):
    P.add([F], 2)
