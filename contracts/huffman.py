"""Contracts for EncodeToBB / DecodeFromBB of the huffman.py copies.

The code tree is an opaque node: SYM/INNER (its symbol, none for an inner node) and CHILD(node, bit).
BIT(a, p) is bit p of the bytes a; NODE(t, c, j) is the node reached from t by the first j bits of c.
A table matches a tree when following the code of a symbol meets inner nodes only and ends in the leaf of that symbol."""
import z3
from types import SimpleNamespace as NS
from engine.types import *
from engine.symex import Contract, Loop, zi, OPAQUE_ITEMS, OpaqueVal, OptVal, PyRaise, mkdiv, mkmod, const_int
from engine.speclib import *
from contracts import bitbucket as bb

IV = z3.IntVal
DIRS = ['delta2', 'delta', 'delta2_bohe', 'bohe']       # delta_bohe's EncodeToBB formats the bucket as text: bounded
HF = lambda d: 'compressor/%s/huffman.py' % d
BF = lambda d: 'compressor/%s/bit_bucket.py' % d


def pick(j, f):
    k = const_int(j)
    if k is not None:
        return f(k)
    r = f(7)
    for q in range(6, -1, -1):
        r = z3.If(j == q, f(q), r)
    return r


def bitof(x, b):
    """bit b (0 = most significant) of the byte x"""
    return pick(b, lambda q: (x / IV(2 ** (7 - q))) % 2)


BIT = RecDef('BIT', [AI, I], I, lambda a, p: bitof(a[p / 8], p % 8))
BIT01 = Lemma('bit-is-0-or-1', [AI, I], lambda a, p: z3.Or(BIT(a, p) == 0, BIT(a, p) == 1), proof=lambda a, p: [BIT.unfold(a, p)])
byte = lambda x: z3.And(x >= 0, x < 256)


# ------------------------------------------------- the byte-wise contracts of C01 say this about bits
def _byl(r):
    return Lemma('bits-of-a-byte-at-offset-%d' % r, [AI, I, I, I],
                 lambda a, n, i, b: z3.Implies(z3.And(i >= 0, b >= 0, b < 8, byte(a[i]), z3.Implies(i + 1 < n, byte(a[i + 1])), z3.Implies(b + r >= 8, i + 1 < n)),
                                               bitof(bb.BY(a, n, i, IV(r)), b) == BIT(a, 8 * i + r + b)),
                 proof=lambda a, n, i, b: [BIT.unfold(a, 8 * i + r + b)], cases=lambda a, n, i, b: [b == q for q in range(8)] + [z3.Or(b < 0, b > 7)])


BYL = [_byl(r) for r in range(8)]
TOPL = Lemma('equal-leading-bits', [I, I, I, I], lambda x, y, k, b: z3.Implies(z3.And(byte(x), byte(y), k >= 1, k <= 8, b >= 0, b < k, bb.top(x, k) == bb.top(y, k)), bitof(x, b) == bitof(y, b)),
             cases=lambda x, y, k, b: [z3.And(k == i, b == j) for i in range(1, 9) for j in range(i)] + [z3.Or(k < 1, k > 8, b < 0, b >= k)])


def fake_list(a, n):
    class V:
        len = n

        def sym(self, t):
            return NS(arrs=[a], lo=IV(0), hi=n)
    return V()


def bucket(a, n, off, i=IV(0), o=IV(0)):
    return NS(output=fake_list(a, n), out_boff=off, idx_byte=i, idx_boff=o)


FAKE = NS(known=lambda t, vals: t)


def flat(fs):
    return z3.And([f[1] if isinstance(f, tuple) else f for f in fs])


def sb_hyp(r, a0, n0, s, ns, w, a, n, off):
    x0, x = bucket(a0, n0, IV(r)), bucket(a, n, off)
    return z3.And(flat(bb.wf(x0)), flat(bb.sb_stored(FAKE, lambda k: s[k], ns, w, x0, x)), w >= 0, ns == bb.ceil8(w), n0 >= 0, n >= 0,
                  FA([_k], z3.Implies(z3.And(_k >= 0, _k < ns), byte(s[_k])), s[_k]))


_k = z3.Int('hk')
NB0 = lambda n0, r: z3.If(IV(r) > 0, 8 * n0 - 8 + r, 8 * n0) if not isinstance(r, int) else (8 * n0 - 8 + r if r else 8 * n0)
_ss = [AI, I, AI, I, I, AI, I, I, I]


def _old(r):
    def proof(a0, n0, s, ns, w, a, n, off, p):
        b0, b = a0[p / 8], a[p / 8]
        return [BIT.unfold(a, p), BIT.unfold(a0, p)] + ([TOPL.inst(b, b0, IV(r), p % 8)] if r else [])
    return Lemma('StoreBits-keeps-the-bits-before[offset %d]' % r, _ss,
                 lambda a0, n0, s, ns, w, a, n, off, p: z3.Implies(z3.And(sb_hyp(r, a0, n0, s, ns, w, a, n, off), p >= 0, p < NB0(n0, r)), BIT(a, p) == BIT(a0, p)), proof=proof)


def _new(r):
    base = lambda n0: n0 - (1 if r else 0)

    def proof(a0, n0, s, ns, w, a, n, off, j):
        t, b, i = j / 8, j % 8, base(n0) + j / 8
        return [BIT.unfold(s, j), BYL[r].inst(a, n, i, b), TOPL.inst(bb.BY(a, n, i, IV(r)), s[t], z3.If(w % 8 == 0, 8, w % 8), b)]
    return Lemma('StoreBits-appends-its-bits[offset %d]' % r, _ss,
                 lambda a0, n0, s, ns, w, a, n, off, j: z3.Implies(z3.And(sb_hyp(r, a0, n0, s, ns, w, a, n, off), j >= 0, j < w), BIT(a, NB0(n0, r) + j) == BIT(s, j)), proof=proof,
                 cases=lambda a0, n0, s, ns, w, a, n, off, j: [z3.And(j % 8 == q, j / 8 < ns - 1) for q in range(8)] + [z3.And(j % 8 == q, j / 8 >= ns - 1) for q in range(8)])


def _get(r):
    def hyp(a, n, off, i, q, i2, o2):
        x0, x = bucket(a, n, off, i, IV(r)), bucket(a, n, off, i2, o2)
        return z3.And(flat(bb.wf(x0)), n >= 0, 8 * i + r + 1 <= bb.nbits(x0), flat(gb_read_of(x0, x, fake_list(q, IV(1)))))
    return Lemma('GetBits-returns-the-next-bit[offset %d]' % r, [AI, I, I, I, AI, I, I],
                 lambda a, n, off, i, q, i2, o2: z3.Implies(hyp(a, n, off, i, q, i2, o2), q[0] == 128 * BIT(a, 8 * i + r)),
                 proof=lambda a, n, off, i, q, i2, o2: [BIT.unfold(a, 8 * i + r)])


def gb_read_of(x0, x, res):
    c = NS(known=lambda t, vals: t, o=lambda k: IV(1) if k == 'num_bits' else x0, p=lambda k: x, result=(res, IV(1)))
    return GB[0](c)


GB = [next(c for c in bb.contracts_for(BF('delta2')) if c.key.endswith('.GetBits')).ensures]
OLD, NEW, GET = [_old(r) for r in range(8)], [_new(r) for r in range(8)], [_get(r) for r in range(8)]
LEMMAS = OLD + NEW + GET


# ------------------------------------------------- derived contracts of the bucket, in bits
def arr(x):
    return bb.rel(x.output)[0]


def out(x):
    return x.output.sym(INT).arrs[0]


_q = z3.Int('agree_q')
# the bits before position n are the same; the w-bit code c stands in a at position p
AGREE = RecDef('BITS_AGREE', [AI, AI, I], B, lambda a, b, n: FA([_q], z3.Implies(z3.And(_q >= 0, _q < n), BIT(a, _q) == BIT(b, _q)), BIT(a, _q)))
CODEAT = RecDef('CODE_AT', [AI, I, AI, I], B, lambda c, w, a, p: FA([_q], z3.Implies(z3.And(_q >= 0, _q < w), BIT(a, p + _q) == BIT(c, _q)), BIT(c, _q)))
KEEP = Lemma('a-code-stays', [AI, I, AI, AI, I, I], lambda c, w, a, b, n, p: z3.Implies(z3.And(CODEAT(c, w, b, p), AGREE(a, b, n), p >= 0, p + w <= n), CODEAT(c, w, a, p)),
             proof=lambda c, w, a, b, n, p: [CODEAT.unfold(c, w, a, p), CODEAT.unfold(c, w, b, p), AGREE.unfold(a, b, n)])
ATRANS = Lemma('agreement-is-transitive', [AI, AI, AI, I, I], lambda a, b, c, n, m: z3.Implies(z3.And(AGREE(a, b, n), AGREE(b, c, m), m <= n), AGREE(a, c, m)),
               proof=lambda a, b, c, n, m: [AGREE.unfold(a, b, n), AGREE.unfold(b, c, m), AGREE.unfold(a, c, m)])
AREFL = Lemma('agreement-is-reflexive', [AI, I], lambda a, n: AGREE(a, a, n), proof=lambda a, n: [AGREE.unfold(a, a, n)])
CODEBIT = Lemma('bits-of-a-code', [AI, I, AI, I, I], lambda c, w, a, p, j: z3.Implies(z3.And(CODEAT(c, w, a, p), j >= 0, j < w), BIT(a, p + j) == BIT(c, j)), proof=lambda c, w, a, p, j: [CODEAT.unfold(c, w, a, p)])
DERIVED = 'the contract proved for C01, restated in bits: the restatement is the lemmas StoreBits-*/GetBits-* (proved here from the same formulas); the bytes-level proof is rerun by the check of C01'
_p = z3.Int('bit_p')


def stored(x0, x, src, w):
    return bb.wf(x) + [('bits', bb.nbits(x) == bb.nbits(x0) + w),
                       ('bits before', AGREE(out(x), out(x0), bb.nbits(x0))), ('bits stored', CODEAT(src, w, out(x), bb.nbits(x0)))]


def bucket_contracts(d):
    byname = {c.key.split('.')[-1]: c for c in bb.contracts_for(BF(d))}
    sb, gb = byname['StoreBits'], byname['GetBits']
    sb_ens = lambda c: stored(c.o('self'), c.p('self'), c.o('input_tuple')[0].sym(INT).arrs[0], c.o('input_tuple')[1])

    def gb_ens(c):
        x0, x = c.o('self'), c.p('self')
        res, num = c.result
        q, m = bb.rel(res)
        nb = c.o('num_bits')
        return [m == bb.ceil8(nb), num == nb, ('position', bb.rpos(x) == bb.rpos(x0) + nb), x.idx_boff >= 0, x.idx_boff < 8,
                ('bit', z3.Implies(nb == 1, q[0] == 128 * BIT(out(x0), bb.rpos(x0))))]
    def sb_hints(c):
        a, b, n = out(c.p('self')), out(c.o('self')), bb.nbits(c.o('self'))
        return [KEEP.all(lambda e, w, p: (e, w, a, b, n, p), [AI, I, I], lambda e, w, p: CODEAT(e, w, b, p)), ATRANS.all(lambda e, m: (a, b, e, n, m), [AI, I], lambda e, m: AGREE(b, e, m))]

    return [Contract(sb.key, sb.params, requires=sb.requires, ensures=sb_ens, call_hints=sb_hints, modifies=sb.modifies, verify=False, why_trusted=DERIVED),
            Contract(gb.key, gb.params, returns=gb.returns, requires=gb.requires, ensures=gb_ens, modifies=gb.modifies, verify=False, why_trusted=DERIVED)]


# ------------------------------------------------- the tree
def tree_types(d):
    kid = 3 if d == 'delta2' else 2
    nm = 'HuffNode%d' % kid
    t = TOpaque(nm)
    n = t.sort
    INNER, SYM, CHILD = z3.Function('inner_%d' % kid, n, B), z3.Function('symbol_%d' % kid, n, I), z3.Function('child_%d' % kid, n, I, n)
    kids = TOpaque('Kids%d' % kid)
    KIDS, OF = z3.Function('kids_%d' % kid, n, kids.sort), z3.Function('kids_of_%d' % kid, kids.sort, n)

    def children(eng, o, k):
        eng.assume(OF(KIDS(o.term)) == o.term)
        return OpaqueVal(KIDS(o.term))

    def child(eng, o, k):
        node = OF(o.term)
        if not eng.check(z3.And(INNER(node), zi(k) >= 0, zi(k) < 2)):
            raise PyRaise('IndexError', eng.line)
        return OpaqueVal(CHILD(node, zi(k)))
    def symbol(eng, o, k):
        if eng.entails(z3.Not(INNER(o.term))):
            return SYM(o.term)
        return OptVal(INNER(o.term), INT, [SYM(o.term)])
    OPAQUE_ITEMS[(nm, 1)] = symbol
    OPAQUE_ITEMS[(nm, 'unpack')] = lambda eng, o: tuple((None if eng.check(INNER(o.term)) else SYM(o.term)) if k == 1 else children(eng, o, k) if k == kid else None for k in range(kid + 1))
    OPAQUE_ITEMS[(kids.name, 'bool')] = lambda eng, o: INNER(OF(o.term))
    OPAQUE_ITEMS[(nm, kid)] = children
    OPAQUE_ITEMS[(kids.name, '[]')] = child
    NODE = RecDef('NODE%d' % kid, [n, AI, I], n, lambda t, c, j: z3.If(j <= 0, t, CHILD(NODE(t, c, j - 1), BIT(c, j - 1))), measure=lambda t, c, j: j, calls=lambda t, c, j: [(j > 0, (t, c, j - 1))])
    return NS(t=t, INNER=INNER, SYM=SYM, CHILD=CHILD, NODE=NODE)


TREES = {d: tree_types(d) for d in ('delta2', 'delta')}
TREES['delta2_bohe'] = TREES['bohe'] = TREES['delta']
ENTRY = TTuple(TList(INT, True), INT)
TABLE = TList(ENTRY, True)
AAI = z3.ArraySort(I, AI)

# bits of the first k symbols of a text
POS = RecDef('CODE_POS', [AI, AI, I], I, lambda w, t, k: z3.If(k <= 0, IV(0), POS(w, t, k - 1) + w[t[k - 1]]), measure=lambda w, t, k: k, calls=lambda w, t, k: [(k > 0, (w, t, k - 1))])
_wpos = lambda w, t, n: FA([_k], z3.Implies(z3.And(_k >= 0, _k < n), w[t[_k]] >= 1), t[_k])
POS_MONO = Lemma('code-positions-increase', [AI, AI, I, I], lambda w, t, k, n: z3.Implies(z3.And(k >= 0, k <= n, _wpos(w, t, n)), POS(w, t, n) >= POS(w, t, k) + (n - k)),
                 proof=lambda w, t, k, n: [POS.unfold(w, t, n)], ih=lambda w, t, k, n: [(n > k, (w, t, k, n - 1))], measure=lambda w, t, k, n: z3.If(n > k, n - k, IV(0)))


class Tab:
    def __init__(self, v):
        s = v.sym(ENTRY)
        self.n = v.len
        self.lo, self.hi, self.code, self.w = s.arrs

    def entry(self, s):
        q = z3.Int('tq')
        return z3.And(self.lo[s] == 0, self.hi[s] == bb.ceil8(self.w[s]), self.w[s] >= 1,
                      FA([q], z3.Implies(z3.And(q >= 0, q < self.hi[s]), byte(self.code[s][q])), self.code[s][q]))

    def ok(self):
        s = z3.Int('ts')
        return FA([s], z3.Implies(z3.And(s >= 0, s < self.n), self.entry(s)), self.w[s])


def codes_at(tab, a, p0, t, n):
    """the codes of the first n symbols of t stand in a from bit p0"""
    k = z3.Int('ck')
    return FA([k], z3.Implies(z3.And(k >= 0, k < n), CODEAT(tab.code[t[k]], tab.w[t[k]], a, p0 + POS(tab.w, t, k))), t[k])


def code_at(tab, a, p, s):
    return CODEAT(tab.code[s], tab.w[s], a, p)


def contracts_for(d):
    K = lambda n: '%s::Huffman.%s' % (HF(d), n)
    BB = bucket_contracts(d)[0].params['self']
    T = TREES[d]
    HUFF = TObj(HF(d) + '::Huffman', dict(code_tree=T.t, code_table=TABLE))

    def enc_pre(c):
        tab = Tab(c.v('self').code_table)
        t, n = bb.lst(c.v('text'))[0], c.v('text').len
        k = z3.Int('ek')
        return bb.wf(c.v('bb')) + [tab.ok(), FA([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(t[k] >= 0, t[k] < tab.n)), t[k]), z3.Implies(c.v('include_eof'), tab.n > 256)]

    def enc_state(c, x0, x, tab, t, k):
        return bb.wf(x) + [('bits', bb.nbits(x) == bb.nbits(x0) + POS(tab.w, t, k)),
                           ('bits before', AGREE(out(x), out(x0), bb.nbits(x0))),
                           ('codes', codes_at(tab, out(x), bb.nbits(x0), t, k))]

    def enc_inv(c):
        tab = Tab(c.ep('self').code_table)
        t = bb.lst(c.ep('text'))[0]
        return enc_state(c, c.e('bb'), c.v('bb'), tab, t, c.i) + [c.v('bb').idx_byte == c.e('bb').idx_byte, c.v('bb').idx_boff == c.e('bb').idx_boff]

    def steps(tab, t, n):
        """positions of the codes of the first n symbols"""
        return [POS_MONO.all(lambda k: (tab.w, t, k + 1, n), [I], lambda k: t[k]), POS.all(lambda k: (tab.w, t, k + 1), [I], lambda k: t[k]),
                POS_MONO.all(lambda k: (tab.w, t, 0, k), [I], lambda k: t[k]), POS.unfold(tab.w, t, 0)]

    def enc_hints(c):
        tab = Tab(c.ep('self').code_table)
        t = bb.lst(c.ep('text'))[0]
        x0, x = c.e('bb'), c.v('bb')
        return [POS.unfold(tab.w, t, c.i + 1), POS_MONO.inst(tab.w, t, 0, c.i)] + steps(tab, t, c.i)

    def enc_pre_hints(c):
        tab = Tab(c.v('self').code_table)
        t = bb.lst(c.v('text'))[0]
        x0 = c.v('bb')
        return [POS.unfold(tab.w, t, 0), AREFL.inst(out(x0), bb.nbits(x0))]

    def enc_post(c):
        tab = Tab(c.o('self').code_table)
        t, n = bb.lst(c.o('text'))[0], c.o('text').len
        x0, x = c.o('bb'), c.p('bb')
        eof = c.o('include_eof')
        w = z3.If(eof, tab.w[256], IV(0))
        return bb.wf(x) + [('bits', bb.nbits(x) == bb.nbits(x0) + POS(tab.w, t, n) + w),
                           ('bits before', AGREE(out(x), out(x0), bb.nbits(x0))),
                           ('codes', codes_at(tab, out(x), bb.nbits(x0), t, n)),
                           ('end-of-string code', z3.Implies(eof, code_at(tab, out(x), bb.nbits(x0) + POS(tab.w, t, n), 256))),
                           ('read position', z3.And(x.idx_byte == x0.idx_byte, x.idx_boff == x0.idx_boff))]

    def enc_exit(c):
        tab = Tab(c.o('self').code_table)
        t, n = bb.lst(c.o('text'))[0], c.o('text').len
        x = c.p('bb')
        return steps(tab, t, n)

    cs = bucket_contracts(d)
    cs.append(Contract(K('EncodeToBB'), {'self': HUFF, 'bb': BB, 'text': TList(INT, True), 'include_eof': BOOL}, modifies=['bb.output', 'bb.out_boff'],
                       requires=enc_pre, ensures=enc_post, exit_hints=enc_exit, lean=True, pre_hints=enc_pre_hints, loops={0: Loop(inv=enc_inv, hints=enc_hints)}))

    # ---- reading: a ghost text TX of NX symbols whose codes stand at the read position
    def ghost(c):
        return c.const('TX', AI), c.const('NX', I)

    def matches(tab, root, s):
        j = z3.Int('mj')
        nd = lambda j: T.NODE(root, tab.code[s], j)
        return z3.And(FA([j], z3.Implies(z3.And(j >= 0, j < tab.w[s]), T.INNER(nd(j))), nd(j)), z3.Not(T.INNER(nd(tab.w[s]))), T.SYM(nd(tab.w[s])) == s)

    def dec_pre(c):
        tab, root = Tab(c.v('self').code_table), c.v('self').code_tree
        tx, nx = ghost(c)
        x, eof, bits = c.v('bb'), c.v('includes_eof'), c.v('bits_to_decode')
        a, p0 = out(x), bb.rpos(x)
        k, s = z3.Int('dk'), z3.Int('ds')
        end = POS(tab.w, tx, nx)
        total = end + z3.If(eof, tab.w[256], IV(0))
        return bb.wf(x) + [tab.ok(), nx >= 0, z3.Implies(eof, tab.n > 256),
                           ('a table that matches the tree', FA([s], z3.Implies(z3.And(s >= 0, s < tab.n), matches(tab, root, s)), tab.w[s])),
                           FA([k], z3.Implies(z3.And(k >= 0, k < nx), z3.And(tx[k] >= 0, tx[k] < tab.n, z3.Implies(eof, tx[k] != 256))), tx[k]),
                           codes_at(tab, a, p0, tx, nx), z3.Implies(eof, code_at(tab, a, p0 + end, 256)),
                           z3.Or(eof, bits > 0), z3.Implies(bits > 0, z3.If(eof, bits >= total, bits == total)),
                           p0 + total <= bb.nbits(x), p0 + bits <= bb.nbits(x)]

    def node_now(c, tab, root, tx, nx, k, j):
        s = z3.If(k < nx, tx[k], IV(256))
        return s, T.NODE(root, tab.code[s], j)

    def dec_inv0(c):
        tab = Tab(c.ep('self').code_table)
        tx, nx = ghost(c)
        x0, x = c.e('bb'), c.v('bb')
        q, m = bb.rel(c.v('output'))
        k = z3.Int('ok')
        b0 = c.ep('bits_to_decode')
        return [m >= 0, m <= nx, ('symbols', FA([k], z3.Implies(z3.And(k >= 0, k < m), q[k] == tx[k]), q[k])),
                ('total', c.v('total_bits') == POS(tab.w, tx, m)), ('position', bb.rpos(x) == bb.rpos(x0) + c.v('total_bits')), x.idx_byte >= 0, x.idx_boff >= 0, x.idx_boff < 8,
                c.v('bits_to_decode') == z3.If(b0 > 0, b0, IV(-1))]

    def dec_inv1(c):
        tab, root = Tab(c.ep('self').code_table), c.ep('self').code_tree
        tx, nx = ghost(c)
        x0, x = c.e('bb'), c.v('bb')
        m = c.v('output').len
        j = c.v('total_bits') - POS(tab.w, tx, m)
        s, nd = node_now(c, tab, root, tx, nx, m, j)
        return [('walk', c.v('root') == nd), j >= 0, ('walk-end', j <= tab.w[s]), ('position', bb.rpos(x) == bb.rpos(c.o('bb')) + c.v('total_bits')), x.idx_byte >= 0, x.idx_boff >= 0, x.idx_boff < 8]

    def dec_h0(c):
        tab, root = Tab(c.ep('self').code_table), c.ep('self').code_tree
        tx, nx = ghost(c)
        m = c.v('output').len
        s, nd = node_now(c, tab, root, tx, nx, m, IV(0))
        return [POS_MONO.inst(tab.w, tx, m, nx), POS_MONO.inst(tab.w, tx, m + 1, nx), POS.unfold(tab.w, tx, m + 1), T.NODE.unfold(root, tab.code[s], 0)]

    def dec_h1(c):
        tab, root = Tab(c.ep('self').code_table), c.ep('self').code_tree
        tx, nx = ghost(c)
        m = c.v('output').len
        j = c.v('total_bits') - POS(tab.w, tx, m)
        s, nd = node_now(c, tab, root, tx, nx, m, j)
        a, p0 = out(c.o('bb')), bb.rpos(c.o('bb'))
        return [T.NODE.unfold(root, tab.code[s], j + 1), BIT01.inst(tab.code[s], j), CODEBIT.inst(tab.code[s], tab.w[s], a, p0 + POS(tab.w, tx, m), j)]

    def dec_pre_hints(c):
        tab = Tab(c.v('self').code_table)
        tx, nx = ghost(c)
        return [POS.unfold(tab.w, tx, 0)]

    def dec_post(c):
        tab = Tab(c.o('self').code_table)
        tx, nx = ghost(c)
        x0, x = c.o('bb'), c.p('bb')
        q, m = bb.rel(c.result)
        k = z3.Int('rk')
        bits, eof = c.o('bits_to_decode'), c.o('includes_eof')
        total = POS(tab.w, tx, nx) + z3.If(eof, tab.w[256], IV(0))
        return [('length', m == nx), ('symbols', FA([k], z3.Implies(z3.And(k >= 0, k < m), q[k] == tx[k]), q[k])), ('position', bb.rpos(x) == bb.rpos(x0) + z3.If(bits > 0, bits, total))]

    def dec_exit(c):
        tab = Tab(c.o('self').code_table)
        tx, nx = ghost(c)
        m = bb.rel(c.result)[1]
        return [POS_MONO.inst(tab.w, tx, m, nx)]

    def dec_dec1(c):
        tab = Tab(c.ep('self').code_table)
        tx, nx = ghost(c)
        m = c.v('output').len
        s = z3.If(m < nx, tx[m], IV(256))
        return tab.w[s] - (c.v('total_bits') - POS(tab.w, tx, m))

    cs.append(Contract(K('DecodeFromBB'), {'self': HUFF, 'bb': BB, 'includes_eof': BOOL, 'bits_to_decode': INT}, returns=TList(INT), modifies=['bb.idx_byte', 'bb.idx_boff'],
                       requires=dec_pre, ensures=dec_post, exit_hints=dec_exit, pre_hints=dec_pre_hints, lean=True,
                       loops={0: Loop(inv=dec_inv0, hints=dec_h0, dec=lambda c: ghost(c)[1] - c.v('output').len), 1: Loop(inv=dec_inv1, hints=dec_h1, dec=dec_dec1)}))
    return cs


contracts = [c for d in DIRS for c in contracts_for(d)]


# ------------------------------------------------- a table that matches a tree is prefix-free
def _prefix(d):
    T = TREES[d]
    n = T.t.sort
    j = z3.Int('xj')
    same = Lemma('equal-bits-lead-to-the-same-node[%s]' % d, [n, AI, AI, I], lambda t, a, b, k: z3.Implies(FA([j], z3.Implies(z3.And(j >= 0, j < k), BIT(a, j) == BIT(b, j)), BIT(a, j)), T.NODE(t, a, k) == T.NODE(t, b, k)),
                 proof=lambda t, a, b, k: [T.NODE.unfold(t, a, k), T.NODE.unfold(t, b, k)], ih=lambda t, a, b, k: [(k > 0, (t, a, b, k - 1))], measure=lambda t, a, b, k: z3.If(k > 0, k, IV(0)))
    leaf = lambda t, c, w, s: z3.And(w >= 1, FA([j], z3.Implies(z3.And(j >= 0, j < w), T.INNER(T.NODE(t, c, j))), T.NODE(t, c, j)), z3.Not(T.INNER(T.NODE(t, c, w))), T.SYM(T.NODE(t, c, w)) == s)
    return Lemma('codes-of-a-matching-table-are-prefix-free[%s]' % d, [n, AI, I, I, AI, I, I],
                 lambda t, a, v, r, b, w, s: z3.Implies(z3.And(leaf(t, a, v, r), leaf(t, b, w, s), v <= w, FA([j], z3.Implies(z3.And(j >= 0, j < v), BIT(a, j) == BIT(b, j)), BIT(a, j))), z3.And(r == s, v == w)),
                 proof=lambda t, a, v, r, b, w, s: [same.inst(t, a, b, v)])


ROUND = [_prefix('delta2'), _prefix('delta')]


# ------------------------------------------------- the table of the first-generation copies, built from the tree
TREE_DIRS = ['delta', 'delta2_bohe', 'bohe', 'delta_bohe']
U = lambda x: z3.Unit(_cv(x))
_cv = lambda x: IV(x) if isinstance(x, int) else x
DGSUB = Lemma('digits-of-a-slice', [SEQ, I, I, I], lambda s, i, n, k: z3.Implies(z3.And(i >= 0, n >= 0, i + n <= L(s), k >= 0, k < n), z3.And(DG(sub(s, i, n), k) == DG(s, i + k), DIG(sub(s, i, n), k) == DIG(s, i + k))),
              proof=lambda s, i, n, k: [DG.unfold(sub(s, i, n), k), DG.unfold(s, i + k), DIG.unfold(sub(s, i, n), k), DIG.unfold(s, i + k)])
BINSUB = Lemma('slice-of-binary-digits', [SEQ, I, I], lambda s, i, n: z3.Implies(z3.And(ISBIN(s), i >= 0, n >= 1, i + n <= L(s)), ISBIN(sub(s, i, n))),
               proof=lambda s, i, n: [ISBIN.unfold(s), ISBIN.unfold(sub(s, i, n)), DGSUB.all(lambda k: (s, i, n, k), [I], lambda k: DIG(sub(s, i, n), k))])
DGCAT = Lemma('digits-of-an-extension', [SEQ, I, I], lambda s, x, k: z3.Implies(z3.And(k >= 0, k <= L(s)), DG(cc(s, U(x)), k) == z3.If(k < L(s), DG(s, k), x - 48)), proof=lambda s, x, k: [DG.unfold(s, k), DG.unfold(cc(s, U(x)), k)])
BINCATP = Lemma('value-of-a-prefix', [SEQ, I, I], lambda s, x, m: z3.Implies(m <= L(s), BINP(cc(s, U(x)), m) == BINP(s, m)),
                proof=lambda s, x, m: [BINP.unfold(s, m), BINP.unfold(cc(s, U(x)), m), DGCAT.inst(s, x, m - 1)], ih=lambda s, x, m: [(m > 0, (s, x, m - 1))], measure=lambda s, x, m: m)
BINSNOC = Lemma('value-with-a-0-added', [SEQ], lambda s: z3.Implies(ISBIN(s), z3.And(ISBIN(cc(s, U(48))), BINP(cc(s, U(48)), L(s) + 1) == 2 * BINP(s, L(s)))),
                proof=lambda s: [BINCATP.inst(s, 48, L(s)), BINP.unfold(cc(s, U(48)), L(s) + 1), DGCAT.inst(s, 48, L(s)), ISBIN.unfold(s), ISBIN.unfold(cc(s, U(48))),
                                 DGCAT.all(lambda k: (s, 48, k), [I], lambda k: DIG(cc(s, U(48)), k)), DIG.all(lambda k: (cc(s, U(48)), k), [I]), DIG.all(lambda k: (s, k), [I], lambda k: DIG(cc(s, U(48)), k))])
# byte of the l (1..8) digits of s from i, padded with zeros
VB = lambda s, i, l: BINP(sub(s, i, l), l)


def _bits8(l):
    return Lemma('bits-of-%d-binary-digits' % l, [SEQ], lambda s: z3.Implies(z3.And(L(s) == l, ISBIN(s)), z3.And([z3.And(BINP(s, l) >= 0, BINP(s, l) < 2 ** l)] + [bitof(BINP(s, l) * 2 ** (8 - l), IV(b)) == (DG(s, b) if b < l else 0) for b in range(8)])),
                 proof=lambda s: [BINP.unfold(s, m) for m in range(l + 1)] + [ISBIN.unfold(s)] + [DIG.unfold(s, k) for k in range(l)])


BITS8 = {l: _bits8(l) for l in range(1, 9)}
_wk = z3.Int('brep_k')


def brep_bytes(a, s, w):
    """a holds the digits of s, eight to a byte, the last byte padded"""
    n = bb.ceil8(w)
    return z3.And(FA([_wk], z3.Implies(z3.And(_wk >= 0, _wk < n - 1), a[_wk] == VB(s, 8 * _wk, IV(8))), a[_wk]),
                  z3.And([z3.Implies(w - 8 * (n - 1) == l, a[n - 1] == VB(s, 8 * (n - 1), IV(l)) * 2 ** (8 - l)) for l in range(1, 9)]))


def _brep():
    def stmt(a, s, j):
        w = L(s)
        return z3.Implies(z3.And(brep_bytes(a, s, w), ISBIN(s), j >= 0, j < w), z3.And(byte(a[j / 8]), BIT(a, j) == DG(s, j)))

    def proof(a, s, j):
        i = 8 * (j / 8)
        w = L(s)
        out = [BIT.unfold(a, j)]
        for l in range(1, 9):
            out += [BITS8[l].inst(sub(s, i, IV(l))), BINSUB.inst(s, i, l), DGSUB.inst(s, i, l, j % 8)]
        return out
    return Lemma('packed-digits', [AI, SEQ, I], stmt, proof=proof,
                 cases=lambda a, s, j: [z3.And(j % 8 == q, j / 8 < bb.ceil8(L(s)) - 1) for q in range(8)] + [z3.And(j % 8 == q, j / 8 >= bb.ceil8(L(s)) - 1, L(s) - 8 * (j / 8) == l) for q in range(8) for l in range(q + 1, 9)]
                 + [z3.And(j / 8 >= bb.ceil8(L(s)) - 1, z3.Or(L(s) - 8 * (j / 8) <= j % 8, L(s) - 8 * (j / 8) > 8))])


BREP = _brep()


def brep_contract(d):
    K = lambda n: '%s::Huffman.%s' % (HF(d), n)
    HUFF = TObj(HF(d) + '::Huffman', dict(code_tree=TREES[d].t, code_table=TABLE))

    def inv0(c):
        s = c.ep('binary_string')
        q, m = bb.rel(c.v('output'))
        n = L(s)
        k = z3.Int('b0k')
        return [c.v('bitlen') == n, c.v('index') == 8 * m, m >= 0, c.v('index') <= n, FA([k], z3.Implies(z3.And(k >= 0, k < m), q[k] == VB(s, 8 * k, IV(8))), q[k])]

    def inv1(c):
        s = c.ep('binary_string')
        r0, f = c.e('final'), c.v('final')
        return [ISBIN(f), L(f) == L(r0) + c.i] + [z3.Implies(c.i == t, BINP(f, L(f)) == BINP(r0, L(r0)) * 2 ** t) for t in range(8)]

    def h0(c):
        s = c.ep('binary_string')
        return [BINSUB.inst(s, c.v('index'), 8), BINSUB.inst(s, c.v('index'), L(s) - c.v('index'))]

    def post(c):
        s = c.o('binary_string')
        q, w = c.result
        a, m = bb.rel(q)
        return [('bits', w == L(s)), ('bytes', m == bb.ceil8(w)), ('digits', brep_bytes(a, s, w))]
    return Contract(K('BinaryStringToBREP'), {'self': HUFF, 'binary_string': STR}, returns=TTuple(TList(INT, True), INT), lean=True,
                    requires=lambda c: [ISBIN(c.v('binary_string'))], ensures=post, pre_hints=lambda c: [ISBIN.unfold(c.v('binary_string')), BINSUB.inst(c.v('binary_string'), 0, L(c.v('binary_string')))],
                    loops={0: Loop(inv=inv0, hints=h0, final=h0, dec=lambda c: L(c.ep('binary_string')) - c.v('index')), 1: Loop(inv=inv1, hints=lambda c: [BINSNOC.inst(c.v('final'))])})


for _d in TREE_DIRS:
    TREES.setdefault(_d, TREES['delta'])
contracts += [brep_contract(d) for d in ['delta2', 'delta']]


# ------------------------------------------------- BuildCodeTable of the first-generation copies: breadth first over the tree with the path so far
T1 = TREES['delta']
NS1 = T1.t.sort
WALK = RecDef('WALK', [NS1, SEQ, I], NS1, lambda t, s, m: z3.If(m <= 0, t, T1.CHILD(WALK(t, s, m - 1), DG(s, m - 1))), measure=lambda t, s, m: m, calls=lambda t, s, m: [(m > 0, (t, s, m - 1))])
_ak = z3.Int('at_k')
# the digits of s lead from t over inner nodes to n
AT = RecDef('PATH_TO', [NS1, SEQ, NS1], B, lambda t, s, n: z3.And(n == WALK(t, s, L(s)), FA([_ak], z3.Implies(z3.And(_ak >= 0, _ak < L(s)), z3.And(DIG(s, _ak), T1.INNER(WALK(t, s, _ak)))), DIG(s, _ak), WALK(t, s, _ak))))
WPRE = Lemma('walk-of-a-prefix', [NS1, SEQ, I, I], lambda t, s, x, m: z3.Implies(m <= L(s), WALK(t, cc(s, U(x)), m) == WALK(t, s, m)),
             proof=lambda t, s, x, m: [WALK.unfold(t, s, m), WALK.unfold(t, cc(s, U(x)), m), DGCAT.inst(s, x, m - 1)], ih=lambda t, s, x, m: [(m > 0, (t, s, x, m - 1))], measure=lambda t, s, x, m: m)
AT0 = Lemma('path-to-the-root', [NS1], lambda t: AT(t, EMPTY, t), proof=lambda t: [AT.unfold(t, EMPTY, t), WALK.unfold(t, EMPTY, 0)])
AT1 = Lemma('path-to-a-child', [NS1, SEQ, NS1, I], lambda t, s, n, b: z3.Implies(z3.And(AT(t, s, n), T1.INNER(n), z3.Or(b == 0, b == 1)), AT(t, cc(s, U(48 + b)), T1.CHILD(n, b))),
            proof=lambda t, s, n, b: [AT.unfold(t, s, n), AT.unfold(t, cc(s, U(48 + b)), T1.CHILD(n, b)), WALK.unfold(t, cc(s, U(48 + b)), L(s) + 1), WPRE.all(lambda k: (t, s, 48 + b, k), [I], lambda k: WALK(t, cc(s, U(48 + b)), k)),
                                       DGCAT.inst(s, 48 + b, L(s)), DGCAT.all(lambda k: (s, 48 + b, k), [I], lambda k: DIG(cc(s, U(48 + b)), k)), DIG.all(lambda k: (cc(s, U(48 + b)), k), [I]), DIG.all(lambda k: (s, k), [I], lambda k: DIG(cc(s, U(48 + b)), k)),
                                       DGCAT.all(lambda k: (s, 48 + b, k), [I], lambda k: WALK(t, cc(s, U(48 + b)), k)), DIG.all(lambda k: (cc(s, U(48 + b)), k), [I], lambda k: WALK(t, cc(s, U(48 + b)), k)), DIG.all(lambda k: (s, k), [I], lambda k: WALK(t, cc(s, U(48 + b)), k))])
ATL = Lemma('path-to-a-leaf-is-binary', [NS1, SEQ, NS1], lambda t, s, n: z3.Implies(z3.And(AT(t, s, n), T1.INNER(t), z3.Not(T1.INNER(n))), ISBIN(s)),
            proof=lambda t, s, n: [AT.unfold(t, s, n), WALK.unfold(t, s, 0), ISBIN.unfold(s)])


def leaf_of(t, c, w, s):
    j = z3.Int('mj')
    return z3.And(w >= 1, FA([j], z3.Implies(z3.And(j >= 0, j < w), T1.INNER(T1.NODE(t, c, j))), T1.NODE(t, c, j)), z3.Not(T1.INNER(T1.NODE(t, c, w))), T1.SYM(T1.NODE(t, c, w)) == s)


WNODE = Lemma('walk-by-digits-is-walk-by-bits', [NS1, AI, SEQ, I], lambda t, a, s, m: z3.Implies(z3.And(brep_bytes(a, s, L(s)), ISBIN(s), m <= L(s)), T1.NODE(t, a, m) == WALK(t, s, m)),
              proof=lambda t, a, s, m: [WALK.unfold(t, s, m), T1.NODE.unfold(t, a, m), BREP.inst(a, s, m - 1)], ih=lambda t, a, s, m: [(m > 0, (t, a, s, m - 1))], measure=lambda t, a, s, m: m)
# what MATCHES says of one table entry (opaque: the bytes c, their number n, the width w)
ENTRY_OK = RecDef('ENTRY_MATCHES', [NS1, AI, I, I, I], B, lambda t, c, n, w, s: z3.And(leaf_of(t, c, w, s), n == bb.ceil8(w), FA([_ak], z3.Implies(z3.And(_ak >= 0, _ak < n), byte(c[_ak])), c[_ak])))
ENTRYL = Lemma('packed-path-matches-the-tree', [NS1, AI, SEQ, NS1, I], lambda t, a, s, n, y: z3.Implies(z3.And(AT(t, s, n), T1.INNER(t), z3.Not(T1.INNER(n)), T1.SYM(n) == y, brep_bytes(a, s, L(s))), ENTRY_OK(t, a, bb.ceil8(L(s)), L(s), y)),
               proof=lambda t, a, s, n, y: [AT.unfold(t, s, n), ATL.inst(t, s, n), ISBIN.unfold(s), ENTRY_OK.unfold(t, a, bb.ceil8(L(s)), L(s), y), WNODE.all(lambda m: (t, a, s, m), [I], lambda m: T1.NODE(t, a, m)),
                                            BREP.all(lambda k: (a, s, 8 * k), [I], lambda k: a[k])])
QT, PT = TList(TTuple(T1.t, STR)), TList(TTuple(INT, STR))


def table_contract(d):
    K = lambda n: '%s::Huffman.%s' % (HF(d), n)
    HUFF = TObj(HF(d) + '::Huffman', dict(code_tree=T1.t, code_table=TABLE))

    def cells(v, t):
        s = v.sym(t)
        return s.arrs[0], s.arrs[1], s.lo, s.hi

    # pre_table: (symbol, path) of leaves
    def leaves(c, v):
        root = c.o('code_tree')
        k, n = z3.Int('lk'), z3.Const('ln', NS1)
        sy, pa, lo, hi = cells(v, PT.t)
        return ('leaves', FA([k], z3.Implies(z3.And(k >= lo, k < hi), LEAF(root, pa[k], sy[k])), pa[k], sy[k]))

    def inv0(c):
        root = c.o('code_tree')
        no, pa, lo, hi = cells(c.v('queue'), QT.t)
        k = z3.Int('qk')
        return [('paths', FA([k], z3.Implies(z3.And(k >= lo, k < hi), AT(root, pa[k], no[k])), pa[k], no[k])), leaves(c, c.v('pre_table'))]

    def h0(c):
        root = c.o('code_tree')
        no, pa, lo, hi = cells(c.v('queue'), QT.t)
        return [AT1.inst(root, pa[lo], no[lo], 0), AT1.inst(root, pa[lo], no[lo], 1), LEAFL.inst(root, pa[lo], no[lo])]

    def inv1(c):
        root = c.o('code_tree')
        tab = Tab(c.p('self').code_table)
        k = z3.Int('tk')
        return [leaves(c, c.v('pre_table')), tab.n == c.i, ('entries', FA([k], z3.Implies(z3.And(k >= 0, k < tab.n), z3.And(tab.lo[k] == 0, ENTRY_OK(root, tab.code[k], tab.hi[k], tab.w[k], k))), tab.w[k], tab.code[k]))]

    def h1(c):
        root = c.o('code_tree')
        sy, pa, lo, hi = cells(c.v('pre_table'), PT.t)
        p, y = pa[lo + c.i], sy[lo + c.i]
        return [LEAF.unfold(root, p, y), ATL.inst(root, p, WALK(root, p, L(p))), ENTRYL.all(lambda a: (root, a, p, WALK(root, p, L(p)), y), [AI], lambda a: z3.K(I, IV(0)) if False else ENTRY_OK(root, a, bb.ceil8(L(p)), L(p), y))]

    def post(c):
        root = c.o('code_tree')
        tab = Tab(c.p('self').code_table)
        k = z3.Int('tk')
        return [('entries', FA([k], z3.Implies(z3.And(k >= 0, k < tab.n), z3.And(tab.lo[k] == 0, ENTRY_OK(root, tab.code[k], tab.hi[k], tab.w[k], k))), tab.w[k], tab.code[k]))]

    return Contract(K('BuildCodeTable'), {'self': HUFF, 'code_tree': T1.t}, modifies=['self.code_table'], lean=True,
                    requires=lambda c: [T1.INNER(c.v('code_tree')), c.v('self').code_table.len == 0], raises=lambda c: z3.BoolVal(True), raises_may=True,
                    ensures=post, pre_hints=lambda c: [AT0.inst(c.v('code_tree'))],
                    loops={0: Loop(inv=inv0, hints=h0, types={'queue': QT, 'pre_table': PT}), 1: Loop(inv=inv1, hints=h1, types={'pre_table': PT})})


LEAF = RecDef('LEAF_AT', [NS1, SEQ, I], B, lambda t, s, y: z3.And(AT(t, s, WALK(t, s, L(s))), z3.Not(T1.INNER(WALK(t, s, L(s)))), T1.SYM(WALK(t, s, L(s))) == y))
LEAFL = Lemma('leaf-of-a-path', [NS1, SEQ, NS1], lambda t, s, n: z3.Implies(z3.And(AT(t, s, n), z3.Not(T1.INNER(n))), LEAF(t, s, T1.SYM(n))), proof=lambda t, s, n: [AT.unfold(t, s, n), LEAF.unfold(t, s, T1.SYM(n))])
contracts += [table_contract('delta')]


# what BuildCodeTable guarantees of each entry is what EncodeToBB and DecodeFromBB require of it (Tab.entry and matches, written out)
def _use(t, c, n, w, s):
    q, j = z3.Int('tq'), z3.Int('mj')
    return z3.And(n == bb.ceil8(w), w >= 1, FA([q], z3.Implies(z3.And(q >= 0, q < n), byte(c[q])), c[q]),
                  FA([j], z3.Implies(z3.And(j >= 0, j < w), T1.INNER(T1.NODE(t, c, j))), T1.NODE(t, c, j)), z3.Not(T1.INNER(T1.NODE(t, c, w))), T1.SYM(T1.NODE(t, c, w)) == s)


BUILT = Lemma('a-built-entry-serves-encoding-and-decoding', [NS1, AI, I, I, I], lambda t, c, n, w, s: z3.Implies(ENTRY_OK(t, c, n, w, s), _use(t, c, n, w, s)), proof=lambda t, c, n, w, s: [ENTRY_OK.unfold(t, c, n, w, s)])
ROUND.append(BUILT)
ALL_DIRS = DIRS + [d for d in TREE_DIRS if d not in DIRS]


def all_contracts_for(d):
    """delta_bohe's EncodeToBB asks the bucket for its contents as text (a print statement) and stays bounded"""
    return [c for c in contracts_for(d) if not (d == 'delta_bohe' and c.key.endswith('.EncodeToBB'))] + [brep_contract(d)] + ([table_contract(d)] if d in TREE_DIRS else [])


def load(P):
    for d in ALL_DIRS:
        P.add([BF(d), 'compressor/%s/common_utils.py' % d, HF(d)], 2)

