"""Spec-level definitions and lemmas.

A RecDef is a mathematical function with one defining equation; contracts use
ground instances of that equation (`unfold`).  Each recursive call in the
equation carries an obligation that a non-negative integer measure decreases,
so the equation has a (unique) model and cannot be contradictory.

A Lemma is proved by the solver from unfoldings, earlier lemmas and induction
hypotheses (instances of itself at a smaller measure); contracts then use its
instances (`inst`).  Proof obligations of both appear among the obligations of
every check that uses them.
"""
import z3
from .types import SEQ

I = z3.IntSort()
B = z3.BoolSort()
AI = z3.ArraySort(I, I)
AR = z3.ArraySort(I, z3.RealSort())
SUMI = z3.Function('sum_int', AI, I, I, I)
SUMR = z3.Function('sum_real', AR, I, I, z3.RealSort())

REG = {}


class Fact:
    """a formula contracts may assume: instance of a definition or of a proved lemma"""
    __slots__ = ('e', 'src')

    def __init__(self, e, src):
        self.e, self.src = e, src


def _conv(a, s):
    if isinstance(a, bool):
        return z3.BoolVal(a)
    if isinstance(a, int):
        return z3.IntVal(a)
    if isinstance(a, (str, bytes)):
        from .symex import zs
        return zs(a)
    return a


def _closed(d, mk, sorts, pat, f, dp):
    vs = [z3.Const('%s_q%d' % (d.name, i), s) for i, s in enumerate(sorts)]
    a = [_conv(x, s) for x, s in zip(mk(*vs), d.sorts)]
    ps = pat(*vs) if pat else dp(a) if dp else None
    ps = [] if ps is None else ps if isinstance(ps, (list, tuple)) else [ps]
    return Fact(FA(vs, f(a), *ps), d)


class RecDef:
    def __init__(self, name, sorts, ret, body, measure=None, calls=None):
        self.name, self.sorts, self.body, self.measure, self.calls = name, list(sorts), body, measure, calls
        self.f = z3.Function(name, *(self.sorts + [ret]))
        REG[name] = self

    def __call__(self, *a):
        return self.f(*[_conv(x, s) for x, s in zip(a, self.sorts)])

    def unfold(self, *a):
        a = [_conv(x, s) for x, s in zip(a, self.sorts)]
        return Fact(self.f(*a) == self.body(*a), self)

    def all(self, mk, sorts, pat=None):
        """the defining equation for all values of some arguments: mk(*vars) -> arguments"""
        return _closed(self, mk, sorts, pat, lambda a: self.f(*a) == self.body(*a), lambda a: self.f(*a))

    def obligations(self):
        """(name, hyps, goal)"""
        if not self.calls:
            return []
        vs = [z3.Const('%s_a%d' % (self.name, i), s) for i, s in enumerate(self.sorts)]
        out = []
        m = self.measure(*vs)
        for k, (g, args) in enumerate(self.calls(*vs)):
            m2 = self.measure(*[_conv(x, s) for x, s in zip(args, self.sorts)])
            out.append(('definition %s: recursive call %d is well-founded' % (self.name, k), [g], z3.And(m2 >= 0, m2 < m)))
        return out


class Lemma:
    """stmt(*vs) -> Bool.  proof(*vs) -> [Fact | formula-from-ih ...]; ih(*vs) -> [(guard, args)]"""

    def __init__(self, name, sorts, stmt, proof=None, ih=None, measure=None, cases=None, deps=(), timeout=20000):
        self.name, self.sorts, self.stmt, self.proof, self.ih, self.measure = name, list(sorts), stmt, proof, ih, measure
        self.cases = cases
        self.timeout = timeout
        REG[name] = self

    def inst(self, *a):
        a = [_conv(x, s) for x, s in zip(a, self.sorts)]
        return Fact(self.stmt(*a), self)

    def all(self, mk, sorts, pat=None):
        """the lemma for all values of some arguments"""
        return _closed(self, mk, sorts, pat, lambda a: self.stmt(*a), None)

    def vars(self):
        return [z3.Const('%s_%d' % (self.name, i), s) for i, s in enumerate(self.sorts)]

    def obligations(self, used=None):
        vs = self.vars()
        hyps, out = [], []
        for f in (self.proof(*vs) if self.proof else []):
            if used is not None:
                used.add(f.src)
            hyps.append(f.e)
        if self.ih:
            m = self.measure(*vs)
            for k, (g, args) in enumerate(self.ih(*vs)):
                args = [_conv(x, s) for x, s in zip(args, self.sorts)]
                m2 = self.measure(*args)
                out.append(('lemma %s: induction %d is well-founded' % (self.name, k), hyps + [g], z3.And(m2 >= 0, m2 < m)))
                hyps = hyps + [z3.Implies(g, self.stmt(*args))]
        st = self.stmt(*vs)
        if self.cases:
            cs = self.cases(*vs)
            for k, c in enumerate(cs):
                out.append(('lemma %s (case %d)' % (self.name, k), hyps + [c], st))
            out.append(('lemma %s (cases exhaustive)' % self.name, hyps, z3.Or(cs)))
        else:
            out.append(('lemma %s' % self.name, hyps, st))
        return out


def closure(used):
    """all definitions and lemmas reachable from the used ones, and their obligations"""
    todo, done, obl = list(used), [], []
    while todo:
        x = todo.pop()
        if x in done or x is None:
            continue
        done.append(x)
        if isinstance(x, Lemma):
            u = set()
            obl += [(n, h, g, x.timeout) for n, h, g in x.obligations(u)]
            todo += list(u)
        elif isinstance(x, RecDef):
            obl += [(n, h, g, 10000) for n, h, g in x.obligations()]
    return done, obl


# ------------------------------------------------------------ common definitions
def L(s):
    return z3.Length(s)


def at(s, i):
    return s[i]


def drop(s, i):
    return z3.SubSeq(s, i, z3.Length(s) - i)


def sub(s, i, n):
    return z3.SubSeq(s, i, n)


def unit(x):
    return z3.Unit(_conv(x, None))


def cc(*xs):
    xs = [x for x in xs]
    return xs[0] if len(xs) == 1 else z3.Concat(*xs)


EMPTY = z3.Empty(SEQ)

# VI(v): base-128 little-endian varint of v >= 0
VI = RecDef('VI', [I], SEQ,
            lambda v: z3.If(z3.Or(v < 128), z3.Unit(v), z3.Concat(z3.Unit(128 + v % 128), VI(v / 128))),
            measure=lambda v: v, calls=lambda v: [(v >= 128, (v / 128,))])

# decoding side: value / end position / well-formedness of the varint at position i of a byte sequence
_more = lambda s, i: [(z3.And(i >= 0, i < L(s), s[i] >= 128), (s, i + 1))]
_m = lambda s, i: z3.If(i < L(s), L(s) - i, z3.IntVal(0))
_stop = lambda s, i: z3.Or(i < 0, i >= L(s), s[i] < 128)
DVAL = RecDef('DVAL', [SEQ, I], I, lambda s, i: z3.If(_stop(s, i), s[i], s[i] - 128 + 128 * DVAL(s, i + 1)), measure=_m, calls=_more)
DEND = RecDef('DEND', [SEQ, I], I, lambda s, i: z3.If(_stop(s, i), i + 1, DEND(s, i + 1)), measure=_m, calls=_more)
DOK = RecDef('DOK', [SEQ, I], B, lambda s, i: z3.And(i >= 0, i < L(s), z3.Or(s[i] < 128, DOK(s, i + 1))), measure=_m, calls=_more)


def DUNF(s, i):
    return [DVAL.unfold(s, i), DEND.unfold(s, i), DOK.unfold(s, i)]


VI_LEN = Lemma('varint-nonempty', [I], lambda v: z3.Implies(v >= 0, L(VI(v)) >= 1), proof=lambda v: [VI.unfold(v)])

# whatever follows, a varint written by VI is read back
VI_RT = Lemma('varint-roundtrip', [I, SEQ, I],
              lambda v, s, i: z3.Implies(z3.And(v >= 0, i >= 0, i + L(VI(v)) <= L(s), sub(s, i, L(VI(v))) == VI(v)),
                                         z3.And(DOK(s, i), DVAL(s, i) == v, DEND(s, i) == i + L(VI(v)), L(VI(v)) >= 1)),
              proof=lambda v, s, i: [VI.unfold(v), VI.unfold(v / 128)] + DUNF(s, i),
              ih=lambda v, s, i: [(v >= 128, (v / 128, s, i + 1))], measure=lambda v, s, i: v)

MULSPLIT = Lemma('mul-split', [I, I], lambda a, p: a * p == (a % 128) * p + (a / 128) * (128 * p))

# powers of two (the engine's meaning of << and >> by a symbolic amount uses the same symbol)
P2 = RecDef('pow2', [I], I, lambda n: z3.If(n <= 0, z3.IntVal(1), 2 * P2(n - 1)), measure=lambda n: n, calls=lambda n: [(n > 0, (n - 1,))])
P2_POS = Lemma('pow2-positive', [I], lambda n: P2(n) >= 1, proof=lambda n: [P2.unfold(n)], ih=lambda n: [(n > 0, (n - 1,))], measure=lambda n: n)
P2_7 = Lemma('pow2-add-7', [I], lambda n: z3.Implies(n >= 0, P2(n + 7) == 128 * P2(n)), proof=lambda n: [P2.unfold(n + k) for k in range(1, 8)])
DISTR = Lemma('distribute-128', [I, I, I, I], lambda p, d, x, y: z3.Implies(d == x + 128 * y, p * d == p * x + 128 * (p * y)),
              proof=lambda p, d, x, y: [], cases=None)


_badk = None


def _patok(p, _depth=0):
    if z3.is_quantifier(p):
        return False
    if z3.is_app(p):
        if p.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_OR, z3.Z3_OP_AND, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE, z3.Z3_OP_LT):
            return False
        return all(_patok(c) for c in p.children())
    return True


def FA(vs, body, *pats):
    """ForAll with the patterns that are usable as patterns"""
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    ps = [p for p in pats if _patok(p) and not z3.is_int_value(p)]
    try:
        return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)
    except z3.Z3Exception:
        return z3.ForAll(vs, body)


# str.split(sep): the engine's meaning of it uses the same symbols (an uninterpreted but fixed function of string and separator)
SEQARR = z3.ArraySort(I, SEQ)
SPLIT_N = z3.Function('split_n', SEQ, SEQ, I)
SPLIT_A = z3.Function('split_a', SEQ, SEQ, SEQARR)
STRIP1 = z3.Function('str_strip_1', SEQ, SEQ, SEQ)
STRIP0 = z3.Function('str_strip_0', SEQ, SEQ)
LOWER0 = z3.Function('str_lower_0', SEQ, SEQ)

# sep.join(a[lo:hi])
JOIN = RecDef('str_join', [SEQ, SEQARR, I, I], SEQ,
              lambda s, a, lo, hi: z3.If(hi <= lo, EMPTY, z3.If(hi == lo + 1, a[lo], z3.Concat(a[lo], s, JOIN(s, a, lo + 1, hi)))),
              measure=lambda s, a, lo, hi: z3.If(hi > lo, hi - lo, z3.IntVal(0)), calls=lambda s, a, lo, hi: [(hi > lo + 1, (s, a, lo + 1, hi))])
JOIN_HAS = Lemma('join-contains-each-item', [SEQ, SEQARR, I, I, I],
                 lambda s, a, lo, hi, j: z3.Implies(z3.And(lo <= j, j < hi), z3.Contains(JOIN(s, a, lo, hi), a[j])),
                 proof=lambda s, a, lo, hi, j: [JOIN.unfold(s, a, lo, hi)],
                 ih=lambda s, a, lo, hi, j: [(z3.And(lo < j, j < hi), (s, a, lo + 1, hi, j))], measure=lambda s, a, lo, hi, j: z3.If(hi > lo, hi - lo, z3.IntVal(0)))
CONT = RecDef('CONTAINS', [SEQ, SEQ], B, lambda s, x: z3.Contains(s, x))
JOIN_HASC = Lemma('join-contains-each-item (opaque)', [SEQ, SEQARR, I, I, I],
                  lambda s, a, lo, hi, j: z3.Implies(z3.And(lo <= j, j < hi), CONT(JOIN(s, a, lo, hi), a[j])),
                  proof=lambda s, a, lo, hi, j: [JOIN_HAS.inst(s, a, lo, hi, j), CONT.unfold(JOIN(s, a, lo, hi), a[j])])

# every character of s is ASCII
ASCII = RecDef('ASCII', [SEQ], B, lambda s: z3.ForAll([z3.Int('asc')], z3.Implies(z3.And(z3.Int('asc') >= 0, z3.Int('asc') < L(s)), z3.And(s[z3.Int('asc')] >= 0, s[z3.Int('asc')] < 128))))

_jm = lambda s, a, lo, hi: z3.If(hi > lo, hi - lo, z3.IntVal(0))
JOIN_SNOC = Lemma('join-append', [SEQARR, I, I], lambda a, lo, hi: z3.Implies(lo <= hi, JOIN(EMPTY, a, lo, hi + 1) == z3.Concat(JOIN(EMPTY, a, lo, hi), a[hi])),
                  proof=lambda a, lo, hi: [JOIN.unfold(EMPTY, a, lo, hi + 1), JOIN.unfold(EMPTY, a, lo, hi), JOIN.unfold(EMPTY, a, lo + 1, hi + 1), JOIN.unfold(EMPTY, a, hi, hi + 1)],
                  ih=lambda a, lo, hi: [(lo < hi, (a, lo + 1, hi))], measure=lambda a, lo, hi: z3.If(hi > lo, hi - lo, z3.IntVal(0)))
JOIN_EXT = Lemma('join-of-equal-lists', [SEQ, SEQARR, SEQARR, I, I],
                 lambda s, a, b, lo, hi: z3.Implies(z3.ForAll([z3.Int('jx')], z3.Implies(z3.And(z3.Int('jx') >= lo, z3.Int('jx') < hi), a[z3.Int('jx')] == b[z3.Int('jx')])), JOIN(s, a, lo, hi) == JOIN(s, b, lo, hi)),
                 proof=lambda s, a, b, lo, hi: [JOIN.unfold(s, a, lo, hi), JOIN.unfold(s, b, lo, hi)],
                 ih=lambda s, a, b, lo, hi: [(lo < hi, (s, a, b, lo + 1, hi))], measure=lambda s, a, b, lo, hi: z3.If(hi > lo, hi - lo, z3.IntVal(0)))


# strings of binary digits (int(s, 2) uses the same symbols): digit k, value of the first m digits
DG = RecDef('DIGIT_AT', [SEQ, I], I, lambda s, k: s[k] - 48)
DIG = RecDef('BINARY_DIGIT_AT', [SEQ, I], B, lambda s, k: z3.Or(DG(s, k) == 0, DG(s, k) == 1))
_bk = z3.Int('bin_k')
ISBIN = RecDef('IS_BINARY', [SEQ], B, lambda s: z3.And(L(s) >= 1, FA([_bk], z3.Implies(z3.And(_bk >= 0, _bk < L(s)), DIG(s, _bk)), DIG(s, _bk))))
BINP = RecDef('BINARY_VALUE', [SEQ, I], I, lambda s, m: z3.If(m <= 0, z3.IntVal(0), 2 * BINP(s, m - 1) + DG(s, m - 1)), measure=lambda s, m: m, calls=lambda s, m: [(m > 0, (s, m - 1))])
