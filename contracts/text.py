"""Text vocabulary: lines, split, strip - definitions of Python's string methods and lemmas about them."""
import z3
from engine.types import *
from engine.symex import zs, zi
from engine.speclib import *

WSP = list(range(9, 14)) + list(range(0x1c, 0x21)) + [0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) + [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]
# white space of Python 3's str.strip / str.split
WS = RecDef('IS_SPACE', [I], B, lambda c: z3.Or(z3.And(c >= 9, c <= 13), z3.And(c >= 0x1c, c <= 0x20), c == 0x85, c == 0xa0, c == 0x1680,
                                               z3.And(c >= 0x2000, c <= 0x200a), c == 0x2028, c == 0x2029, c == 0x202f, c == 0x205f, c == 0x3000))
_j = z3.Int('txj')
ln0 = lambda s: z3.If(L(s) > 0, L(s), z3.IntVal(0))

SPLIT3 = Lemma('a-place-in-a-sequence', [SEQ, I], lambda s, k: z3.Implies(z3.And(k >= 0, k < L(s)), s == cc(sub(s, 0, k), z3.Unit(s[k]), drop(s, k + 1))))
CC_INIT = Lemma('concatenation-without-its-last', [SEQ, SEQ], lambda x, y: z3.Implies(L(y) > 0, z3.And(sub(cc(x, y), 0, L(x) + L(y) - 1) == cc(x, sub(y, 0, L(y) - 1)), cc(x, y)[L(x) + L(y) - 1] == y[L(y) - 1])))

CC_PRE = Lemma('item-of-a-prefix', [SEQ, I, I], lambda s, n, j: z3.Implies(z3.And(j >= 0, j < n, n <= L(s)), z3.And(sub(s, 0, n)[j] == s[j], L(sub(s, 0, n)) == n)))
CC_CUT = Lemma('pieces-of-a-concatenation', [SEQ, I, SEQ], lambda x, c, y: z3.And(sub(cc(x, z3.Unit(c), y), 0, L(x)) == x, drop(cc(x, z3.Unit(c), y), L(x) + 1) == y, cc(x, z3.Unit(c), y)[L(x)] == c,
                                                                                L(cc(x, z3.Unit(c), y)) == L(x) + 1 + L(y)))

# no character c in s / s is all white space
NOC = RecDef('LACKS_CHAR', [SEQ, I], B, lambda s, c: z3.Or(L(s) == 0, z3.And(s[0] != c, NOC(drop(s, 1), c))), measure=lambda s, c: L(s), calls=lambda s, c: [(L(s) > 0, (drop(s, 1), c))])
AWS = RecDef('ALL_SPACE', [SEQ], B, lambda s: z3.Or(L(s) == 0, z3.And(WS(s[L(s) - 1]), AWS(sub(s, 0, L(s) - 1)))),
             measure=ln0, calls=lambda s: [(L(s) > 0, (sub(s, 0, L(s) - 1),))])

# first place of c (length if none)
IDX = RecDef('FIND_CHAR', [SEQ, I], I, lambda s, c: z3.If(L(s) == 0, z3.IntVal(0), z3.If(s[0] == c, z3.IntVal(0), 1 + IDX(drop(s, 1), c))),
             measure=lambda s, c: L(s), calls=lambda s, c: [(L(s) > 0, (drop(s, 1), c))])
_tl = dict(ih=lambda s, c: [(L(s) > 0, (drop(s, 1), c))], measure=lambda s, c: L(s))
IDX_IS = Lemma('find-char-finds', [SEQ, I], lambda s, c: z3.And(0 <= IDX(s, c), IDX(s, c) <= L(s), NOC(sub(s, 0, IDX(s, c)), c), z3.Implies(IDX(s, c) < L(s), s[IDX(s, c)] == c)),
               proof=lambda s, c: [IDX.unfold(s, c), NOC.unfold(sub(s, 0, IDX(s, c)), c)], **_tl)
IDX_LE = Lemma('find-char-is-first', [SEQ, I, I], lambda s, c, k: z3.Implies(z3.And(0 <= k, k < L(s), s[k] == c), IDX(s, c) <= k),
               proof=lambda s, c, k: [IDX.unfold(s, c)], ih=lambda s, c, k: [(z3.And(k > 0, L(s) > 0), (drop(s, 1), c, k - 1))], measure=lambda s, c, k: L(s))
IDX_CC = Lemma('find-char-in-pieces', [SEQ, I, SEQ], lambda x, c, y: z3.Implies(NOC(x, c), z3.And(IDX(cc(x, z3.Unit(c), y), c) == L(x), IDX(x, c) == L(x))),
               proof=lambda x, c, y: [IDX.unfold(cc(x, z3.Unit(c), y), c), IDX.unfold(x, c), NOC.unfold(x, c)], ih=lambda x, c, y: [(L(x) > 0, (drop(x, 1), c, y))], measure=lambda x, c, y: L(x))
# str.find as the solver knows it
IO_IS = Lemma('index-of-is-a-place', [SEQ, I], lambda s, c: z3.Implies(z3.Contains(s, z3.Unit(c)), z3.And(z3.IndexOf(s, z3.Unit(c), 0) >= 0, z3.IndexOf(s, z3.Unit(c), 0) < L(s), s[z3.IndexOf(s, z3.Unit(c), 0)] == c)))
HASAT = Lemma('item-is-contained', [SEQ, I], lambda s, k: z3.Implies(z3.And(k >= 0, k < L(s)), z3.Contains(s, z3.Unit(s[k]))), proof=lambda s, k: [SPLIT3.inst(s, k)])
IO_NOT = Lemma('not-before-index-of', [SEQ, I], lambda s, c: z3.Implies(z3.Contains(s, z3.Unit(c)), z3.Not(z3.Contains(sub(s, 0, z3.IndexOf(s, z3.Unit(c), 0)), z3.Unit(c)))))
IO_LE = Lemma('index-of-is-the-first', [SEQ, I, I], lambda s, c, k: z3.Implies(z3.And(k >= 0, k < L(s), s[k] == c), z3.And(z3.Contains(s, z3.Unit(c)), z3.IndexOf(s, z3.Unit(c), 0) <= k)),
              proof=lambda s, c, k: [HASAT.inst(s, k), IO_NOT.inst(s, c), IO_IS.inst(s, c), HASAT.inst(sub(s, 0, z3.IndexOf(s, z3.Unit(c), 0)), k), CC_PRE.inst(s, z3.IndexOf(s, z3.Unit(c), 0), k)])
INDEXOF = Lemma('find-char-is-index-of', [SEQ, I], lambda s, c: z3.And(z3.Contains(s, z3.Unit(c)) == (IDX(s, c) < L(s)), z3.Implies(IDX(s, c) < L(s), z3.IndexOf(s, z3.Unit(c), 0) == IDX(s, c))),
                proof=lambda s, c: [IDX_IS.inst(s, c), IO_IS.inst(s, c), IO_LE.inst(s, c, IDX(s, c)), IDX_LE.inst(s, c, z3.IndexOf(s, z3.Unit(c), 0))])

# up to the first c / after it (nothing if there is none)
LHAS = RecDef('HAS_CHAR', [SEQ, I], B, lambda s, c: IDX(s, c) < L(s))
LINE = RecDef('UP_TO', [SEQ, I], SEQ, lambda s, c: sub(s, 0, IDX(s, c)))
TAIL = RecDef('AFTER', [SEQ, I], SEQ, lambda s, c: z3.If(IDX(s, c) < L(s), drop(s, IDX(s, c) + 1), EMPTY))
LCUT = lambda s, c: [LHAS.unfold(s, c), LINE.unfold(s, c), TAIL.unfold(s, c)]
CUT = Lemma('cut-at-char', [SEQ, I, SEQ, SEQ], lambda x, c, y, s: z3.Implies(z3.And(NOC(x, c), s == cc(x, z3.Unit(c), y)),
                                                                        z3.And(LHAS(s, c), LINE(s, c) == x, TAIL(s, c) == y, IDX(s, c) == L(x))),
            proof=lambda x, c, y, s: LCUT(s, c) + [IDX_CC.inst(x, c, y), CC_CUT.inst(x, c, y)])
NOCUT = Lemma('nothing-to-cut', [SEQ, I], lambda x, c: z3.Implies(NOC(x, c), z3.And(z3.Not(LHAS(x, c)), LINE(x, c) == x, TAIL(x, c) == EMPTY, IDX(x, c) == L(x))),
              proof=lambda x, c: LCUT(x, c) + [IDX_CC.inst(x, c, x)])
CUT_IS = Lemma('what-a-cut-is', [SEQ, I], lambda s, c: z3.And(L(TAIL(s, c)) <= L(s), z3.Implies(L(s) > 0, L(TAIL(s, c)) < L(s)), NOC(LINE(s, c), c),
                                                             z3.Implies(LHAS(s, c), s == cc(LINE(s, c), z3.Unit(c), TAIL(s, c))),
                                                             z3.Implies(z3.Not(LHAS(s, c)), z3.And(LINE(s, c) == s, TAIL(s, c) == EMPTY))),
               proof=lambda s, c: LCUT(s, c) + [IDX_IS.inst(s, c), SPLIT3.inst(s, IDX(s, c))])

# text after i separators
REST = RecDef('AFTER_N', [SEQ, I, I], SEQ, lambda s, c, i: z3.If(i <= 0, s, TAIL(REST(s, c, i - 1), c)),
              measure=lambda s, c, i: z3.If(i > 0, i, z3.IntVal(0)), calls=lambda s, c, i: [(i > 0, (s, c, i - 1))])
# str.split(c), for a separator of one character: number of parts, and each part
PARTS = RecDef('N_PARTS', [SEQ, I], I, lambda s, c: z3.If(z3.And(LHAS(s, c), L(TAIL(s, c)) < L(s)), 1 + PARTS(TAIL(s, c), c), z3.IntVal(1)),
               measure=lambda s, c: L(s), calls=lambda s, c: [(z3.And(LHAS(s, c), L(TAIL(s, c)) < L(s)), (TAIL(s, c), c))])
SPLIT_DEF = RecDef('str.split', [SEQ, I], B, lambda s, c: z3.And(SPLIT_N(s, z3.Unit(c)) == PARTS(s, c), FA([_j], z3.Implies(z3.And(_j >= 0, _j < PARTS(s, c)), SPLIT_A(s, z3.Unit(c))[_j] == LINE(REST(s, c, _j), c)), SPLIT_A(s, z3.Unit(c))[_j])))


def split_is(s, c):
    """what s.split(c) gives: number of parts, and each part"""
    return Fact(SPLIT_DEF.body(s, z3.IntVal(c)), SPLIT_DEF)


PARTS_1 = Lemma('at-least-one-part', [SEQ, I], lambda s, c: PARTS(s, c) >= 1, proof=lambda s, c: [PARTS.unfold(s, c)],
                ih=lambda s, c: [(z3.And(LHAS(s, c), L(TAIL(s, c)) < L(s)), (TAIL(s, c), c))], measure=lambda s, c: L(s))
REST_N = Lemma('parts-of-the-rest', [SEQ, I, I], lambda s, c, i: z3.Implies(z3.And(0 <= i, i < PARTS(s, c)), z3.And(PARTS(REST(s, c, i), c) == PARTS(s, c) - i, LHAS(REST(s, c, i), c) == (i + 1 < PARTS(s, c)))),
               proof=lambda s, c, i: [REST.unfold(s, c, i), PARTS.unfold(REST(s, c, i - 1), c), PARTS.unfold(REST(s, c, i), c), PARTS_1.inst(TAIL(REST(s, c, i), c), c), PARTS_1.inst(REST(s, c, i), c),
                                      CUT_IS.inst(REST(s, c, i), c), CUT_IS.inst(REST(s, c, i - 1), c), LHAS.unfold(REST(s, c, i), c), LHAS.unfold(REST(s, c, i - 1), c)],
               ih=lambda s, c, i: [(i > 0, (s, c, i - 1))], measure=lambda s, c, i: z3.If(i > 0, i, z3.IntVal(0)))

# str.rstrip() / str.strip()
RS = RecDef('RSTRIP', [SEQ], SEQ, lambda s: z3.If(L(s) <= 0, EMPTY, z3.If(WS(s[L(s) - 1]), RS(sub(s, 0, L(s) - 1)), s)),
            measure=ln0, calls=lambda s: [(L(s) > 0, (sub(s, 0, L(s) - 1),))])
STRIP = RecDef('str_strip_0', [SEQ], SEQ, lambda s: z3.If(L(s) <= 0, EMPTY, z3.If(WS(s[0]), STRIP(drop(s, 1)), RS(s))),
               measure=ln0, calls=lambda s: [(L(s) > 0, (drop(s, 1),))])
RS_WS = Lemma('rstrip-of-white-space', [SEQ], lambda y: (AWS(y) == (L(RS(y)) == 0)), proof=lambda y: [RS.unfold(y), AWS.unfold(y)],
              ih=lambda y: [(L(y) > 0, (sub(y, 0, L(y) - 1),))], measure=ln0)
RS_CC = Lemma('rstrip-of-a-concatenation', [SEQ, SEQ], lambda x, y: RS(cc(x, y)) == z3.If(AWS(y), RS(x), cc(x, RS(y))),
              proof=lambda x, y: [RS.unfold(y), AWS.unfold(y), RS.unfold(cc(x, y)), CC_INIT.inst(x, y)],
              ih=lambda x, y: [(L(y) > 0, (x, sub(y, 0, L(y) - 1)))], measure=lambda x, y: ln0(y))


# nothing to strip on either side, and one line
TRIM = RecDef('TRIMMED_LINE', [SEQ], B, lambda s: z3.And(NOC(s, 10), z3.Or(L(s) == 0, z3.And(z3.Not(WS(s[0])), z3.Not(WS(s[L(s) - 1]))))))
SP, CR, NL, COL = zs(' '), zs('\r'), zs('\n'), zs(':')
_ws = lambda *cs: [WS.unfold(z3.IntVal(c)) for c in cs]
STRIP_V = Lemma('strip-of-a-padded-value', [SEQ], lambda v: z3.Implies(TRIM(v), z3.And(STRIP(cc(SP, v, CR)) == v, STRIP(cc(SP, v)) == v, STRIP(cc(v, CR)) == v, STRIP(v) == v, RS(v) == v)),
                proof=lambda v: [TRIM.unfold(v), STRIP.unfold(cc(SP, v, CR)), STRIP.unfold(cc(SP, v)), STRIP.unfold(cc(v, CR)), STRIP.unfold(v), RS.unfold(cc(v, CR)), RS.unfold(v), STRIP.unfold(EMPTY), STRIP.unfold(CR), RS.unfold(EMPTY)] + _ws(32, 13))

# str.split(None, n): white space skipped, then a word
LSTRIP = RecDef('LSTRIP', [SEQ], SEQ, lambda s: z3.If(L(s) <= 0, EMPTY, z3.If(WS(s[0]), LSTRIP(drop(s, 1)), s)), measure=ln0, calls=lambda s: [(L(s) > 0, (drop(s, 1),))])
WLEN = RecDef('WORD_LEN', [SEQ], I, lambda s: z3.If(L(s) <= 0, z3.IntVal(0), z3.If(WS(s[0]), z3.IntVal(0), 1 + WLEN(drop(s, 1)))), measure=ln0, calls=lambda s: [(L(s) > 0, (drop(s, 1),))])
# one word: at least one character, no white space
NOWS = RecDef('NO_SPACE', [SEQ], B, lambda s: z3.Or(L(s) == 0, z3.And(z3.Not(WS(s[0])), s[0] != 10, NOWS(drop(s, 1)))), measure=ln0, calls=lambda s: [(L(s) > 0, (drop(s, 1),))])
WORD_IS = Lemma('word-then-space', [SEQ, SEQ], lambda w, y: z3.Implies(z3.And(NOWS(w), L(y) > 0, WS(y[0])), z3.And(WLEN(cc(w, y)) == L(w), sub(cc(w, y), 0, L(w)) == w, drop(cc(w, y), L(w)) == y)),
                proof=lambda w, y: [NOWS.unfold(w), WLEN.unfold(cc(w, y))], ih=lambda w, y: [(L(w) > 0, (drop(w, 1), y))], measure=lambda w, y: L(w))
WORD_NOC = Lemma('a-word-is-on-one-line', [SEQ], lambda w: z3.Implies(NOWS(w), NOC(w, 10)), proof=lambda w: [NOWS.unfold(w), NOC.unfold(w, 10)], ih=lambda w: [(L(w) > 0, (drop(w, 1),))], measure=ln0)
NOC_CC = Lemma('no-char-in-a-concatenation', [SEQ, SEQ, I], lambda x, y, c: NOC(cc(x, y), c) == z3.And(NOC(x, c), NOC(y, c)),
               proof=lambda x, y, c: [NOC.unfold(x, c), NOC.unfold(cc(x, y), c)], ih=lambda x, y, c: [(L(x) > 0, (drop(x, 1), y, c))], measure=lambda x, y, c: L(x))
