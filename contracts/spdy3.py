"""Contracts for compressor/spdy3"""
import z3
from engine.types import *
from engine.symex import Contract, Loop, zs, zi, unstore
from engine.speclib import *

F = 'compressor/spdy3/__init__.py'
K = lambda n: '%s::%s' % (F, n)
HD = TDict(STR, STR)
PROC = TObj(K('Processor'), {})
HAS, VAL, ENUM = z3.ArraySort(SEQ, B), z3.ArraySort(SEQ, SEQ), z3.ArraySort(I, SEQ)


def BE4(n):
    return cc(*[unit(n / 2 ** k % 256 if k < 24 else n / 2 ** 24) for k in (24, 16, 8, 0)])


# one header on the wire
PAIR = RecDef('SPDY_PAIR', [SEQ, SEQ], SEQ, lambda k, v: cc(BE4(L(k)), k, BE4(L(v)), v))
# the first n headers, in the order e
BLOCK = RecDef('SPDY_BLOCK', [ENUM, VAL, I], SEQ, lambda e, val, n: z3.If(n <= 0, EMPTY, cc(BLOCK(e, val, n - 1), PAIR(e[n - 1], val[e[n - 1]]))),
               measure=lambda e, val, n: z3.If(n > 0, n, z3.IntVal(0)), calls=lambda e, val, n: [(n > 0, (e, val, n - 1))])


def de4(s, i):
    return s[i] * 2 ** 24 + s[i + 1] * 2 ** 16 + s[i + 2] * 256 + s[i + 3]


# the header starting at any position of a block is read back: its length fields, its name and its value
BE_RT = Lemma('4-byte-length-roundtrip', [I], lambda n: z3.Implies(z3.And(n >= 0, n < 2 ** 32), z3.And(L(BE4(n)) == 4, de4(BE4(n), z3.IntVal(0)) == n)))
PAIR_RT = Lemma('spdy3-header-is-read-back', [SEQ, SEQ, SEQ, I],
                lambda k, v, s, i: z3.Implies(z3.And(i >= 0, L(k) < 2 ** 32, L(v) < 2 ** 32, i + L(PAIR(k, v)) <= L(s), sub(s, i, L(PAIR(k, v))) == PAIR(k, v)),
                                              z3.And(sub(s, i, 4) == BE4(L(k)), sub(s, i + 4, L(k)) == k, sub(s, i + 4 + L(k), 4) == BE4(L(v)),
                                                     sub(s, i + 8 + L(k), L(v)) == v, L(PAIR(k, v)) == 8 + L(k) + L(v))),
                proof=lambda k, v, s, i: [PAIR.unfold(k, v)])
BLOCK_PRE = Lemma('spdy3-headers-stay-in-place', [ENUM, VAL, I, I],
                  lambda e, val, j, n: z3.Implies(z3.And(0 <= j, j < n), z3.And(L(BLOCK(e, val, j)) + L(PAIR(e[j], val[e[j]])) <= L(BLOCK(e, val, n)),
                                                                              sub(BLOCK(e, val, n), L(BLOCK(e, val, j)), L(PAIR(e[j], val[e[j]]))) == PAIR(e[j], val[e[j]]))),
                  proof=lambda e, val, j, n: [BLOCK.unfold(e, val, n), BLOCK.unfold(e, val, j + 1)],
                  ih=lambda e, val, j, n: [(z3.And(j >= 0, j < n - 1), (e, val, j, n - 1))], measure=lambda e, val, j, n: z3.If(n > 0, n, z3.IntVal(0)))


def hv(v):
    return v.dict.has, v.dict.arrs[0]


def pre(c):
    has, val = hv(c.v('request'))
    k = z3.Const('pk', SEQ)
    return [FA([k], z3.Implies(has[k], z3.And(ASCII(k), ASCII(val[k]), L(k) < 2 ** 32, L(val[k]) < 2 ** 32)), has[k])]


def post(c):
    has, val = hv(c.o('request'))
    n, e, pos = c.o('request').order
    return [('block is the length-prefixed pairs in order', c.result == BLOCK(e, val, n))]


def inv(c):
    has, val = hv(c.v('request'))
    n, e, pos = c.v('request').order
    o = c.v('out_frame')
    if z3.is_int_value(o.len) and o.len.as_long() == 0:
        return [BLOCK(e, val, c.i) == EMPTY]
    return [JOIN(EMPTY, o.arr(), o.lo, o.hi) == BLOCK(e, val, c.i)]


def start(c):
    has, val = hv(c.o('request'))
    n, e, pos = c.o('request').order
    return [BLOCK.unfold(e, val, z3.IntVal(0))]


def step(c):
    has, val = hv(c.v('request'))
    n, e, pos = c.v('request').order
    o = c.v('out_frame')
    a, b, lo, hi = o.arr(), unstore(o.arr()), o.lo, o.hi
    return [BLOCK.unfold(e, val, c.i), PAIR.unfold(e[c.i - 1], val[e[c.i - 1]]), JOIN_EXT.inst(EMPTY, b, a, lo, hi - 4)] + [JOIN_SNOC.inst(a, lo, hi - k) for k in (1, 2, 3, 4)]


contracts = [
    Contract(K('Processor.Spdy3HeadersFormat'), {'self': PROC, 'request': HD}, returns=STR, requires=pre, ensures=post, pre_hints=start,
             loops={0: Loop(inv=lambda c: []), 1: Loop(inv=inv, final=step)}),
]
LEMMAS = [BE_RT, PAIR_RT, BLOCK_PRE]


def load(P):
    P.add([F], 3)
