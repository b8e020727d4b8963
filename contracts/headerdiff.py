"""Contracts for compressor/headerdiff/headerDiffCodec.py: integers and literal strings"""
import z3
from engine.types import *
from engine.symex import Contract, Loop, cat, zs, zb
from engine.speclib import *
from contracts.http2 import LIT

F = 'compressor/headerdiff/headerDiffCodec.py'
K = lambda n: '%s::HeaderDiffCodec.%s' % (F, n)
FIELDS = {'encodedStream': STR, 'decodedStream': STR, 'decodedStreamIndex': INT, 'huffman': BOOL}
BYTES = {0: None, 4: (0x20, 0x30, 0x60, 0x70), 5: (0, 0x40), 14: (0xc0,)}


def maxv(p):
    return z3.If(p == 0, 0, z3.If(p == 4, 15, z3.If(p == 5, 31, 16383)))


def okp(p, b):
    return z3.Or([z3.And(p == k, *([z3.Or([b == x for x in bs])] if bs else [b >= 0, b < 256])) for k, bs in sorted(BYTES.items())])


def ENC(b, p, v):
    m = maxv(p)
    one = z3.If(v < m, z3.Unit(b + v), z3.Concat(z3.Unit(b + m), VI(v - m)))
    two = z3.If(v < m, z3.Concat(z3.Unit(b + v / 256), z3.Unit(v % 256)), z3.Concat(z3.Unit(b + 63), z3.Unit(z3.IntVal(255)), VI(v - m)))
    return z3.If(p == 0, VI(v), z3.If(p == 14, two, one))


def wi_inv(c):
    st0, st, v0, v = c.e('self').encodedStream, c.v('self').encodedStream, c.e('integerValue'), c.v('integerValue')
    return [VI.unfold(v), VI.unfold(v / 128), VI.unfold(v0), VI.unfold(0), v >= 0,
            z3.Or(z3.And(v > 0, cat(st, VI(v)) == cat(st0, VI(v0))), z3.And(v == 0, z3.If(v0 == 0, st == st0, st == cat(st0, VI(v0)))))]


def first(s, b, p, i):
    """(prefix value, where the continuation starts) with s[i] following the byte b that carries the prefix"""
    return z3.If(p == 14, (b % 64) * 256 + s[i], b % (maxv(p) + 1)), z3.If(p == 14, i + 1, i)


def ri_pre(c):
    x, p, b = c.v('self'), c.v('prefixBits'), c.v('currentByte')
    s, i = x.decodedStream, x.decodedStreamIndex
    v, j = first(s, b, p, i)
    return [z3.Or([p == k for k in sorted(BYTES)]), b >= 0, b < 256, i >= 0, z3.Implies(p == 14, i < L(s)), z3.Or(v < maxv(p), DOK(s, j))]


def ri_post(c):
    s, i, p, b = c.o('self').decodedStream, c.o('self').decodedStreamIndex, c.o('prefixBits'), c.o('currentByte')
    v, j = first(s, b, p, i)
    m = maxv(p)
    return [('value', c.result == z3.If(v < m, v, m + DVAL(s, j))), ('consumed', c.p('self').decodedStreamIndex == z3.If(v < m, j, DEND(s, j)))]


def ri_inv(c):
    e, x = c.e('self'), c.v('self')
    s, i0, i = e.decodedStream, e.decodedStreamIndex - 1, x.decodedStreamIndex - 1
    f = c.v('f')
    return [DUNF(s, i0), DUNF(s, i), DUNF(s, i + 1), DISTR.inst(f, DVAL(s, i), s[i] - 128, DVAL(s, i + 1)),
            c.v('b') == s[i], c.v('b') >= 0, c.v('b') < 256, f >= 1, i >= 0, DOK(s, i),
            ('value', c.v('value') + f * DVAL(s, i) == c.e('value') + DVAL(s, i0)), DEND(s, i) == DEND(s, i0)]


def rl_pre(c):
    x = c.v('self')
    s, i = x.decodedStream, x.decodedStreamIndex
    return [z3.Not(zb(x.huffman)), i >= 0, DOK(s, i), DEND(s, i) >= 0, DVAL(s, i) >= 0, DEND(s, i) + DVAL(s, i) <= L(s)]


def rl_post(c):
    s, i = c.o('self').decodedStream, c.o('self').decodedStreamIndex
    return [('string', c.result == sub(s, DEND(s, i), DVAL(s, i))), ('consumed', c.p('self').decodedStreamIndex == DEND(s, i) + DVAL(s, i))]


def contracts_for(CODEC):
    return [
        Contract(K('writeInteger'), {'self': CODEC, 'currentByte': INT, 'prefixBits': INT, 'integerValue': INT},
                 requires=lambda c: [c.v('integerValue') >= 0, okp(c.v('prefixBits'), c.v('currentByte'))],
                 ensures=lambda c: [VI.unfold(0), ('the integer is appended', c.p('self').encodedStream == cat(c.o('self').encodedStream, ENC(c.o('currentByte'), c.o('prefixBits'), c.o('integerValue'))))],
                 modifies=['self.encodedStream'], loops={0: Loop(inv=wi_inv, dec=lambda c: c.v('integerValue'))}),
        Contract(K('readNextByte'), {'self': CODEC}, returns=INT,
                 requires=lambda c: [c.v('self').decodedStreamIndex >= 0, c.v('self').decodedStreamIndex < L(c.v('self').decodedStream)],
                 ensures=lambda c: [c.result == c.o('self').decodedStream[c.o('self').decodedStreamIndex], c.p('self').decodedStreamIndex == c.o('self').decodedStreamIndex + 1, c.result >= 0, c.result < 256],
                 modifies=['self.decodedStreamIndex']),
        Contract(K('readInteger'), {'self': CODEC, 'currentByte': INT, 'prefixBits': INT}, returns=INT,
                 requires=ri_pre, ensures=ri_post, modifies=['self.decodedStreamIndex'],
                 pre_hints=lambda c: DUNF(c.v('self').decodedStream, c.v('self').decodedStreamIndex) + DUNF(c.v('self').decodedStream, c.v('self').decodedStreamIndex + 1),
                 loops={0: Loop(inv=ri_inv, dec=lambda c: L(c.v('self').decodedStream) - c.v('self').decodedStreamIndex)}),
        Contract(K('writeLiteralString'), {'self': CODEC, 'value': STR}, requires=lambda c: [z3.Not(zb(c.v('self').huffman))],
                 ensures=lambda c: [('length and bytes', c.p('self').encodedStream == cat(c.o('self').encodedStream, LIT(c.o('value'))))], modifies=['self.encodedStream']),
        Contract(K('readLiteralString'), {'self': CODEC}, returns=STR, requires=rl_pre, ensures=rl_post, modifies=['self.decodedStreamIndex'])]


def int_rt(b, p, v, s, i):
    e, m = ENC(b, p, v), maxv(p)
    w, j = first(s, s[i], p, i + 1)
    return z3.Implies(z3.And(v >= 0, i >= 0, i + L(e) <= L(s), sub(s, i, L(e)) == e, okp(p, b)),
                      z3.If(p == 0, z3.And(DOK(s, i), DVAL(s, i) == v, DEND(s, i) == i + L(e)),
                            z3.And(s[i] >= 0, s[i] < 256, s[i] - s[i] % z3.If(p == 14, 64, m + 1) == b, z3.Implies(p == 14, i + 1 < L(s)),
                                   z3.If(w < m, z3.And(w == v, L(e) == j - i), z3.And(DOK(s, j), m + DVAL(s, j) == v, DEND(s, j) == i + L(e))))))


INT_RT = Lemma('headerdiff-integer-roundtrip', [I, I, I, SEQ, I], int_rt,
               proof=lambda b, p, v, s, i: [VI_RT.inst(v, s, i), VI_RT.inst(v - maxv(p), s, i + 1), VI_RT.inst(v - maxv(p), s, i + 2), VI_LEN.inst(v), VI_LEN.inst(v - maxv(p))],
               cases=lambda b, p, v, s, i: [z3.And(p == 0), z3.And(p == 4), p == 5, p == 14, z3.And(p != 0, p != 5, p != 4, p != 14)])
CODEC = TObj(F + '::HeaderDiffCodec', FIELDS)
contracts = contracts_for(CODEC)


def load(P):
    P.add([F], 2)
