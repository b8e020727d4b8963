"""Contracts for compressor/http2/http2Codec.py"""
import z3
from engine.types import *
from engine.symex import Contract, Loop, cat, zs, POW2
from engine.speclib import *

F = 'compressor/http2/http2Codec.py'
K = lambda n: '%s::HTTP2Codec.%s' % (F, n)

ENTRY = TObj(F + '::HeaderEntry', {'header': TTuple(STR, STR), 'age': INT, 'referenced': BOOL, 'emitted': BOOL})
CODEC = TObj(F + '::HTTP2Codec', {
    'max_encoder_size': INT, 'max_decoder_size': INT, 'is_request': BOOL,
    'encoder_table': TList(ENTRY), 'encoder_table_size': INT,
    'decoder_table': TList(ENTRY), 'decoder_table_size': INT,
    'encoded_stream': STR, 'decoded_stream': STR, 'decoded_stream_index': INT})


def maxv(p):
    return z3.If(p == 0, 0, z3.If(p == 5, 31, z3.If(p == 6, 63, 127)))


def ENCI(b, p, v):
    m = maxv(p)
    return z3.If(p == 0, VI(v), z3.If(v < m, z3.Unit(b + v), z3.Concat(z3.Unit(b + m), VI(v - m))))


def wi_inv(c):
    st0, st, v0, v = c.e('self').encoded_stream, c.v('self').encoded_stream, c.e('value'), c.v('value')
    return [VI.unfold(v), VI.unfold(v / 128), VI.unfold(v0), VI.unfold(0), v >= 0,
            z3.Or(z3.And(v > 0, cat(st, VI(v)) == cat(st0, VI(v0))),
                  z3.And(v == 0, z3.If(v0 == 0, st == st0, st == cat(st0, VI(v0)))))]


def ri_inv(c):
    e, x = c.e('self'), c.v('self')
    s, i0, i = e.decoded_stream, e.decoded_stream_index - 1, x.decoded_stream_index - 1
    p = P2(c.v('shift'))
    return [DUNF(s, i0), DUNF(s, i), DUNF(s, i + 1), P2_POS.inst(c.v('shift')), P2_7.inst(c.v('shift')), P2_7.inst(c.v('shift') - 7), P2.unfold(0),
            DISTR.inst(p, DVAL(s, i), s[i] - 128, DVAL(s, i + 1)),
            c.v('b') == s[i], c.v('b') >= 0, c.v('b') < 256, c.v('shift') >= 0, i >= 0, DOK(s, i),
            ('value', c.v('value') + p * DVAL(s, i) == c.e('value') + DVAL(s, i0)),
            DEND(s, i) == DEND(s, i0)]


def ri_pre(c):
    x = c.v('self')
    m = maxv(c.v('prefix_size'))
    return [z3.Or([c.v('prefix_size') == p for p in (0, 5, 6, 7)]), c.v('byte') >= 0, c.v('byte') < 256, x.decoded_stream_index >= 0,
            z3.Or(c.v('byte') % (m + 1) < m, DOK(x.decoded_stream, x.decoded_stream_index))]


def ri_post(c):
    s, i, m, b = c.o('self').decoded_stream, c.o('self').decoded_stream_index, maxv(c.o('prefix_size')), c.o('byte')
    v = b % (m + 1)
    return [c.result == z3.If(v < m, v, m + DVAL(s, i)), c.p('self').decoded_stream_index == z3.If(v < m, i, DEND(s, i))]


def LIT(s):
    """a literal string on the wire"""
    return cat(VI(L(s)), s)


def rl_pre(c):
    x = c.v('self')
    s, i = x.decoded_stream, x.decoded_stream_index
    return [i >= 0, DOK(s, i), DEND(s, i) >= 0, DVAL(s, i) >= 0, DEND(s, i) + DVAL(s, i) <= L(s)]


def rl_post(c):
    s, i = c.o('self').decoded_stream, c.o('self').decoded_stream_index
    return [c.result == sub(s, DEND(s, i), DVAL(s, i)), c.p('self').decoded_stream_index == DEND(s, i) + DVAL(s, i)]


# what the encoder writes, the decoder's contract reads back, whatever surrounds it
def int_rt(b, p, v, s, i):
    e, m = ENCI(b, p, v), maxv(p)
    lowb = s[i] % (m + 1)
    return z3.Implies(z3.And(v >= 0, i >= 0, i + L(e) <= L(s), sub(s, i, L(e)) == e,
                             z3.Or(z3.And(p == 0, b == 0), z3.And(p == 5, z3.Or(b == 0x40, b == 0x60)), z3.And(p == 6, b == 0), z3.And(p == 7, b == 0x80))),
                      z3.If(p == 0, z3.And(DOK(s, i), DVAL(s, i) == v, DEND(s, i) == i + L(e)),
                            z3.And(s[i] >= 0, s[i] < 256, s[i] - lowb == b,
                                   z3.If(lowb < m, z3.And(lowb == v, L(e) == 1),
                                         z3.And(DOK(s, i + 1), m + DVAL(s, i + 1) == v, DEND(s, i + 1) == i + L(e))))))


INT_RT = Lemma('http2-integer-roundtrip', [I, I, I, SEQ, I], int_rt,
               proof=lambda b, p, v, s, i: [VI_RT.inst(v, s, i), VI_RT.inst(v - maxv(p), s, i + 1), VI_LEN.inst(v), VI_LEN.inst(v - maxv(p))],
               cases=lambda b, p, v, s, i: [p == 0, p == 5, p == 6, p == 7, z3.And(p != 0, p != 5, p != 6, p != 7)])
LIT_RT = Lemma('http2-literal-roundtrip', [SEQ, SEQ, I],
               lambda t, s, i: z3.Implies(z3.And(i >= 0, i + L(LIT(t)) <= L(s), sub(s, i, L(LIT(t))) == LIT(t)),
                                          z3.And(DOK(s, i), DVAL(s, i) == L(t), DEND(s, i) + L(t) == i + L(LIT(t)), sub(s, DEND(s, i), DVAL(s, i)) == t)),
               proof=lambda t, s, i: [VI_RT.inst(L(t), s, i), VI_LEN.inst(L(t))])


def contracts_for(CODEC):
    return [
        Contract(K('write_integer'), {'self': CODEC, 'byte': INT, 'prefix_size': INT, 'value': INT},
                 requires=lambda c: [c.v('value') >= 0, z3.Or([z3.And(c.v('prefix_size') == p, z3.Or([c.v('byte') == b for b in bs])) for p, bs in ((0, [0]), (5, [0x40, 0x60]), (6, [0]), (7, [0x80]))])],
                 ensures=lambda c: [VI.unfold(0), c.p('self').encoded_stream == cat(c.o('self').encoded_stream, ENCI(c.o('byte'), c.o('prefix_size'), c.o('value')))],
                 modifies=['self.encoded_stream'],
                 loops={0: Loop(inv=wi_inv, dec=lambda c: c.v('value'))}),
        Contract(K('read_next_byte'), {'self': CODEC}, returns=INT,
                 requires=lambda c: [c.v('self').decoded_stream_index >= 0, c.v('self').decoded_stream_index < L(c.v('self').decoded_stream)],
                 ensures=lambda c: [c.result == c.o('self').decoded_stream[c.o('self').decoded_stream_index], c.p('self').decoded_stream_index == c.o('self').decoded_stream_index + 1, c.result >= 0, c.result < 256],
                 modifies=['self.decoded_stream_index']),
        Contract(K('read_integer'), {'self': CODEC, 'byte': INT, 'prefix_size': INT}, returns=INT,
                 requires=ri_pre, ensures=ri_post, modifies=['self.decoded_stream_index'],
                 pre_hints=lambda c: DUNF(c.v('self').decoded_stream, c.v('self').decoded_stream_index),
                 loops={0: Loop(inv=ri_inv, dec=lambda c: L(c.v('self').decoded_stream) - c.v('self').decoded_stream_index)}),
        Contract(K('write_literal_string'), {'self': CODEC, 'value': STR},
                 ensures=lambda c: [c.p('self').encoded_stream == cat(c.o('self').encoded_stream, LIT(c.o('value')))],
                 modifies=['self.encoded_stream']),
        Contract(K('read_literal_string'), {'self': CODEC}, returns=STR,
                 requires=rl_pre, ensures=rl_post, modifies=['self.decoded_stream_index']),
    ]


contracts = contracts_for(CODEC)
