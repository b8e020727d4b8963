"""delta2: integers on the wire.  Everything the codec stores is a whole number of
4-bit nibbles, so a bucket is seen as a sequence of nibbles: NB(a, q) is nibble q of
the byte array a.
"""
import z3
from engine.types import *
from engine.symex import Contract, Loop, zs, zi, zb, mkdiv, mkmod
from engine.speclib import *
from contracts import bitbucket as bb

BF = 'compressor/delta2/bit_bucket.py'
F = 'compressor/delta2/spdy4_codec_impl.py'
B2 = lambda n: '%s::BitBucket.%s' % (BF, n)
base = {c.key: c for c in bb.contracts_for(BF)}
BB = base[B2('StoreBits')].params['self']
IV = z3.IntVal


def NB(a, q):
    return z3.If(q % 2 == 0, a[q / 2] / IV(16), a[q / 2] % IV(16))


def nn(x):
    return 2 * x.output.len - z3.If(x.out_boff == 4, IV(1), IV(0))


def rp(x):
    return 2 * x.idx_byte + z3.If(x.idx_boff == 4, IV(1), IV(0))


def wfn(x):
    return bb.wf(x) + [('whole nibbles', z3.And(z3.Or(x.out_boff == 0, x.out_boff == 4), z3.Or(x.idx_boff == 0, x.idx_boff == 4)))]


def arr(x):
    return x.output.sym(INT).arrs[0]


def kept(x0, x):
    q = z3.Int('nb_q')
    return ('nibbles stored before', FA([q], z3.Implies(z3.And(q >= 0, q < nn(x0)), NB(arr(x), q) == NB(arr(x0), q)), arr(x)[q / 2]))


MODW, MODR = ['self.output', 'self.out_boff'], ['self.idx_byte', 'self.idx_boff']
r2 = lambda c: [c.v('self').out_boff == 0, c.v('self').out_boff == 4]
g2 = lambda c: [c.v('self').idx_boff == 0, c.v('self').idx_boff == 4]


def same_read(x0, x):
    return [x.idx_byte == x0.idx_byte, x.idx_boff == x0.idx_boff]


def exit_store(c):
    x0, x = c.o('self'), c.p('self')
    a, n = bb.rel(x.output)
    a0, n0 = bb.rel(x0.output)
    return [z3.Implies(n0 > 0, z3.And(a0[n0 - 1] >= 0, a0[n0 - 1] < 256))] + [z3.Implies(n > k, z3.And(a[n - 1 - k] >= 0, a[n - 1 - k] < 256)) for k in range(5)]


def store(w):
    k = w // 4

    def post(c):
        x0, x, v = c.o('self'), c.p('self'), c.o('val')
        return wfn(x) + [('length', nn(x) == nn(x0) + k), kept(x0, x)] + [('nibble %d' % t, NB(arr(x), nn(x0) + t) == mkmod(mkdiv(v, 16 ** (k - 1 - t)), 16)) for t in range(k)]
    return Contract(B2('StoreBits%d' % w), {'self': BB, 'val': INT}, modifies=MODW, cases=r2, ensures=post, exit_hints=exit_store,
                    requires=lambda c: wfn(c.v('self')) + [c.v('val') >= 0, c.v('val') < 2 ** w])


def get(w):
    k = w // 4

    def post(c):
        x0, x = c.o('self'), c.p('self')
        v = IV(0)
        for t in range(k):
            v = v * 16 + NB(arr(x0), rp(x0) + t)
        return wfn(x) + [('value', c.result == v), ('position', rp(x) == rp(x0) + k)]
    return Contract(B2('GetBits%d' % w), {'self': BB}, returns=INT, modifies=MODR, cases=g2, ensures=post,
                    requires=lambda c: wfn(c.v('self')) + [rp(c.v('self')) + k <= nn(c.v('self'))],
                    exit_hints=lambda c: [z3.And(arr(c.o('self'))[c.o('self').idx_byte + k] >= 0, arr(c.o('self'))[c.o('self').idx_byte + k] < 256) for k in range(w // 8)]
                    + [z3.Implies(c.o('self').idx_byte + w // 8 < c.o('self').output.len, z3.And(arr(c.o('self'))[c.o('self').idx_byte + w // 8] >= 0, arr(c.o('self'))[c.o('self').idx_byte + w // 8] < 256))])


# ---------------------------------------------------------------- base-8 continuation: how it is written
V3N = RecDef('V3N', [I], I, lambda w: z3.If(w <= 7, IV(1), 1 + V3N(w / 8)), measure=lambda w: w, calls=lambda w: [(w > 7, (w / 8,))])
V3 = RecDef('V3', [I, I], I, lambda w, t: z3.If(t <= 0, z3.If(w <= 7, w, 8 + w % 8), V3(w / 8, t - 1)), measure=lambda w, t: t, calls=lambda w, t: [(t > 0, (w / 8, t - 1))])
# ... and what is read at nibble q of the bytes a, with h nibbles in all
_mq = lambda a, q, h: z3.If(q < h, h - q, IV(0))
_more = lambda a, q, h: [(z3.And(q >= 0, q < h, NB(a, q) >= 8), (a, q + 1, h))]
_stop = lambda a, q, h: z3.Or(q < 0, q >= h, NB(a, q) < 8)
DV = RecDef('NIB_VAL', [AI, I, I], I, lambda a, q, h: z3.If(_stop(a, q, h), NB(a, q), NB(a, q) - 8 + 8 * DV(a, q + 1, h)), measure=_mq, calls=_more)
DE = RecDef('NIB_END', [AI, I, I], I, lambda a, q, h: z3.If(_stop(a, q, h), q + 1, DE(a, q + 1, h)), measure=_mq, calls=_more)
DO = RecDef('NIB_OK', [AI, I, I], B, lambda a, q, h: z3.And(q >= 0, q < h, z3.Or(NB(a, q) < 8, DO(a, q + 1, h))), measure=_mq, calls=_more)
unf = lambda a, q, h: [DV.unfold(a, q, h), DE.unfold(a, q, h), DO.unfold(a, q, h)]
P2_3 = Lemma('pow2-add-3', [I], lambda n: z3.Implies(n >= 0, P2(n + 3) == 8 * P2(n)), proof=lambda n: [P2.unfold(n + k) for k in range(1, 4)])
DIST8 = Lemma('distribute-8', [I, I, I, I], lambda p, d, x, y: z3.Implies(d == x + 8 * y, p * d == p * x + 8 * (p * y)))
V3N_POS = Lemma('nibbles-nonempty', [I], lambda w: z3.Implies(w >= 0, V3N(w) >= 1), proof=lambda w: [V3N.unfold(w)], ih=lambda w: [(w > 7, (w / 8,))], measure=lambda w: w)
_t = z3.Int('v3_t')
WRITTEN = lambda a, q, w: FA([_t], z3.Implies(z3.And(_t >= 0, _t < V3N(w)), NB(a, q + _t) == V3(w, _t)), V3(w, _t))
V3_RT = Lemma('delta2-continuation-roundtrip', [I, AI, I, I],
              lambda w, a, q, h: z3.Implies(z3.And(w >= 0, q >= 0, q + V3N(w) <= h, z3.ForAll([_t], z3.Implies(z3.And(_t >= 0, _t < V3N(w)), NB(a, q + _t) == V3(w, _t)))),
                                            z3.And(DO(a, q, h), DV(a, q, h) == w, DE(a, q, h) == q + V3N(w))),
              proof=lambda w, a, q, h: [V3N.unfold(w), V3N.unfold(w / 8), V3N_POS.inst(w / 8), V3.unfold(w, 0), V3.all(lambda t: (w, t + 1), [I])] + unf(a, q, h),
              ih=lambda w, a, q, h: [(w > 7, (w / 8, a, q + 1, h))], measure=lambda w, a, q, h: w)


def size(v):
    return z3.If(v < 15, IV(1), 1 + V3N(v - 15))


def put(x0, x, v):
    """x is x0 followed by the encoding of v"""
    a, q = arr(x), nn(x0)
    return wfn(x) + [('length', nn(x) == q + size(v)), kept(x0, x), ('one nibble', z3.Implies(v < 15, NB(a, q) == v)),
                     ('escape', z3.Implies(v >= 15, NB(a, q) == 15)), ('continuation', z3.Implies(v >= 15, FA([_t], z3.Implies(z3.And(_t >= 0, _t < V3N(v - 15)), NB(a, q + 1 + _t) == V3(v - 15, _t)), V3(v - 15, _t))))]


def pk_inv(c):
    x0, x = c.o('data'), c.v('data')
    v, w0 = c.v('val'), c.o('val') - 15
    a, q = arr(x), nn(x0) + 1
    k = nn(x) - q
    t = z3.Int('pk_t')
    return wfn(x) + [v >= 0, w0 >= 0, k >= 0, kept(x0, x), NB(a, q - 1) == 15, ('left', k + V3N(v) == V3N(w0)),
                     ('rest', FA([t], z3.Implies(z3.And(t >= 0, t < V3N(v)), V3(v, t) == V3(w0, k + t)), V3(v, t))),
                     ('done', FA([t], z3.Implies(z3.And(t >= 0, t < k), NB(a, q + t) == V3(w0, t)), V3(w0, t)))]


def pk_hints(c):
    v = c.v('val')
    return [V3N.unfold(v), V3.unfold(v, 0), V3.all(lambda t: (v, t + 1), [I], pat=lambda t: [V3(v / 8, t)]), V3N_POS.inst(v / 8)]


def pk_exit(c):
    v = c.v('val')
    return [V3N.unfold(v), V3.unfold(v, 0)]


def up_pre(c):
    x = c.v('inp_stream')
    a, q, h = arr(x), rp(x), nn(x)
    return wfn(x) + [q < h, z3.Or(NB(a, q) < 15, DO(a, q + 1, h))]


def up_post(c):
    x0, x = c.o('inp_stream'), c.p('inp_stream')
    a, q, h = arr(x0), rp(x0), nn(x0)
    return wfn(x) + [('value', c.result == z3.If(NB(a, q) < 15, NB(a, q), 15 + DV(a, q + 1, h))), ('consumed', rp(x) == z3.If(NB(a, q) < 15, q + 1, DE(a, q + 1, h)))]


def up_inv(c):
    x0, x = c.o('inp_stream'), c.v('inp_stream')
    a, h, q0 = arr(x0), nn(x0), rp(x0) + 1
    q = rp(x) - 1
    p = P2(c.v('shift'))
    n = c.v('n')
    return unf(a, q0, h) + unf(a, q, h) + unf(a, q + 1, h) + [P2_POS.inst(c.v('shift')), P2_3.inst(c.v('shift')), P2_3.inst(c.v('shift') - 3), P2.unfold(0),
            DIST8.inst(p, DV(a, q, h), NB(a, q) - 8, DV(a, q + 1, h))] + wfn(x) + [
            n == NB(a, q), n >= 0, n < 16, c.v('shift') >= 0, q >= q0, DO(a, q, h),
            ('value', c.v('val') + p * DV(a, q, h) == 15 + DV(a, q0, h) + p * z3.If(n >= 8, n - 8, n)), DE(a, q, h) == DE(a, q0, h)]


PACK = Contract(F + '::PackVarInt', {'data': BB, 'bitlen': INT, 'val': INT, 'huff': NONE}, modifies=['data.output', 'data.out_boff'],
                requires=lambda c: wfn(c.v('data')) + [c.v('val') >= 0], ensures=lambda c: put(c.o('data'), c.p('data'), c.o('val')), exit_hints=pk_exit,
                loops={0: Loop(inv=pk_inv, hints=pk_hints, dec=lambda c: c.v('val'))})
UNPACK = Contract(F + '::UnpackVarInt', {'inp_stream': BB, 'bitlen': INT, 'huff': NONE}, returns=INT, modifies=['inp_stream.idx_byte', 'inp_stream.idx_boff'],
                  requires=up_pre, ensures=up_post, pre_hints=lambda c: unf(arr(c.v('inp_stream')), rp(c.v('inp_stream')) + 1, nn(c.v('inp_stream'))),
                  loops={0: Loop(inv=up_inv, dec=lambda c: nn(c.o('inp_stream')) - rp(c.v('inp_stream')))})


def rt(v, a, q, h):
    return z3.Implies(z3.And(v >= 0, q >= 0, q + size(v) <= h, z3.Implies(v < 15, NB(a, q) == v),
                             z3.Implies(v >= 15, z3.And(NB(a, q) == 15, z3.ForAll([_t], z3.Implies(z3.And(_t >= 0, _t < V3N(v - 15)), NB(a, q + 1 + _t) == V3(v - 15, _t)))))),
                      z3.If(NB(a, q) < 15, z3.And(NB(a, q) == v, size(v) == 1), z3.And(DO(a, q + 1, h), 15 + DV(a, q + 1, h) == v, DE(a, q + 1, h) == q + size(v))))


VARINT_RT = Lemma('delta2-integer-roundtrip', [I, AI, I, I], rt, proof=lambda v, a, q, h: [V3_RT.inst(v - 15, a, q + 1, h)])



def narrow(con, field, obj, bits):
    """the contract of bit_bucket (proved for every alignment under C01), for whole nibbles"""
    con.cases = lambda c: [z3.And(getattr(c.v('self'), field) == j, bits(c) % 8 == b) for j in (0, 4) for b in (0, 4)]
    r = con.requires
    con.requires = lambda c: r(c) + [z3.Or(getattr(c.v('self'), field) == 0, getattr(c.v('self'), field) == 4), bits(c) % 4 == 0]
    return con


contracts = [narrow(base[B2('StoreBits')], 'out_boff', 'input_tuple', lambda c: c.v('input_tuple')[1]), narrow(base[B2('GetBits')], 'idx_boff', None, lambda c: c.v('num_bits'))] \
    + [store(w) for w in (4, 8, 16)] + [get(w) for w in (4, 8, 16)] + [PACK, UNPACK]


def load(P):
    P.add([BF, 'compressor/delta2/common_utils.py'], 2)
    P.add([F, BF], 2)
