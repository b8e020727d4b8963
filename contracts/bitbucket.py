"""Contracts for the five Python copies of bit_bucket.py.

A bit position p of a byte list is byte p/8, bit 7-p%8.  BY(a, n, i, r) is the
byte made of the 8 bits from bit r of byte i (zeros past the end of the n-byte list).
"""
import z3
from engine.types import *
from engine.symex import Contract, Loop, const_int, mkdiv, mkmod
from engine.speclib import *

COPIES = ['compressor/%s/bit_bucket.py' % d for d in ('delta', 'delta2', 'delta2_bohe', 'delta_bohe', 'bohe')]
IV = z3.IntVal


def pw(k):
    """2**k for 0<=k<=8"""
    r = IV(256)
    for j in range(7, -1, -1):
        r = z3.If(k == j, IV(2 ** j), r)
    return r


def top(x, lb):
    """the lb (1..8) most significant bits of the byte x"""
    k = const_int(lb)
    if k is not None:
        return x / IV(2 ** (8 - k)) if k < 8 else x
    r = x
    for j in range(1, 8):
        r = z3.If(lb == j, x / IV(2 ** (8 - j)), r)
    return r


def cases(r, lo, f):
    """And over r == j -> f(j), collapsed when r is a constant"""
    k = const_int(r)
    if k is not None:
        return f(k) if k >= lo else z3.BoolVal(True)
    return z3.And([z3.Implies(r == j, f(j)) for j in range(lo, 8)])


def BY(a, n, i, r):
    k = const_int(r)
    if k == 0:
        return a[i]
    if k is not None:
        return (a[i] * 2 ** k) % 256 + z3.If(i + 1 < n, a[i + 1], IV(0)) / IV(2 ** (8 - k))
    nx = z3.If(i + 1 < n, a[i + 1], IV(0))
    v = a[i]
    for j in range(1, 8):
        v = z3.If(r == j, (a[i] * 2 ** j) % 256 + nx / IV(2 ** (8 - j)), v)
    return v


def lst(v):
    s = v.sym(INT)
    return s.arrs[0], s.lo, v.len


def rel(v):
    """a list as (0-based array view function, length)"""
    s = v.sym(INT)
    class A:
        def __getitem__(self, i):
            return s.arrs[0][i] if const_int(s.lo) == 0 else s.arrs[0][s.lo + i]
    return A(), v.len


def isbytes(v):
    s = v.sym(INT)
    k = z3.Int('bk')
    return FA([k], z3.Implies(z3.And(k >= s.lo, k < s.hi), z3.And(s.arrs[0][k] >= 0, s.arrs[0][k] < 256)), s.arrs[0][k])


def wf(x):
    n = x.output.len
    a, _ = rel(x.output)
    b = x.out_boff
    return [isbytes(x.output), b >= 0, b < 8, z3.Implies(b > 0, z3.And(n > 0, a[n - 1] >= 0, a[n - 1] < 256)),
            ('tail-zero', z3.And([z3.Implies(b == j, a[n - 1] % 2 ** (8 - j) == 0) for j in range(1, 8)])),
            x.idx_byte >= 0, x.idx_boff >= 0, x.idx_boff < 8]


def nbits(x):
    return z3.If(x.out_boff > 0, 8 * x.output.len - 8 + x.out_boff, 8 * x.output.len)


def rpos(x):
    return 8 * x.idx_byte + x.idx_boff


def ceil8(n):
    return (n + 7) / 8


def sb_stored(c, src_at, nsrc, w, x0, x):
    """x holds x0's bits followed by the first w bits of the byte sequence src"""
    a0, n0 = rel(x0.output)
    a, n = rel(x.output)
    r = c.known(x0.out_boff, range(8))
    base = n0 - z3.If(r > 0, 1, 0)
    k = z3.Int('sbk')
    lb = c.known(z3.If(w % 8 == 0, 8, w % 8), range(1, 9))
    last = nsrc - 1
    p = z3.Int('sbp')
    fin = lambda x: x if const_int(lb) is None or const_int(lb) == 8 else (x / IV(2 ** (8 - const_int(lb)))) * 2 ** (8 - const_int(lb))
    return [('bits', nbits(x) == nbits(x0) + w),
            ('old-bytes', FA(k, z3.Implies(z3.And(k >= 0, k < base), a[k] == a0[k]), a[k])),
            ('old-tail', cases(r, 1, lambda j: a[base] / IV(2 ** (8 - j)) == a0[base] / IV(2 ** (8 - j)))),
            ('new-bytes', FA(p, z3.Implies(z3.And(p >= base, p < base + last), BY(a, n, p, r) == src_at(p - base)), a[p])),
            ('new-tail', z3.Implies(nsrc > 0, top(BY(a, n, base + last, r), lb) == top(src_at(last), lb)))] + wf(x)


def contracts_for(f):
    K = lambda n: '%s::BitBucket.%s' % (f, n)
    BB = TObj(f + '::BitBucket', {'output': TList(INT, True), 'out_byte': INT, 'out_boff': INT, 'idx_byte': INT, 'idx_boff': INT})
    IT = TTuple(TList(INT, True), INT)

    def sb_pre(c):
        l, w = c.v('input_tuple')
        return wf(c.v('self')) + [isbytes(l), w >= 0, l.len == ceil8(w)]

    def sb_post(c):
        l, w = c.o('input_tuple')
        a, n = rel(l)
        return sb_stored(c, lambda k: a[k], n, w, c.o('self'), c.p('self'))

    def sb_inv(c):
        x0, x = c.e('self'), c.v('self')
        a0, n0 = rel(x0.output)
        a, n = rel(x.output)
        l, w = c.ep('input_tuple')
        s, ns = rel(l)
        r = c.known(x0.out_boff, range(8))
        k = z3.Int('sbi')
        i = c.i
        return [x.out_boff == r, n == n0 + i, isbytes(x.output), n0 > 0,
                x.idx_byte == x0.idx_byte, x.idx_boff == x0.idx_boff,
                ('old', FA([k], z3.Implies(z3.And(k >= 0, k < n0 - 1), a[k] == a0[k]), a[k])),
                ('head', cases(r, 1, lambda j: a[n0 - 1] == a0[n0 - 1] + z3.If(i > 0, s[0] / 2 ** j, 0))),
                ('mid', cases(r, 1, lambda j: FA(k, z3.Implies(z3.And(k >= n0, k < n0 + i - 1), a[k] == (s[k - n0] * 2 ** (8 - j)) % 256 + s[k - n0 + 1] / 2 ** j), a[k]))),
                ('last', cases(r, 1, lambda j: z3.Implies(i > 0, a[n0 - 1 + i] == (s[i - 1] * 2 ** (8 - j)) % 256))),
                cases(r, 1, lambda j: a[n - 1] % 2 ** (8 - j) == 0)]

    def sb_exit(c):
        a, n = rel(c.p('self').output)
        return [z3.Implies(n > 0, a[n - 1] >= 0), z3.Implies(n > 0, a[n - 1] < 256), z3.Implies(n > 1, a[n - 2] >= 0), z3.Implies(n > 1, a[n - 2] < 256)]

    boff64 = lambda c: [z3.And(c.v('self').out_boff == j, c.v('input_tuple')[1] % 8 == b) for j in range(8) for b in range(8)]
    boff8 = lambda c: [c.v('self').out_boff == j for j in range(8)]
    cs = [
        Contract(K('StoreBits'), {'self': BB, 'input_tuple': IT}, requires=sb_pre, ensures=sb_post, exit_hints=sb_exit,
                 modifies=['self.output', 'self.out_boff'], cases=boff64, loops={0: Loop(inv=sb_inv)}),
        Contract(K('Clear'), {'self': BB}, modifies=['self'],
                 ensures=lambda c: wf(c.p('self')) + [c.p('self').output.len == 0, c.p('self').out_boff == 0, rpos(c.p('self')) == 0]),
        Contract(K('NumBits'), {'self': BB}, returns=INT, requires=lambda c: wf(c.v('self')), ensures=lambda c: [c.result == nbits(c.o('self')), c.result >= 0]),
        Contract(K('BytesOfStorage'), {'self': BB}, returns=INT, requires=lambda c: wf(c.v('self')),
                 ensures=lambda c: [c.result == ceil8(nbits(c.o('self'))), c.result == c.o('self').output.len]),
        Contract(K('AllConsumed'), {'self': BB}, returns=BOOL, requires=lambda c: wf(c.v('self')),
                 ensures=lambda c: [c.result == (rpos(c.o('self')) >= nbits(c.o('self')))]),
    ]
    low = lambda w: Contract(K('StoreBits%d' % w), {'self': BB, 'val': INT}, cases=boff8, modifies=['self.output', 'self.out_boff'],
                             requires=lambda c: wf(c.v('self')) + [c.v('val') >= 0, c.v('val') < 2 ** w],
                             ensures=lambda c: sb_stored(c, lambda k: bytes_of(c.o('val'), w, k), IV((w + 7) // 8), IV(w), c.o('self'), c.p('self')))
    ws = [w for w in (4, 8, 16, 22, 32) if 'def StoreBits%d(' % w in text(f)]
    cs += [low(w) for w in ws]
    cs += [Contract(K('StoreBit'), {'self': BB, 'bit': INT}, cases=boff8, modifies=['self.output', 'self.out_boff'],
                    requires=lambda c: wf(c.v('self')),
                    ensures=lambda c: sb_stored(c, lambda k: z3.If(c.o('bit') != 0, IV(128), IV(0)), IV(1), IV(1), c.o('self'), c.p('self')))]

    def pos_same(c):
        x0, x = c.o('self'), c.p('self')
        return []
    if 'def PadToByteBoundary(' in text(f):
        cs.append(Contract(K('PadToByteBoundary'), {'self': BB}, requires=lambda c: wf(c.v('self')), modifies=['self.out_boff', 'self.out_byte'],
                           ensures=lambda c: wf(c.p('self')) + [nbits(c.p('self')) == 8 * ceil8(nbits(c.o('self')))]))
    for nm in ('AdvanceReadPtrToByteBoundary', 'AdvanceToByteBoundary'):
        if 'def %s(' % nm in text(f):
            cs.append(Contract(K(nm), {'self': BB}, requires=lambda c: wf(c.v('self')), modifies=['self.idx_byte', 'self.idx_boff'],
                               ensures=lambda c: wf(c.p('self')) + [rpos(c.p('self')) == 8 * ceil8(rpos(c.o('self')))]))

    # ---- reading
    def gb_pre(c):
        x = c.v('self')
        return wf(x) + [c.v('num_bits') >= 0, rpos(x) + c.v('num_bits') <= nbits(x)]

    def gb_post(c):
        x0, x = c.o('self'), c.p('self')
        res, num = c.result
        return gb_read(c, x0, x, res, c.o('num_bits')) + [num == c.o('num_bits')]

    def gb_read(c, x0, x, res, nb):
        a, n = rel(x0.output)
        q, m = rel(res)
        r = c.known(x0.idx_boff, range(8))
        lb = c.known(nb % 8, range(8))
        k = z3.Int('gbk')
        return [('length', m == ceil8(nb)), ('position', rpos(x) == rpos(x0) + nb), x.idx_boff >= 0, x.idx_boff < 8,
                ('bytes', FA(k, z3.Implies(z3.And(k >= 0, k < nb / 8), q[k] == BY(a, n, x0.idx_byte + k, r)), q[k])),
                ('tail', cases(lb, 1, lambda j: q[m - 1] == top(BY(a, n, x0.idx_byte + m - 1, r), IV(j)) * 2 ** (8 - j)))]

    def gb_inv0(c):
        x0, x = c.e('self'), c.v('self')
        a, n = rel(x0.output)
        q, m = rel(c.v('retval'))
        k = z3.Int('gbi')
        nb = c.ep('num_bits')
        return [m >= 0, c.v('bits_left') == nb - 8 * m, c.v('bits_left') >= 0, x.idx_byte == x0.idx_byte + m,
                FA(k, z3.Implies(z3.And(k >= 0, k < m), q[k] == a[x0.idx_byte + k]), q[k])]

    def gb_inv1(c):
        x0, x = c.e('self'), c.v('self')
        a, n = rel(x0.output)
        q, m = rel(c.v('retval'))
        k = z3.Int('gbi')
        nb = c.ep('num_bits')
        r = c.known(x0.idx_boff, range(8))
        lb = c.known(nb % 8, range(8))
        bl, cb, cy = c.v('bits_left'), c.v('cur_boff'), c.v('cur_byte')
        i0 = x0.idx_byte
        return [m >= 0, bl >= 0, cb >= 0, cb < 8, c.v('lob') == n, x.idx_boff >= 0, x.idx_boff < 8,
                bl + 8 * m + cb == nb, rpos(x) == rpos(x0) + 8 * m + cb,
                z3.Implies(cb > 0, z3.And(bl < 8, z3.Or(bl == 0, z3.And(x.idx_boff == 0, cb == 8 - r)))),
                z3.Implies(cb == 0, cy == 0), cy >= 0, cy < 256,
                ('done', FA(k, z3.Implies(z3.And(k >= 0, k < m), q[k] == BY(a, n, i0 + k, r)), q[k])),
                ('cur', cases(cb, 1, lambda j: cy == top(BY(a, n, i0 + m, r), IV(j)) * 2 ** (8 - j)))]

    def gb_hints1(c):
        x0 = c.e('self')
        a, n = rel(x0.output)
        q, m = rel(c.v('retval'))
        i0 = x0.idx_byte
        return [('byte-range', z3.And(a[i0 + m] >= 0, a[i0 + m] < 256) if False else z3.Implies(c.v('bits_left') > 0, z3.And(a[i0 + m] >= 0, a[i0 + m] < 256))),
                ('byte-range2', z3.Implies(i0 + m + 1 < n, z3.And(a[i0 + m + 1] >= 0, a[i0 + m + 1] < 256)))]

    g64 = lambda c: [z3.And(c.v('self').idx_boff == j, c.v('num_bits') % 8 == b) for j in range(8) for b in range(8)]
    cs.append(Contract(K('GetBits'), {'self': BB, 'num_bits': INT}, returns=TTuple(TList(INT), INT), requires=gb_pre, ensures=gb_post,
                       modifies=['self.idx_byte', 'self.idx_boff'], cases=g64,
                       loops={0: Loop(inv=gb_inv0, dec=lambda c: c.v('bits_left')), 1: Loop(inv=gb_inv1, hints=gb_hints1, dec=lambda c: c.v('bits_left'))}))
    r8 = lambda c: [c.v('self').idx_boff == j for j in range(8)]

    def get_post(w):
        def post(c):
            x0, x = c.o('self'), c.p('self')
            a, n = rel(x0.output)
            r = c.known(x0.idx_boff, range(8))
            if w < 8:
                v = top(BY(a, n, x0.idx_byte, r), IV(w))
            else:
                v = z3.IntVal(0)
                for j in range(w // 8):
                    v = v * 256 + BY(a, n, x0.idx_byte + j, r)
            return [('value', c.result == v), ('position', rpos(x) == rpos(x0) + w), x.idx_boff >= 0, x.idx_boff < 8]
        return post
    for nm, w in (('GetBit', 1), ('GetBits4', 4), ('GetBits8', 8), ('GetBits16', 16), ('GetBits32', 32)):
        if 'def %s(' % nm in text(f):
            cs.append(Contract(K(nm), {'self': BB}, returns=INT, modifies=['self.idx_byte', 'self.idx_boff'], cases=r8,
                               requires=(lambda w: lambda c: wf(c.v('self')) + [rpos(c.v('self')) + w <= nbits(c.v('self'))])(w), ensures=get_post(w)))
    return cs


def bytes_of(v, w, k):
    """byte k of the w low bits of v, most significant first, left-aligned"""
    n = (w + 7) // 8
    sh = 8 * n - w
    r = mkmod(v, 2 ** (8 - sh)) * 2 ** sh if sh else mkmod(v, 256)
    for j in range(n - 1):
        r = z3.If(k == j, mkmod(mkdiv(v, 2 ** (8 * (n - 1 - j) - sh)), 256), r)
    return r


_t = {}


def text(f):
    import os
    if f not in _t:
        _t[f] = open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), f)).read()
    return _t[f]


def ag(a, b, N, t):
    """byte t of a and b agree on the bits before position N"""
    return z3.And(z3.Implies(8 * t + 8 <= N, a[t] == b[t]),
                  z3.Implies(z3.And(8 * t < N, N < 8 * t + 8), top(a[t], N % 8) == top(b[t], N % 8)),
                  a[t] >= 0, a[t] < 256, b[t] >= 0, b[t] < 256)


# bits stored before position N stay readable: two buckets that agree on their first N bits (StoreBits' ensures old-bytes, old-tail)
# give GetBits (ensures bytes, tail) the same lb bits at position 8*i+r as long as 8*i+r+lb <= N
_fifo = lambda j, k: Lemma('bitbucket-stored-bits-are-read-back[offset %d, %d bits]' % (j, k), [AI, I, AI, I, I, I],
             lambda a, n, b, m, N, i: z3.Implies(z3.And(i >= 0, N >= 0, N <= 8 * n, N <= 8 * m, 8 * i + j + k <= N,
                                                        ag(a, b, N, i), z3.Implies(8 * i + 8 < N, ag(a, b, N, i + 1)),
                                                        z3.Implies(i + 1 < n, z3.And(a[i + 1] >= 0, a[i + 1] < 256)), z3.Implies(i + 1 < m, z3.And(b[i + 1] >= 0, b[i + 1] < 256))),
                                                 top(BY(a, n, i, IV(j)), IV(k)) == top(BY(b, m, i, IV(j)), IV(k))),
             cases=lambda a, n, b, m, N, i: [N >= 8 * i + 16] + [z3.And(N < 8 * i + 16, N % 8 == q) for q in range(8)])
FIFO = [_fifo(j, k) for j in range(8) for k in range(1, 9)]

contracts = contracts_for(COPIES[int(__import__("os").environ.get("BBC", "1"))])


def load(P):
    for f in COPIES:
        P.add([f, f.replace('bit_bucket', 'common_utils')], 2)
