"""Contracts for lib/streamifiers/*.py: which message goes to which stream, at which place"""
import z3
from engine.types import *
from engine.symex import Contract, Loop, zs, zi, OPAQUE_ITEMS, OPAQUE_METHODS, OBJ_TYPES, OpaqueVal
from engine.speclib import *

FS = ['lib/stream.py', 'lib/streamifiers/__init__.py', 'lib/streamifiers/all_one.py', 'lib/streamifiers/host.py', 'lib/streamifiers/public_suffix.py']
MSG, PSL = TOpaque('Msg'), TOpaque('PublicSuffixList')
MS = MSG.sort
HOST = z3.Function('msg_host', MS, SEQ)
OPAQUE_ITEMS[('Msg', ':host')] = (HOST, STR)
PSUF = z3.Function('public_suffix', PSL.sort, SEQ, SEQ)
OPAQUE_METHODS[('PublicSuffixList', 'get_public_suffix')] = lambda eng, o, args: PSUF(o.term, zs(args[0]))
PAIRS = TList(TTuple(MSG, STR), z=True)
NUMS = lambda t: TDict(STR, TList(t), 'list')
STREAM = TObj('lib/stream.py::Stream', dict(name=STR, messages=PAIRS, msg_type=STR, procs=TList(STR), lname=INT, sizes=NUMS(INT), ratios=NUMS(REAL), times=NUMS(REAL)))
OBJ_TYPES['lib/stream.py::Stream'] = STREAM
MA = z3.ArraySort(I, MS)
_m = lambda *a: z3.If(a[-1] > a[-2], a[-1] - a[-2], z3.IntVal(0))


def hostpart(h):
    """the host name without a port"""
    k = z3.IndexOf(h, zs(':'), 0)
    return z3.If(z3.Contains(h, zs(':')), z3.SubSeq(h, 0, k), h)


class Keyed:
    """definitions for one way of choosing the stream of a request (extra: sorts of further arguments of the key)"""

    def __init__(self, nm, key, extra=()):
        x = list(extra)
        n = len(x)
        self.key, self.nm, self.extra = key, nm, x
        K = self.KEY = RecDef('STREAM_KEY_' + nm, x + [MS], SEQ, key)
        S = x + [MA, SEQ, I, I]
        # how many of the messages lo..i-1 belong to stream k
        C = self.CNT = RecDef('STREAM_COUNT_' + nm, S, I, lambda *a: (lambda e, rq, k, lo, i: z3.If(i <= lo, z3.IntVal(0), C(*e, rq, k, lo, i - 1) + z3.If(K(*e, rq[i - 1]) == k, z3.IntVal(1), z3.IntVal(0))))(a[:n], *a[n:]),
                              measure=_m, calls=lambda *a: [(a[-1] > a[-2], tuple(a[:-1]) + (a[-1] - 1,))])
        # how many streams the messages lo..i-1 need, and the number of the stream k among them (first appearance; -1: none)
        # RD(k) == (count of streams so far, rank of k): two functions defined together over one argument list
        D = self.DIST = RecDef('STREAMS_' + nm, x + [MA, I, I], I, lambda *a: (lambda e, rq, lo, i: z3.If(i <= lo, z3.IntVal(0), D(*e, rq, lo, i - 1) + z3.If(C(*e, rq, K(*e, rq[i - 1]), lo, i - 1) == 0, z3.IntVal(1), z3.IntVal(0))))(a[:n], *a[n:]),
                               measure=_m, calls=lambda *a: [(a[-1] > a[-2], tuple(a[:-1]) + (a[-1] - 1,))])
        R = self.RANK = RecDef('STREAM_RANK_' + nm, S, I, lambda *a: (lambda e, rq, k, lo, i: z3.If(i <= lo, z3.IntVal(-1), z3.If(R(*e, rq, k, lo, i - 1) >= 0, R(*e, rq, k, lo, i - 1), z3.If(K(*e, rq[i - 1]) == k, D(*e, rq, lo, i - 1), z3.IntVal(-1)))))(a[:n], *a[n:]),
                               measure=_m, calls=lambda *a: [(a[-1] > a[-2], tuple(a[:-1]) + (a[-1] - 1,))])
        # the m-th message of stream k
        P = self.POS = RecDef('STREAM_MESSAGE_' + nm, x + [MA, SEQ, I, I, I], I, lambda *a: (lambda e, rq, k, m, lo, i: z3.If(i <= lo, lo, z3.If(z3.And(K(*e, rq[i - 1]) == k, C(*e, rq, k, lo, i - 1) == m), i - 1, P(*e, rq, k, m, lo, i - 1))))(a[:n], *a[n:]),
                              measure=_m, calls=lambda *a: [(a[-1] > a[-2], tuple(a[:-1]) + (a[-1] - 1,))])
        ih = lambda *a: [(a[-1] > a[-2], tuple(a[:-1]) + (a[-1] - 1,))]
        self.BASIC = Lemma('stream-count-and-rank-' + nm, S, lambda *a: z3.And(C(*a) >= 0, (C(*a) > 0) == (R(*a) >= 0), R(*a) >= -1, D(*a[:n], a[n], *a[n + 2:]) >= 0, z3.Implies(R(*a) >= 0, R(*a) < D(*a[:n], a[n], *a[n + 2:]))),
                           proof=lambda *a: [C.unfold(*a), R.unfold(*a), D.unfold(*a[:n], a[n], *a[n + 2:])], ih=ih, measure=_m)
        # the messages of a stream sit at increasing places
        self.MONO = Lemma('stream-places-increase-' + nm, S[:-1] + [I, I], lambda *a: z3.Implies(z3.And(a[-3] <= a[-2], a[-2] < a[-1], K(*a[:n], a[n][a[-2]]) == a[n + 1]), C(*a[:-1]) < C(*(a[:-2] + (a[-1],)))),
                          proof=lambda *a: [C.unfold(*(a[:-2] + (a[-2] + 1,))), self.MONO0.inst(*(a[:-2] + (a[-2] + 1, a[-1])))], measure=lambda *a: z3.IntVal(0))
        self.MONO0 = Lemma('stream-places-do-not-decrease-' + nm, S[:-1] + [I, I], lambda *a: z3.Implies(z3.And(a[-3] <= a[-2], a[-2] <= a[-1]), C(*a[:-1]) <= C(*(a[:-2] + (a[-1],)))),
                           proof=lambda *a: [C.unfold(*(a[:-2] + (a[-1],)))], ih=lambda *a: [(a[-2] < a[-1], a[:-1] + (a[-1] - 1,))], measure=lambda *a: z3.If(a[-1] > a[-2], a[-1] - a[-2], z3.IntVal(0)))
        self.SURJ = Lemma('stream-places-are-filled-' + nm, x + [MA, SEQ, I, I, I], lambda *a: (lambda e, rq, k, m, lo, i: z3.Implies(z3.And(m >= 0, m < C(*e, rq, k, lo, i)), z3.And(lo <= P(*a), P(*a) < i, K(*e, rq[P(*a)]) == k, C(*e, rq, k, lo, P(*a)) == m)))(a[:n], *a[n:]),
                          proof=lambda *a: [P.unfold(*a), C.unfold(*a[:n], a[n], a[n + 1], a[n + 3], a[n + 4])], ih=ih, measure=_m)
        self.LEMMAS = [self.BASIC, self.MONO, self.MONO0, self.SURJ]


def first_inv(c, Q, e, names):
    ms, i = c.o('messages'), c.i
    rq, rs, lo = ms.arr(0), ms.arr(1), ms.lo
    D = NUMS  # noqa
    T = TDict(STR, PAIRS, 'list')
    k, j, m = z3.Const('sk', SEQ), z3.Int('sj'), z3.Int('sm')
    cnt = lambda k, i: Q.CNT(*e, rq, k, lo, i)
    out = []
    for nm, arr in (('reqs', rq), ('ress', rs)):
        d = c.v(nm).dict_of(T)
        ln = d.arrs[1][k] - d.arrs[0][k]
        out.append((nm + ' has the streams seen', FA([k], d.has[k] == (cnt(k, lo + i) > 0), d.has[k])))
        out.append((nm + ' lengths', FA([k], z3.Implies(cnt(k, lo + i) > 0, z3.And(d.arrs[0][k] == 0, d.arrs[1][k] == cnt(k, lo + i))), d.arrs[1][k])))
        kj = Q.KEY(*e, rq[j])
        g = z3.And(lo <= j, j < lo + i)
        p = cnt(kj, j)
        h = (Q.KEY(*e, rq[j]) if Q.nm == 'host' else HOST(rq[j]))
        out.append((nm + ' places', FA([j], z3.Implies(g, z3.And(d.arrs[2][kj][p] == arr[j], d.arrs[3][kj][p] == h)), kj)))
    hs = c.v(names)
    ds = Q.DIST(*e, rq, lo, lo + i)
    out.append(('one name per stream', hs.len == ds))
    if not (z3.is_int_value(hs.len)):
        rank = lambda k: Q.RANK(*e, rq, k, lo, lo + i)
        out.append(('names start', hs.lo == 0))
        out.append(('names by rank', FA([k], z3.Implies(rank(k) >= 0, hs.arr(0)[rank(k)] == k), rank(k))))
        out.append(('ranks of names', FA([m], z3.Implies(z3.And(m >= 0, m < ds), rank(hs.arr(0)[m]) == m), hs.arr(0)[m])))
    return out


def first_types(names):
    return {'reqs': TDict(STR, PAIRS, 'list'), 'ress': TDict(STR, PAIRS, 'list'), names: TList(STR, z=True)}


def first_hints(c, Q, e, i):
    ms = c.o('messages')
    rq, lo = ms.arr(0), ms.lo
    kk = Q.KEY(*e, rq[lo + i - 1])
    j = z3.Int('sj')
    un = lambda D, i: D.all(lambda k: tuple(e) + (rq, k, lo, lo + i), [SEQ])
    return [un(Q.CNT, i), un(Q.RANK, i), Q.DIST.unfold(*e, rq, lo, lo + i), Q.KEY.unfold(*e, rq[lo + i - 1]),
            Q.BASIC.all(lambda k: tuple(e) + (rq, k, lo, lo + i), [SEQ], lambda k: Q.RANK(*e, rq, k, lo, lo + i)),
            Q.BASIC.all(lambda k: tuple(e) + (rq, k, lo, lo + i - 1), [SEQ], lambda k: Q.RANK(*e, rq, k, lo, lo + i - 1)),
            Q.BASIC.inst(*e, rq, kk, lo, lo + i - 1),
            Q.MONO.all(lambda j: tuple(e) + (rq, Q.KEY(*e, rq[j]), lo, j, lo + i - 1), [I], lambda j: Q.KEY(*e, rq[j])),
            Q.BASIC.all(lambda j: tuple(e) + (rq, Q.KEY(*e, rq[j]), lo, j), [I], lambda j: Q.KEY(*e, rq[j])),
            FA([j], z3.Implies(z3.And(lo <= j, j < lo + i - 1, Q.KEY(*e, rq[j]) == kk), Q.CNT(*e, rq, Q.KEY(*e, rq[j]), lo, j) < Q.CNT(*e, rq, kk, lo, lo + i - 1)), Q.KEY(*e, rq[j]))]


def body_hints(c, Q, e):
    ms = c.o('messages')
    rq, lo = ms.arr(0), ms.lo
    return [Q.BASIC.all(lambda k: tuple(e) + (rq, k, lo, lo + c.i), [SEQ], lambda k: Q.RANK(*e, rq, k, lo, lo + c.i)), Q.KEY.unfold(*e, rq[lo + c.i]),
            Q.BASIC.inst(*e, rq, Q.key(*e, rq[lo + c.i]), lo, lo + c.i)]


def base_hints(c, Q, e):
    ms = c.v('messages')
    rq, lo = ms.arr(0), ms.lo
    un = lambda D: D.all(lambda k: tuple(e) + (rq, k, lo, lo), [SEQ])
    return [un(Q.CNT), un(Q.RANK), Q.DIST.unfold(*e, rq, lo, lo)]


def stream_at(c, st, n):
    """field leaves of stream n of a list of streams"""
    a = st.sym(STREAM).arrs
    o = {}
    for f in STREAM.order:
        p, t = STREAM.slot(f)
        o[f] = [x[st.lo + n] for x in a[p:p + len(t.sorts)]]
    return o


def fresh_stream(s, procs):
    """the stream records nothing yet and knows the codecs in order"""
    emp = lambda f: z3.Not(s[f][0][z3.Const('fk', SEQ)])
    j = z3.Int('pj')
    return z3.And([z3.ForAll([z3.Const('fk', SEQ)], emp(f)) for f in ('sizes', 'ratios', 'times')] +
                  [s['procs'][0] == procs.lo, s['procs'][1] == procs.hi, s['procs'][2] == procs.arr(0)])


def two(c, st, n, name, reqs, ress, procs):
    """streams 2n and 2n+1 are the request and the response stream of this name with these messages"""
    a, b = stream_at(c, st, 2 * n), stream_at(c, st, 2 * n + 1)
    return [a['name'][0] == name, b['name'][0] == name, a['msg_type'][0] == zs('req'), b['msg_type'][0] == zs('res')] + \
        [x == y for x, y in zip(a['messages'], reqs)] + [x == y for x, y in zip(b['messages'], ress)] + [fresh_stream(a, procs), fresh_stream(b, procs)]


def second_inv(c, Q, e, names):
    st, hs = c.v('streams'), c.v(names)
    T = TDict(STR, PAIRS, 'list')
    if z3.is_int_value(st.len) and st.len.as_long() == 0:
        return [('two streams per name', st.len == 2 * c.i)]
    rd, sd = c.v('reqs').dict_of(T), c.v('ress').dict_of(T)
    n = z3.Int('tn')
    k = hs.arr(0)[hs.lo + n]
    a = stream_at(c, st, 2 * n)
    g = z3.And(n >= 0, n < c.i)
    out = [('two streams per name', st.len == 2 * c.i), ('starts at zero', st.lo == 0)]
    fs = two(c, st, n, k, [x[k] for x in rd.arrs], [x[k] for x in sd.arrs], c.o('self').procs)
    for j, f in enumerate(fs):
        lhs = [f.arg(0)] if z3.is_eq(f) else [x for s in (stream_at(c, st, 2 * n), stream_at(c, st, 2 * n + 1)) for x in (s['procs'][0], s['sizes'][0])]
        out.append(('stream fields %d' % j, FA([n], z3.Implies(g, f), hs.arr(0)[hs.lo + n], a['name'][0], *lhs)))
    return out


def post(c, Q, e):
    ms, st = c.o('messages'), c.result
    rq, rs, lo, hi = ms.arr(0), ms.arr(1), ms.lo, ms.hi
    procs = c.o('self').procs
    n, j, k = z3.Int('tn'), z3.Int('sj'), z3.Const('sk', SEQ)
    ds = Q.DIST(*e, rq, lo, hi)
    out = [('two streams per key', st.len == 2 * ds)]
    kj = Q.KEY(*e, rq[j])
    r = Q.RANK(*e, rq, kj, lo, hi)
    g = z3.And(lo <= j, j < hi)
    p = Q.CNT(*e, rq, kj, lo, j)
    h = kj if Q.nm == 'host' else HOST(rq[j])
    a, b = stream_at(c, st, 2 * r), stream_at(c, st, 2 * r + 1)
    out.append(('every request is in the request stream of its key, in order', FA([j], z3.Implies(g, z3.And(r >= 0, r < ds, a['name'][0] == kj, a['messages'][2][p] == rq[j], a['messages'][3][p] == h)), kj)))
    out.append(('its response is in the response stream at the same place', FA([j], z3.Implies(g, z3.And(b['name'][0] == kj, b['messages'][2][p] == rs[j], b['messages'][3][p] == h)), kj)))
    a, b = stream_at(c, st, 2 * n), stream_at(c, st, 2 * n + 1)
    nm = a['name'][0]
    g = z3.And(n >= 0, n < ds)
    out.append(('names are distinct keys', FA([n], z3.Implies(g, Q.RANK(*e, rq, nm, lo, hi) == n), nm)))
    out.append(('both directions have the name', FA([n], z3.Implies(g, b['name'][0] == nm), nm)))
    out.append(('directions', FA([n], z3.Implies(g, z3.And(a['msg_type'][0] == zs('req'), b['msg_type'][0] == zs('res'))), nm)))
    for s in (a, b):
        out.append(('nothing else is in a stream', FA([n], z3.Implies(g, z3.And(s['messages'][0] == 0, s['messages'][1] == Q.CNT(*e, rq, nm, lo, hi))))))
        out.append(('streams start empty', FA([n], z3.Implies(g, fresh_stream(s, procs)))))
    return out


def streamifier(mod, Q, e, names, extra={}):
    key = 'lib/streamifiers/%s.py::Streamifier' % mod
    ee = lambda c: e(c)
    return Contract(key + '.streamify', {'self': TObj(key, dict(procs=TList(STR), **extra)), 'messages': TList(TTuple(MSG, MSG))}, returns=TList(STREAM),
                    requires=lambda c: [c.v('self').procs.len > 0], pre_hints=lambda c: base_hints(c, Q, ee(c)), ensures=lambda c: post(c, Q, ee(c)),
                    exit_hints=lambda c: exit_hints(c, Q, ee(c), names),
                    loops={0: Loop(inv=lambda c: first_inv(c, Q, ee(c), names), hints=lambda c: body_hints(c, Q, ee(c)), final=lambda c: first_hints(c, Q, ee(c), c.i), types=first_types(names)),
                           1: Loop(inv=lambda c: second_inv(c, Q, ee(c), names), types={'streams': TList(STREAM, z=True)},
                                   hints=lambda c: second_hints(c, Q, ee(c), names))})


def second_hints(c, Q, e, names):
    ms, hs = c.o('messages'), c.v(names)
    k = hs.arr(0)[hs.lo + c.i]
    return [Q.BASIC.inst(*e, ms.arr(0), k, ms.lo, ms.hi)]


def exit_hints(c, Q, e, names):
    ms, st, hs = c.o('messages'), c.result, c.v(names)
    rq, lo, hi = ms.arr(0), ms.lo, ms.hi
    T = TDict(STR, PAIRS, 'list')
    out = [Q.BASIC.all(lambda k: tuple(e) + (rq, k, lo, hi), [SEQ], lambda k: Q.RANK(*e, rq, k, lo, hi)),
           Q.BASIC.all(lambda j: tuple(e) + (rq, Q.KEY(*e, rq[j]), lo, j), [I], lambda j: Q.KEY(*e, rq[j])),
           Q.MONO.all(lambda j: tuple(e) + (rq, Q.KEY(*e, rq[j]), lo, j, hi), [I], lambda j: Q.KEY(*e, rq[j]))]
    if z3.is_int_value(st.len) or z3.is_int_value(hs.len):
        return out
    n, j = z3.Int('tn'), z3.Int('sj')
    ds = Q.DIST(*e, rq, lo, hi)
    a, b = stream_at(c, st, 2 * n), stream_at(c, st, 2 * n + 1)
    k = hs.arr(0)[n]
    rd, sd = c.v('reqs').dict_of(T), c.v('ress').dict_of(T)
    g = z3.And(n >= 0, n < ds)
    out += [FA([n], z3.Implies(g, z3.And(a['name'][0] == k, b['name'][0] == k)), k, a['name'][0]),
            FA([n], z3.Implies(g, Q.RANK(*e, rq, k, lo, hi) == n), k, a['name'][0]),
            FA([n], z3.Implies(g, z3.And(Q.CNT(*e, rq, k, lo, hi) > 0, rd.arrs[0][k] == 0, rd.arrs[1][k] == Q.CNT(*e, rq, k, lo, hi), sd.arrs[0][k] == 0, sd.arrs[1][k] == Q.CNT(*e, rq, k, lo, hi))), k, a['name'][0]),
            FA([n], z3.Implies(g, Q.RANK(*e, rq, a['name'][0], lo, hi) == n), a['name'][0])]
    kj = Q.KEY(*e, rq[j])
    r = Q.RANK(*e, rq, kj, lo, hi)
    a, b = stream_at(c, st, 2 * r), stream_at(c, st, 2 * r + 1)
    gj = z3.And(lo <= j, j < hi)
    out += [FA([j], z3.Implies(gj, z3.And(r >= 0, r < ds, hs.arr(0)[r] == kj)), kj),
            FA([j], z3.Implies(gj, z3.And(a['name'][0] == kj, b['name'][0] == kj)), kj)]
    return out


QH = Keyed('host', lambda m: STRIP0(LOWER0(HOST(m))))
QS = Keyed('suffix', lambda p, m: PSUF(p, hostpart(HOST(m))), [PSL.sort])
AO = 'lib/streamifiers/all_one.py::Streamifier'


def ao_inv(c):
    ms, i = c.o('messages'), c.i
    out = []
    j = z3.Int('sj')
    for nm, a in (('reqs', ms.arr(0)), ('ress', ms.arr(1))):
        l = c.v(nm)
        out.append((nm + ' length', l.len == i))
        if z3.is_int_value(l.len):
            continue
        out.append((nm + ' in order', FA([j], z3.Implies(z3.And(j >= 0, j < i), z3.And(l.arr(0)[l.lo + j] == a[ms.lo + j], l.arr(1)[l.lo + j] == HOST(ms.arr(0)[ms.lo + j]))), l.arr(0)[l.lo + j])))
    return out


def ao_post(c):
    ms, st = c.o('messages'), c.result
    j = z3.Int('sj')
    out = [('two streams', st.len == 2)]
    for n, (t, a) in enumerate((('req', ms.arr(0)), ('res', ms.arr(1)))):
        s = st[n]
        l = s.messages
        out += [('name and direction', z3.And(s.name == zs('all'), s.msg_type == zs(t))), ('as many as messages', l.len == ms.len),
                ('in order', FA([j], z3.Implies(z3.And(j >= 0, j < ms.len), z3.And(l.sym(TTuple(MSG, STR)).arrs[0][l.lo + j] == a[ms.lo + j], l.sym(TTuple(MSG, STR)).arrs[1][l.lo + j] == HOST(ms.arr(0)[ms.lo + j]))))),
                ('starts empty', z3.And([z3.ForAll([z3.Const('fk', SEQ)], z3.Not(getattr(s, f).dict_of(STREAM.fields[f]).has[z3.Const('fk', SEQ)])) for f in ('sizes', 'ratios', 'times')]))]
    return out


contracts = [
    streamifier('host', QH, lambda c: (), 'hosts'),
    streamifier('public_suffix', QS, lambda c: (c.o('self').psl,), 'suffixes', {'psl': PSL}),
    Contract(AO + '.streamify', {'self': TObj(AO, dict(procs=TList(STR))), 'messages': TList(TTuple(MSG, MSG))}, returns=None,
             requires=lambda c: [c.v('self').procs.len > 0], ensures=ao_post, loops={0: Loop(inv=ao_inv, types={'reqs': PAIRS, 'ress': PAIRS})}),
]
LEMMAS = QH.LEMMAS + QS.LEMMAS


def load(P):
    P.add(FS, 3)
