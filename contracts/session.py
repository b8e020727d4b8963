"""Contracts for Processors.process_message / process_session: which codec sees what, and what is recorded for it.

Codecs are opaque objects with a constant name; a ghost log (field `calls` of Processors) holds, per codec object, the
compress calls made on it: headers, host and what it answered.  Ghost field `which`: the place of a codec name in the
list of codecs (so names are distinct)."""
import z3
from engine.types import *
from engine.symex import Contract, Loop, zs, zi, OPAQUE_METHODS, OPAQUE_ATTRS, OpaqueVal, PyRaise, DictCell
from engine.speclib import *
from contracts.processors import contracts as PROC, INSPL, insplit, FIXED, HD, F as PF
from contracts.results import contracts as RES, NUMS, STREAM, dl, ln, at, F as SF

F = PF
K = lambda n: '%s::Processors.%s' % (F, n)
CODEC, OUTF = TOpaque('Codec'), TOpaque('Output')
CS = CODEC.sort
NAME = z3.Function('codec_name', CS, SEQ)
OPAQUE_ATTRS[('Codec', 'name')] = (NAME, STR)
OPAQUE_METHODS[('Output', '__call__')] = lambda eng, o, args: None
HAS, VAL = z3.ArraySort(SEQ, B), z3.ArraySort(SEQ, SEQ)
CALL = TTuple(TRaw(HAS), TRaw(VAL), STR, STR)       # headers (membership, values), host, output
CALLS = TDict(CODEC, TList(CALL))
OPT = TObj('<options>', dict(verbose=INT, debug=BOOL, baseline=STR, processor_names=TList(STR)))
PROCS = TDict(STR, TList(CODEC), 'list')
WHICH = TDict(STR, INT)
SELF = TObj(F + '::Processors', dict(options=OPT, msg_types=TList(STR), output=OUTF, warned=TDict(STR, BOOL), processors=PROCS, calls=CALLS, which=WHICH))
REC = TDict(STR, TRec(size=INT, time=REAL))


class Log:
    """the ghost log of a state"""

    def __init__(self, v):
        d = v.calls.dict_of(CALLS)
        self.leaves = d.arrs
        self.lo, self.n, self.has, self.val, self.host, self.out = d.arrs


def compress(eng, o, args):
    me = eng.frame.env['self']
    ref = eng.getattr(me, 'calls')
    d = eng.cell(ref)
    hd = eng.sym_dict(eng.cell(args[0]), None, HD)
    c = o.term
    out = eng.fresh('output', SEQ)
    eng.assume(z3.Length(out) > 0)
    n = d.arrs[1][c]
    new = [hd.has, hd.arrs[0], zs(args[1]), out]
    arrs = [d.arrs[0], z3.Store(d.arrs[1], c, n + 1)] + [z3.Store(a, c, z3.Store(a[c], n, x)) for a, x in zip(d.arrs[2:], new)]
    eng.set_cell(ref, DictCell(k=d.k, v=d.v, has=d.has, arrs=tuple(arrs), default=d.default))
    return out


def decompress(eng, o, args):
    if eng.decide(eng.fresh('unsupported', z3.BoolSort())):
        raise PyRaise('NotImplementedError', eng.line)
    return eng.fresh_value(HD, 'decompressed')


OPAQUE_METHODS[('Codec', 'compress')] = compress
OPAQUE_METHODS[('Codec', 'decompress')] = decompress


def _sees(r, rv, rhost, h, v, host):
    kk = z3.Const('fk', SEQ)
    conn = z3.And(h[zs('connection')], INSPL(v[zs('connection')], zs(','), kk))
    keep = z3.And([h[kk], z3.Not(conn)] + [kk != zs(g) for g in FIXED])
    return z3.And(FA([kk], r[kk] == keep, r[kk]), FA([kk], z3.Implies(r[kk], rv[kk] == v[kk]), rv[kk]), rhost == host)


# a call with headers (r, rv) and host rhost is the one for a message: its headers (h, v) without the hop-by-hop ones, its host
SEES = RecDef('CALL_FOR_MESSAGE', [HAS, VAL, SEQ, HAS, VAL, SEQ], B, _sees)


def sees(log, c, q, h, v, host):
    return SEES(log.has[c][q], log.val[c][q], log.host[c][q], h, v, host)


def codecs(s, mt):
    """(position -> codec, first, number) of the codecs for a direction"""
    d = s.processors.dict_of(PROCS)
    lo, hi, a = d.arrs[0][mt], d.arrs[1][mt], d.arrs[2][mt]
    return lo, hi, a


def distinct(s, mt):
    lo, hi, a = codecs(s, mt)
    w = s.which.dict_of(WHICH).arrs[0]
    t = z3.Int('ct')
    return [('the direction is known', s.processors.dict_of(PROCS).has[mt]), ('codecs', lo <= hi),
            ('names are distinct', FA([t], z3.Implies(z3.And(lo <= t, t < hi), w[NAME(a[t])] == t - lo), a[t]))]


def logged(s, old, mt, h, v, host, i):
    """the first i codecs have one more call, the others are as before"""
    L, L0 = Log(s), Log(old)
    lo, hi, a = codecs(s, mt)
    t, c, q = z3.Int('ct'), z3.Const('cc', CS), z3.Int('cq')
    done = z3.And(lo <= t, t < lo + i)
    out = [('one call each', FA([t], z3.Implies(done, L.n[a[t]] == L0.n[a[t]] + 1), a[t])),
           ('same headers and host for each', FA([t], z3.Implies(done, sees(L, a[t], L0.n[a[t]], h, v, host)), a[t])),
           ('codecs not reached', FA([t], z3.Implies(z3.And(lo + i <= t, t < hi), L.n[a[t]] == L0.n[a[t]]), a[t])),
           ('outputs are not empty', FA([t], z3.Implies(done, z3.Length(L.out[a[t]][L0.n[a[t]]]) > 0), a[t]))]
    for nm in ('has', 'val', 'host', 'out'):
        x, y = getattr(L, nm), getattr(L0, nm)
        out.append(('earlier calls (%s)' % nm, z3.ForAll([c, q], z3.Implies(q < L0.n[c], x[c][q] == y[c][q]), patterns=[x[c][q]])))
    return out


def results_of(s, old, mt, res, i):
    L, L0 = Log(s), Log(old)
    lo, hi, a = codecs(s, mt)
    w = s.which.dict_of(WHICH).arrs[0]
    t, k = z3.Int('ct'), z3.Const('ck', SEQ)
    d = res.dict_of(REC)
    size = d.arrs[0]
    return [('a result for each codec', FA([t], z3.Implies(z3.And(lo <= t, t < lo + i), z3.And(d.has[NAME(a[t])], size[NAME(a[t])] == z3.Length(L.out[a[t]][L0.n[a[t]]]))), a[t])),
            ('a result for codecs only', FA([k], z3.Implies(d.has[k], z3.And(0 <= w[k], w[k] < i, NAME(a[lo + w[k]]) == k)), d.has[k]))]


def msg_inv(c):
    s, o = c.v('self'), c.o('self')
    mt = c.v('msg_type')
    hd = c.v('hdrs').dict
    return logged(s, o, mt, hd.has, hd.arrs[0], c.v('host'), c.i) + results_of(s, o, mt, c.v('results'), c.i)


def sees_hint(c):
    # what the call just made got
    s, o = c.v('self'), c.o('self')
    lo, hi, a = codecs(s, c.v('msg_type'))
    L, L0 = Log(s), Log(o)
    x = a[lo + c.i - 1]
    q = L0.n[x]
    hd = c.v('hdrs').dict
    return [SEES.unfold(L.has[x][q], L.val[x][q], L.host[x][q], hd.has, hd.arrs[0], c.v('host'))]


def msg_post(c):
    s, o, mt = c.p('self'), c.o('self'), c.o('msg_type')
    lo, hi, a = codecs(s, mt)
    hd = c.o('hdrs').dict
    return logged(s, o, mt, hd.has, hd.arrs[0], c.o('host'), hi - lo) + results_of(s, o, mt, c.result, hi - lo)


def fresh_codecs(c):
    """trusted: every call makes new codec objects, the same names in the same order for both directions"""
    s, o = c.p('self'), c.o('self')
    r = c.result.dict_of(PROCS)
    L = Log(s)
    w = s.which.dict_of(WHICH)
    t = z3.Int('ct')
    out = []
    for mt in (zs('req'), zs('res')):
        lo, hi, a = r.arrs[0][mt], r.arrs[1][mt], r.arrs[2][mt]
        base = s.options.baseline
        out += [r.has[mt], lo <= hi, FA([t], z3.Implies(z3.And(lo <= t, t < hi), z3.And(w.arrs[0][NAME(a[t])] == t - lo, L.n[a[t]] == 0)), a[t]),
                z3.And(0 <= w.arrs[0][base], w.arrs[0][base] < hi - lo, NAME(a[lo + w.arrs[0][base]]) == base)]
    return out


# ---------------------------------------------------------------- sessions
MSGS = TList(TTuple(HD, STR))


def heard(s, mt, m, i):
    """each codec of the direction has been given the first i messages, in order, and nothing else"""
    L = Log(s)
    lo, hi, a = codecs(s, mt)
    t, q = z3.Int('ct'), z3.Int('cq')
    rng = z3.And(lo <= t, t < hi)
    return [('one call per message', FA([t], z3.Implies(rng, L.n[a[t]] == i), a[t])),
            ('the messages in order', z3.ForAll([t, q], z3.Implies(z3.And(rng, 0 <= q, q < i), sees(L, a[t], q, m.arr(0)[m.lo + q], m.arr(1)[m.lo + q], m.arr(2)[m.lo + q])), patterns=[L.has[a[t]][q]])),
            ('outputs are not empty', z3.ForAll([t, q], z3.Implies(z3.And(rng, 0 <= q, q < i), z3.Length(L.out[a[t]][q]) > 0), patterns=[L.out[a[t]][q]]))]


def ratio_of(s, L, lo, a, w, c, q):
    base = s.options.baseline
    return z3.If(NAME(c) == base, z3.RealVal(1), z3.ToReal(z3.Length(L.out[c][q])) / z3.ToReal(z3.Length(L.out[a[lo + w[base]]][q])))


def recorded(s, st, st0, mt, i, rng=None):
    """the stream holds, after what it held before, the size and ratio of each of the first i messages, for each codec"""
    L = Log(s)
    lo, hi, a = codecs(s, mt)
    w = s.which.dict_of(WHICH).arrs[0]
    t, q = z3.Int('ct'), z3.Int('cq')
    rng = z3.And(lo <= t, t < hi)
    k = NAME(a[t])
    out = []
    for f, ty in (('sizes', INT), ('ratios', REAL), ('times', REAL)):
        d, d0 = dl(getattr(st, f), ty), dl(getattr(st0, f), ty)
        out.append((f + ': one record per message', FA([t], z3.Implies(rng, ln(d, k) == ln(d0, k) + i), a[t])))
        out.append((f + ': earlier records', FA([t, q], z3.Implies(z3.And(rng, 0 <= q, q < ln(d0, k)), at(d, k, q) == at(d0, k, q)), at(d, k, q))))
        if f != 'times':
            x = (lambda q: z3.Length(L.out[a[t]][q])) if f == 'sizes' else (lambda q: ratio_of(s, L, lo, a, w, a[t], q))
            out.append((f + ': those of the outputs, in order', FA([t, q], z3.Implies(z3.And(rng, ln(d0, k) <= q, q < ln(d0, k) + i), at(d, k, q) == x(q - ln(d0, k))), at(d, k, q))))
    return out


def ses_inv(c):
    s, st, st0 = c.v('self'), c.v('session'), c.o('session')
    mt, m = st0.msg_type, st0.messages
    return distinct(s, mt) + heard(s, mt, m, c.i) + recorded(s, st, st0, mt, c.i)


def rec_inv(c):
    """inner loop: the codecs listed so far have one more record, the others none"""
    s, st, st0 = c.v('self'), c.v('session'), c.e('session')
    mt = st.msg_type
    L = Log(s)
    lo, hi, a = codecs(s, mt)
    k, q = z3.Const('rk', SEQ), z3.Int('rq')
    w = s.which.dict_of(WHICH).arrs[0]
    res = c.v('results').dict_of(REC)
    pos, n = c.it.pos, c.i
    done = z3.And(res.has[k], pos[k] < n)
    base = s.options.baseline
    out = []
    for f, ty in (('sizes', INT), ('ratios', REAL), ('times', REAL)):
        d, d0 = dl(getattr(st, f), ty), dl(getattr(st0, f), ty)
        out.append((f + ': lengths', FA([k], z3.Implies(res.has[k], ln(d0, k) >= 0), res.has[k])))
        out.append((f + ': one more for those listed', FA([k], z3.Implies(res.has[k], ln(d, k) == ln(d0, k) + z3.If(pos[k] < n, 1, 0)), ln(d, k))))
        out.append((f + ': earlier', FA([k, q], z3.Implies(z3.And(res.has[k], 0 <= q, q < ln(d0, k)), at(d, k, q) == at(d0, k, q)), at(d, k, q))))
        if f != 'times':
            x = res.arrs[0][k] if f == 'sizes' else z3.If(k == base, z3.RealVal(1), z3.ToReal(res.arrs[0][k]) / z3.ToReal(res.arrs[0][base]))
            out.append((f + ': the new record', FA([k, q], z3.Implies(z3.And(done, q == ln(d0, k)), at(d, k, q) == x), at(d, k, q))))
    return out


def rec_hint(c):
    # the codec just listed
    res = c.v('results').dict_of(REC)
    k = z3.Const('rk', SEQ)
    x = c.it.enum[c.i - 1]
    return [z3.And(res.has[x], c.it.pos[x] == c.i - 1), FA([k], z3.Implies(res.has[k], (c.it.pos[k] == c.i - 1) == (k == x)), res.has[k])]


def ses_post(c):
    s, st, st0 = c.p('self'), c.p('session'), c.o('session')
    mt, m = st0.msg_type, st0.messages
    return heard(s, mt, m, m.len) + recorded(s, st, st0, mt, m.len)


def lengths(st):
    k = z3.Const('rk', SEQ)
    return [('%s hold lists' % f, FA([k], ln(dl(getattr(st, f), ty), k) >= 0, ln(dl(getattr(st, f), ty), k))) for f, ty in (('sizes', INT), ('ratios', REAL), ('times', REAL))]


DIR = lambda mt: z3.Or(mt == zs('req'), mt == zs('res'))
contracts = PROC + RES + [
    Contract(K('process_message'), {'self': SELF, 'hdrs': HD, 'msg_type': STR, 'host': STR, 'msg_idx': INT, 'msg_tot': INT}, returns=REC,
             requires=lambda c: distinct(c.v('self'), c.v('msg_type')), ensures=msg_post, modifies=['self.calls', 'self.warned'],
             raises=lambda c: c.o('self').options.debug, raises_may=True,
             loops={0: Loop(inv=msg_inv, types={'results': REC}, final=sees_hint)}),
    Contract(K('get_processors'), {'self': SELF, 'processor_names': TList(STR)}, returns=PROCS, ensures=fresh_codecs, verify=False,
             why_trusted='imports codec modules by name (dynamic import): new codec objects on every call, distinct names, the baseline among them'),
    Contract(K('process_session'), {'self': SELF, 'session': STREAM}, requires=lambda c: [DIR(c.v('session').msg_type)] + lengths(c.v('session')), ensures=ses_post,
             modifies=['self.processors', 'self.calls', 'self.warned', 'session.sizes', 'session.ratios', 'session.times'],
             raises=lambda c: c.o('self').options.debug, raises_may=True,
             loops={0: Loop(inv=ses_inv), 1: Loop(inv=rec_inv, final=rec_hint)}),
    Contract('compressor/__init__.py::format_http1', {'frame': HD}, returns=STR, verify=False, why_trusted='only printed here (C12 covers it)'),
]


def load(P):
    P.add([F], 3)
    P.add([SF], 3)
    P.add(['compressor/__init__.py'], 3)
