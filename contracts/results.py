"""Contracts for lib/stream.py and Processors.process_session/process_message: what is recorded for a session"""
import z3
from engine.types import *
from engine.symex import Contract, Loop, zs, zi, OPAQUE_ITEMS, OPAQUE_METHODS, OBJ_TYPES, OpaqueVal
from engine.speclib import *

F = 'lib/stream.py'
S = F + '::Stream'
K = lambda n: F + '::' + n
HD = TDict(STR, STR)
PAIRS = TList(TTuple(HD, STR))
NUMS = lambda t: TDict(STR, TList(t), 'list')
STREAM = TObj(S, dict(name=STR, messages=PAIRS, msg_type=STR, procs=TList(STR), lname=INT, sizes=NUMS(INT), ratios=NUMS(REAL), times=NUMS(REAL)))
FIELDS = (('sizes', INT), ('ratios', REAL), ('times', REAL))


def dl(v, t):
    """a dictionary of lists: has, start, end, items"""
    d = v.dict_of(NUMS(t))
    return d.has, d.arrs[0], d.arrs[1], d.arrs[2]


AS = lambda x: z3.ArraySort(SEQ, x)
# how many records a dictionary of lists has for a key, and the q-th of them
NREC = RecDef('RECORDS_OF', [AS(B), AS(I), AS(I), SEQ], I, lambda has, lo, hi, k: z3.If(has[k], hi[k] - lo[k], z3.IntVal(0)))
ATI = RecDef('RECORD_AT_I', [AS(I), AS(z3.ArraySort(I, I)), SEQ, I], I, lambda lo, a, k, q: a[k][lo[k] + q])
ATR = RecDef('RECORD_AT_R', [AS(I), AS(z3.ArraySort(I, z3.RealSort())), SEQ, I], z3.RealSort(), lambda lo, a, k, q: a[k][lo[k] + q])


def ln(d, k):
    return NREC(d[0], d[1], d[2], k)


def at(d, k, q):
    D = ATR if d[3].sort().range().range() == z3.RealSort() else ATI
    return D(d[1], d[3], k, q)


def nrecs(*ds):
    return [NREC.all(lambda k: (d[0], d[1], d[2], k), [SEQ]) for d in ds]


def defs(*ds):
    out = []
    for d in ds:
        D = ATR if d[3].sort().range().range() == z3.RealSort() else ATI
        out += [NREC.all(lambda k: (d[0], d[1], d[2], k), [SEQ]), D.all(lambda k, q: (d[1], d[3], k, q), [SEQ, I])]
    return out


def stream_defs(*ss):
    return [h for s in ss for f, t in FIELDS for h in defs(dl(getattr(s, f), t))]


def joined(r, a, b):
    """r: per key the records of a, then those of b"""
    k, t = z3.Const('dk', SEQ), z3.Int('dt')
    return [('keys of both', FA([k], r[0][k] == z3.Or(a[0][k], b[0][k]), r[0][k])),
            ('as many records as in both', FA([k], z3.Implies(r[0][k], ln(r, k) == ln(a, k) + ln(b, k)), ln(r, k))),
            ('records of the first, in order', FA([k, t], z3.Implies(z3.And(a[0][k], t >= 0, t < ln(a, k)), at(r, k, t) == at(a, k, t)), at(r, k, t))),
            ('records of the second after them, in order', FA([k, t], z3.Implies(z3.And(b[0][k], t >= 0, t < ln(b, k)), at(r, k, ln(a, k) + t) == at(b, k, t)), at(b, k, t)))]


def joined_abs(r, a, b):
    """the same by absolute index"""
    k, p = z3.Const('dk', SEQ), z3.Int('dp')
    L = lambda d: z3.If(d[0][k], d[2][k] - d[1][k], z3.IntVal(0))
    x = r[3][k][p]
    return [FA([k], z3.Implies(r[0][k], r[2][k] - r[1][k] == L(a) + L(b)), r[0][k]),
            FA([k, p], z3.Implies(z3.And(a[0][k], p >= r[1][k], p < r[1][k] + L(a)), x == a[3][k][a[1][k] + (p - r[1][k])]), x),
            FA([k, p], z3.Implies(z3.And(b[0][k], p >= r[1][k] + L(a), p < r[1][k] + L(a) + L(b)), x == b[3][k][b[1][k] + (p - r[1][k] - L(a))]), x)] + \
        nrecs(r, a, b) + [FA([k, p], z3.Implies(z3.And(b[0][k], p >= b[1][k], p < b[1][k] + ln(b, k)), r[3][k][r[1][k] + ln(a, k) + (p - b[1][k])] == b[3][k][p]), b[3][k][p])]


def join_hints(c):
    r, a, b = [dl(x, INT if c.eng.case == 0 else REAL) for x in (c.result, c.o('dol1'), c.o('dol2'))]
    return joined_abs(r, a, b) + defs(r, a, b)


def add_hints(c):
    r, a, b = c.result, c.o('self'), c.o('other')
    return [h for f, t in FIELDS for h in joined_abs(*[dl(getattr(x, f), t) for x in (r, a, b)])] + stream_defs(r, a, b)


def same(r, a):
    return [x == y for x, y in zip(r, a)]


def snoc(r, a, key, x):
    """r is a with one more record of key"""
    k, t = z3.Const('dk', SEQ), z3.Int('dt')
    return [('keys', FA([k], r[0][k] == z3.Or(a[0][k], k == key), r[0][k])),
            ('one more record', FA([k], ln(r, k) == ln(a, k) + z3.If(k == key, z3.IntVal(1), z3.IntVal(0)), ln(r, k))),
            ('it is the last one', at(r, key, ln(a, key)) == x),
            ('earlier records', FA([k, t], z3.Implies(z3.And(t >= 0, t < ln(a, k)), at(r, k, t) == at(a, k, t)), at(r, k, t)))]


def record_post(c):
    s, o = c.p('self'), c.o('self')
    out = []
    for (f, t), v in zip(FIELDS, ('size', 'ratio', 'time')):
        out += [('%s: %s' % (f, n), e) for n, e in snoc(dl(getattr(s, f), t), dl(getattr(o, f), t), c.o('proc_name'), c.o(v))]
    return out


def add_post(c):
    a, b, r = c.o('self'), c.o('other'), c.result
    out = [('%s: %s' % (f, n), e) for f, t in FIELDS for n, e in joined(dl(getattr(r, f), t), dl(getattr(a, f), t), dl(getattr(b, f), t))]
    for nm, m, base in (('first', a.messages, z3.IntVal(0)), ('second', b.messages, a.messages.len)):
        t = z3.Int('mt')
        out += [('messages of the %s' % nm, z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < m.len), z3.And([r.messages.arr(q)[r.messages.lo + base + t] == m.arr(q)[m.lo + t] for q in (0, 1, 2)]))))]
    p = c.p('self')
    out += [('as many messages', r.messages.len == a.messages.len + b.messages.len), ('direction', r.msg_type == a.msg_type),
            ('the first stream keeps its messages', z3.And(p.messages.lo == a.messages.lo, p.messages.hi == a.messages.hi)),
            ('codecs', z3.And(r.procs.lo == a.procs.lo, r.procs.hi == a.procs.hi, r.procs.arr() == a.procs.arr()))]
    return out


def radd_post(c):
    a, r = c.o('self'), c.result
    out = [('%s are those of the stream' % f, z3.And(same(dl(getattr(r, f), t), dl(getattr(a, f), t)))) for f, t in FIELDS]
    out += [('messages', z3.And([r.messages.len == a.messages.len] + [FA([z3.Int('mt')], z3.Implies(z3.And(z3.Int('mt') >= 0, z3.Int('mt') < a.messages.len), r.messages.arr(q)[r.messages.lo + z3.Int('mt')] == a.messages.arr(q)[a.messages.lo + z3.Int('mt')])) for q in (0, 1, 2)])),
            ('direction', r.msg_type == a.msg_type)]
    return out


SHARED = 'records of a sum of streams are not changed any more (streams are added only after all sessions are processed)'
contracts = [
    Contract(S + '.record_result', {'self': STREAM, 'proc_name': STR, 'size': INT, 'ratio': REAL, 'time': REAL}, ensures=record_post, exit_hints=lambda c: stream_defs(c.p('self'), c.o('self')), modifies=['self.sizes', 'self.ratios', 'self.times']),
    Contract(K('merge_dols'), {'dol1': lambda e: NUMS(INT) if e.case == 0 else NUMS(REAL), 'dol2': lambda e: NUMS(INT) if e.case == 0 else NUMS(REAL)}, returns=None, cases=2, call=False, shared=SHARED, lean=True, exit_hints=join_hints,
             ensures=lambda c: joined(*[dl(x, INT if c.eng.case == 0 else REAL) for x in (c.result, c.o('dol1'), c.o('dol2'))])),
    Contract(S + '.__add__', {'self': STREAM, 'other': STREAM}, returns=None, requires=lambda c: [c.v('self').msg_type == c.v('other').msg_type, c.v('self').procs.len > 0], ensures=add_post, exit_hints=add_hints, shared=SHARED, lean=True),
    Contract(S + '.__radd__', {'self': STREAM, 'other': INT}, returns=None, requires=lambda c: [c.v('self').procs.len > 0], ensures=radd_post, shared=SHARED, lean=True),
]


def load(P):
    P.add([F], 3)
