"""Contracts for lib/processors.py (comparison and filtering of header dictionaries)"""
import z3
from engine.types import *
from engine.symex import Contract, Loop, zs, zi, SpecMismatch
from engine.speclib import *

F = 'lib/processors.py'
K = lambda n: '%s::%s' % (F, n)
HD = TDict(STR, STR)
PAIR = TTuple(STR, STR)
PS = keysort(PAIR)
IGN = (':version', ':status-text', 'connection')
FIXED = (':version', ':status-text', 'connection', 'keep-alive')


def _spl(v, sep, x):
    j = z3.Int('spj')
    return z3.Exists([j], z3.And(j >= 0, j < SPLIT_N(v, sep), STRIP1(SPLIT_A(v, sep)[j], zs(' ')) == x))


# x is one of the parts of v at sep, spaces trimmed
INSPL = RecDef('INSPL', [SEQ, SEQ, SEQ], B, _spl)


def insplit(v, sep):
    """definition of INSPL for every candidate part of one string"""
    return INSPL.all(lambda x: (v, sep, x), [SEQ])


def sep_of(k):
    return z3.If(k == zs('cookie'), zs(';'), zs('\0'))


# (k, x) is one of the normalised pairs of a header dictionary
NORM = RecDef('NORM', [z3.ArraySort(SEQ, B), z3.ArraySort(SEQ, SEQ), SEQ, SEQ], B,
              lambda has, val, k, x: z3.And([has[k]] + [k != zs(g) for g in IGN] + [INSPL(val[k], sep_of(k), x)]))
in_norm = NORM


def norm_all(d):
    has, val = hv(d)
    return NORM.all(lambda k, x: (has, val, k, x), [SEQ, SEQ])


def hv(v):
    c = v.dict
    return c.has, c.arrs[0]


def outer_inv(c):
    has, val = hv(c.v('d'))
    kk, x = z3.Const('nk', SEQ), z3.Const('nx', SEQ)
    nd = c.v('nd').set_of(PAIR)
    return [FA([kk, x], nd[PS.mk(kk, x)] == z3.And(in_norm(has, val, kk, x), c.it.pos[kk] < c.i), nd[PS.mk(kk, x)], in_norm(has, val, kk, x))]


def inner_inv(c):
    kk, x = z3.Const('nk', SEQ), z3.Const('nx', SEQ)
    nd, nd0 = c.v('nd').set_of(PAIR), c.e('nd').set_of(PAIR)
    sp = c.v('splitlist').set_of(STR)
    return [FA([kk, x], nd[PS.mk(kk, x)] == z3.Or(nd0[PS.mk(kk, x)], z3.And(kk == c.v('k'), sp[x], c.it.pos[x] < c.i)), nd[PS.mk(kk, x)])]


def split_hint(c):
    return [insplit(c.v('v'), zs(';')), insplit(c.v('v'), zs('\0'))]


# the report line of a pair
LINE = RecDef('LINE', [SEQ, SEQ], SEQ, lambda kk, x: cc(zs('\t'), kk, zs(': '), x))


def line_hint(c):
    p = c.it.enum[c.i - 1]
    return [LINE.unfold(PS.accessor(0, 0)(p), PS.accessor(0, 1)(p))]


def report_inv(c):
    r, r0 = c.v('retval'), c.e('retval')
    kk, x, j = z3.Const('rk', SEQ), z3.Const('rx', SEQ), z3.Int('rj')
    n0 = r0.len
    out = [r.len == n0 + c.i]
    pos = c.it.pos
    p = PS.mk(kk, x)
    out.append(FA([kk, x], z3.Implies(z3.And(c.it.has[p], pos[p] < c.i), r.arr()[r.lo + n0 + pos[p]] == LINE(kk, x)), pos[p]))
    if not z3.is_int_value(n0) or n0.as_long() > 0:
        out.append(FA([j], z3.Implies(z3.And(j >= 0, j < n0), r.arr()[r.lo + j] == r0.arr()[r0.lo + j]), r.arr()[r.lo + j]))
    return out


def compare_post(c):
    ah, av = hv(c.o('a_hdr'))
    bh, bv = hv(c.o('b_hdr'))
    kk, x = z3.Const('ck', SEQ), z3.Const('cx', SEQ)
    A, Bn = in_norm(ah, av, kk, x), in_norm(bh, bv, kk, x)
    r = c.result
    return [('empty report iff the headers agree', (r == EMPTY) == z3.ForAll([kk, x], A == Bn)),
            ('every pair found only in the first is named', z3.ForAll([kk, x], z3.Implies(z3.And(A, z3.Not(Bn)), CONT(r, LINE(kk, x))))),
            ('every pair found only in the second is named', z3.ForAll([kk, x], z3.Implies(z3.And(Bn, z3.Not(A)), CONT(r, LINE(kk, x)))))]


def compare_hints(c):
    r = c.v('retval')
    if z3.is_int_value(r.len) and r.len.as_long() == 0:
        return []
    lo, hi = r.lo, r.hi
    ah, av = hv(c.o('a_hdr'))
    bh, bv = hv(c.o('b_hdr'))
    kk, x = z3.Const('ck', SEQ), z3.Const('cx', SEQ)
    A, Bn, p = in_norm(ah, av, kk, x), in_norm(bh, bv, kk, x), PS.mk(kk, x)
    cr = c.v('compare_result')
    ao, bo = cr['a_only'].set_of(PAIR), cr['b_only'].set_of(PAIR)
    return [FA([kk, x], ao[p] == z3.And(A, z3.Not(Bn)), ao[p], A), FA([kk, x], bo[p] == z3.And(Bn, z3.Not(A)), bo[p], Bn),
            JOIN.unfold(zs('\n'), r.arr(), lo, hi), JOIN_HASC.all(lambda j: (zs('\n'), r.arr(), lo, hi, j), [I], lambda j: r.arr()[j]),
            FA([kk, x], z3.Implies(ao[p], CONT(JOIN(zs('\n'), r.arr(), lo, hi), LINE(kk, x))), ao[p]),
            FA([kk, x], z3.Implies(bo[p], CONT(JOIN(zs('\n'), r.arr(), lo, hi), LINE(kk, x))), bo[p])]


def filter_post(c):
    h, v = hv(c.o('hdrs'))
    kk = z3.Const('fk', SEQ)
    r, rv = hv(c.result)
    conn = z3.And(h[zs('connection')], INSPL(v[zs('connection')], zs(','), kk))
    keep = z3.And([h[kk], z3.Not(conn)] + [kk != zs(g) for g in FIXED])
    return [('exactly the fixed and the listed headers are dropped', z3.ForAll([kk], r[kk] == keep)),
            ('kept values unchanged', z3.ForAll([kk], z3.Implies(r[kk], rv[kk] == v[kk])))]


def filter_inv(c):
    h, v = hv(c.v('hdrs'))
    kk = z3.Const('fk', SEQ)
    nc = c.v('new_hdrs').dict_of(HD)
    r, rv = nc.has, nc.arrs[0]
    conn = z3.And(h[zs('connection')], INSPL(v[zs('connection')], zs(','), kk))
    keep = z3.And([h[kk], z3.Not(conn)] + [kk != zs(g) for g in FIXED])
    return [FA([kk], r[kk] == z3.And(keep, c.it.pos[kk] < c.i), r[kk]),
            FA([kk], z3.Implies(r[kk], rv[kk] == v[kk]), rv[kk])]


def filter_hint(c):
    # the dropped names one by one (terms for the solver)
    if not c.has('ignore_hdrs'):
        return []
    g = c.v('ignore_hdrs')
    try:
        n = g.len
        if z3.is_int_value(z3.simplify(n)):
            return []
        v = hv(c.o('hdrs'))[1][zs('connection')]
        a, lo, m = g.arr(), g.lo, z3.Int('fm')
        t = SPLIT_A(v, zs(','))[m]
        return [z3.Or([a[lo + i] == zs(x) for x in FIXED]) for i in range(4)] + [z3.And([z3.Or([a[lo + i] == zs(x) for i in range(4)]) for x in FIXED]),
                FA([m], z3.Implies(z3.And(m >= 0, m < SPLIT_N(v, zs(','))), a[lo + 4 + m] == STRIP1(t, zs(' '))), t)]
    except (AttributeError, SpecMismatch):
        return []


contracts = [
    Contract(K('compare_headers_impl.NormalizeDict'), {'d': HD}, call=False, verify=False, why_trusted='inlined at its calls; carries the loop invariants',
             loops={0: Loop(inv=outer_inv, hints=lambda c: [norm_all(c.v('d'))]), 1: Loop(inv=inner_inv, hints=split_hint)}),
    Contract(K('Processors.compare_headers'), {'a_hdr': HD, 'a_name': STR, 'b_hdr': HD, 'b_name': STR}, returns=STR, ensures=compare_post, pre_hints=lambda c: [norm_all(c.o('a_hdr')), norm_all(c.o('b_hdr'))],
             loops={0: Loop(inv=report_inv, final=line_hint), 1: Loop(inv=report_inv, final=line_hint)}, exit_hints=compare_hints),
    Contract(K('Processors.filter_headers'), {'hdrs': HD}, returns=HD, ensures=filter_post, loops={0: Loop(inv=filter_inv, hints=filter_hint)},
             pre_hints=lambda c: [insplit(hv(c.o('hdrs'))[1][zs('connection')], zs(','))]),
]


def load(P):
    P.add([F], 3)
