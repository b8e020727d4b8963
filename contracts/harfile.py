"""Contracts for lib/harfile.py"""
import z3
from engine.types import *
from engine.symex import Contract, Loop, zs, zi
from engine.speclib import *

F = 'lib/harfile.py'
K = lambda n: '%s::%s' % (F, n)
HD = TDict(STR, STR)
HDR = TRec(name=STR, value=STR)
REQ = TRec(url=STR, headers=TList(HDR), method=STR, httpVersion=STR)
RES = TRec(status=INT, statusText=STR, headers=TList(HDR), httpVersion=STR)
ENTRY = TRec(request=REQ, response=RES)
HAR = TRec(log=TRec(entries=TList(ENTRY)))
HAS, VAL = z3.ArraySort(SEQ, B), z3.ArraySort(SEQ, SEQ)

# name under which a header is kept
def hname(n):
    return z3.If(LOWER0(n) == zs('host'), zs(':host'), LOWER0(n))


_m = lambda *a: z3.If(a[-1] > a[-2], a[-1] - a[-2], z3.IntVal(0))
NOHAS, NOVAL = z3.K(SEQ, z3.BoolVal(False)), z3.K(SEQ, EMPTY)
# dictionary made of the headers lo..hi-1: names present, and values (repeats joined by NUL in order)
HH = RecDef('HAR_NAMES', [SEQARR, I, I], HAS, lambda nm, lo, hi: z3.If(hi <= lo, NOHAS, z3.Store(HH(nm, lo, hi - 1), hname(nm[hi - 1]), True)),
            measure=_m, calls=lambda nm, lo, hi: [(hi > lo, (nm, lo, hi - 1))])


def _hv(nm, vl, lo, hi):
    k, h, v = hname(nm[hi - 1]), HH(nm, lo, hi - 1), HV(nm, vl, lo, hi - 1)
    return z3.If(hi <= lo, NOVAL, z3.Store(v, k, z3.If(h[k], cc(v[k], zs('\0'), vl[hi - 1]), vl[hi - 1])))


HV = RecDef('HAR_VALUES', [SEQARR, SEQARR, I, I], VAL, _hv, measure=_m, calls=lambda nm, vl, lo, hi: [(hi > lo, (nm, vl, lo, hi - 1))])


def same(d, has, val):
    """dictionary d holds exactly these names with these values"""
    k = z3.Const('hk', SEQ)
    return [FA([k], d.has[k] == has[k], d.has[k]), FA([k], z3.Implies(has[k], d.arrs[0][k] == val[k]), d.arrs[0][k])]


def ph_post(c):
    h = c.o('hdrdicts')
    a = h.arr(0), h.arr(1), h.lo, h.hi
    d = c.result.dict_of(HD)
    return [('names', d.has == HH(a[0], a[2], a[3])), ('values', d.arrs[0] == HV(*a))]


def ph_inv(c):
    h = c.v('hdrdicts')
    nm, vl, lo = h.arr(0), h.arr(1), h.lo
    d = c.v('out').dict_of(HD)
    return [d.has == HH(nm, lo, lo + c.i), d.arrs[0] == HV(nm, vl, lo, lo + c.i)]


def ph_hint(c):
    h = c.v('hdrdicts')
    return [HH.unfold(h.arr(0), h.lo, h.lo + c.i), HV.unfold(h.arr(0), h.arr(1), h.lo, h.lo + c.i)]


def ph_names(v):
    j = z3.Int('pj')
    return FA([j], z3.Implies(z3.And(j >= v.lo, j < v.hi), LOWER0(v.arr(0)[j]) != EMPTY), v.arr(0)[j])


PHRASES = {
  '200': 'OK',
  '201': 'Created',
  '202': 'Accepted',
  '203': 'Non-Authoritative Information',
  '204': 'No Content',
  '205': 'Reset Content',
  '206': 'Partial Content',
  '207': 'Multi-Status',
  '300': 'Multiple Choices',
  '301': 'Moved Permanently',
  '302': 'Found',
  '303': 'See Other',
  '304': 'Not Modified',
  '307': 'Temporary Redirect',
  '308': 'Permanent Redirect',
  '400': 'Bad Request',
  '401': 'Unauthorized',
  '403': 'Forbidden',
  '404': 'Not Found',
  '405': 'Method Not Allowed',
  '406': 'Not Acceptable',
  '408': 'Request Timeout',
  '409': 'Conflict',
  '410': 'Gone',
  '500': 'Internal Server Error',
}


URLF = lambda k: z3.Function('url_' + k, SEQ, SEQ)
INT2STR = z3.Function('int2str', I, SEQ)
RESUB = z3.Function('str_resub', SEQ, SEQ, SEQ, SEQ)
SCHEME = lambda u: LOWER0(URLF('scheme')(u))
HTTP = lambda u: z3.Or(SCHEME(u) == zs('http'), SCHEME(u) == zs('https'))
# number of http(s) entries among lo..j-1
CNT = RecDef('HTTP_ENTRIES', [SEQARR, I, I], I, lambda u, lo, j: z3.If(j <= lo, z3.IntVal(0), CNT(u, lo, j - 1) + z3.If(HTTP(u[j - 1]), z3.IntVal(1), z3.IntVal(0))),
             measure=_m, calls=lambda u, lo, j: [(j > lo, (u, lo, j - 1))])
CNT_LT = Lemma('http-entries-monotone', [SEQARR, I, I, I], lambda u, lo, j, i: z3.Implies(z3.And(lo <= j, j <= i), z3.And(CNT(u, lo, j) >= 0, CNT(u, lo, j) <= CNT(u, lo, i), z3.Implies(z3.And(j < i, HTTP(u[j])), CNT(u, lo, j) < CNT(u, lo, i)))),
               proof=lambda u, lo, j, i: [CNT.unfold(u, lo, i), CNT.unfold(u, lo, j)],
               ih=lambda u, lo, j, i: [(z3.And(j < i, lo <= j), (u, lo, j, i - 1)), (z3.And(j == i, lo < j), (u, lo, j - 1, i - 1))], measure=lambda u, lo, j, i: z3.If(i > lo, i - lo, z3.IntVal(0)))


def store(a, *kv):
    for k, v in kv:
        a = z3.Store(a, zs(k), v)
    return a


A_ = ('rqlo', 'rqhi', 'rqn', 'rqv', 'rqver', 'meth', 'url', 'rslo', 'rshi', 'rsn', 'rsv', 'rsver', 'status', 'text')


class E:
    """entry j of the list"""
    def __init__(self, ents, j):
        for k, a in zip(A_, ents.sym().arrs):
            setattr(self, k, a[j])

    def req_has(self):
        t = z3.BoolVal(True)
        return store(HH(self.rqn, self.rqlo, self.rqhi), (':method', t), (':path', t), (':scheme', t), (':version', t), (':host', t))

    def req_val(self):
        h, v, u = HH(self.rqn, self.rqlo, self.rqhi), HV(self.rqn, self.rqv, self.rqlo, self.rqhi), self.url
        path = z3.If(URLF('query')(u) != EMPTY, cc(URLF('path')(u), zs('?'), URLF('query')(u)), URLF('path')(u))
        return store(v, (':method', LOWER0(self.meth)), (':path', path), (':scheme', SCHEME(u)), (':version', self.rqver),
                     (':host', z3.If(h[zs(':host')], v[zs(':host')], URLF('netloc')(u))))

    def res_has(self):
        t = z3.BoolVal(True)
        return store(HH(self.rsn, self.rslo, self.rshi), (':status', t), (':status-text', t), (':version', t))

    def res_val(self):
        st = INT2STR(self.status)
        ph = zs('unknown')
        for k, x in PHRASES.items():
            ph = z3.If(st == zs(k), zs(x), ph)
        return store(HV(self.rsn, self.rsv, self.rslo, self.rshi), (':status', st), (':status-text', z3.If(STRIP0(self.text) != EMPTY, STRIP0(self.text), ph)), (':version', self.rsver))


def h_state(c, rq, rs, ents, i):
    """the first i entries are converted"""
    u, lo = ents.sym().arrs[6], ents.lo
    out = [('one request per http entry', rq.len == CNT(u, lo, lo + i)), ('one response per http entry', rs.len == CNT(u, lo, lo + i))]
    if z3.is_int_value(rq.len) and rq.len.as_long() == 0:
        return out
    j, k = z3.Int('hj'), z3.Const('hk', SEQ)
    e = E(ents, j)
    for nm, l, has, val in (('request', rq, e.req_has(), e.req_val()), ('response', rs, e.res_has(), e.res_val())):
        a = l.sym().arrs
        p = CNT(u, lo, j)
        g = z3.And(lo <= j, j < lo + i, HTTP(u[j]))
        out.append(('%s names of each entry, in order' % nm, FA([j], z3.Implies(g, a[0][l.lo + p] == has), p)))
        out.append(('%s values of each entry, in order' % nm, FA([j, k], z3.Implies(z3.And(g, has[k]), a[1][l.lo + p][k] == val[k]), z3.MultiPattern(p, a[1][l.lo + p][k]))))
    return out


def h_ents(c):
    return c.o('har').log.entries


def h_pre(c):
    ents = c.v('har').log.entries
    j, k = z3.Int('hj'), z3.Int('hk')
    a = ents.sym().arrs
    ok = lambda lo, hi, nm: FA([j, k], z3.Implies(z3.And(ents.lo <= j, j < ents.hi, lo[j] <= k, k < hi[j]), LOWER0(nm[j][k]) != EMPTY), nm[j][k])
    return [ok(a[0], a[1], a[2]), ok(a[7], a[8], a[9]), FA([j], z3.Implies(z3.And(ents.lo <= j, j < ents.hi), a[12][j] >= 0), a[12][j])]


def h_hint(c):
    ents = h_ents(c)
    u, lo = ents.sym().arrs[6], ents.lo
    i = c.i - 1
    return [CNT.unfold(u, lo, lo + c.i), CNT_LT.all(lambda j: (u, lo, j, lo + i), [I], lambda j: CNT(u, lo, j))]


def h_hint0(c):
    """re.sub("^([0-9]*).*", "\\1", str(n)) is str(n) for n >= 0"""
    n = z3.Int('rn')
    ents = h_ents(c)
    u, lo = ents.sym().arrs[6], ents.lo
    return [Fact(FA([n], z3.Implies(n >= 0, RESUB(zs('^([0-9]*).*'), zs('\\1'), INT2STR(n)) == INT2STR(n)), INT2STR(n)), None), CNT.unfold(u, lo, lo)]


contracts = [
    Contract(K('process_headers'), {'hdrdicts': TList(HDR)}, returns=HD, requires=lambda c: [ph_names(c.v('hdrdicts'))], ensures=ph_post,
             pre_hints=lambda c: [HH.unfold(c.v('hdrdicts').arr(0), c.v('hdrdicts').lo, c.v('hdrdicts').lo), HV.unfold(c.v('hdrdicts').arr(0), c.v('hdrdicts').arr(1), c.v('hdrdicts').lo, c.v('hdrdicts').lo)],
             loops={0: Loop(inv=ph_inv, final=ph_hint)}),
    Contract(K('har2hdrs'), {'har': HAR}, returns=TTuple(TList(HD), TList(HD)), requires=h_pre, pre_hints=h_hint0,
             ensures=lambda c: h_state(c, c.result[0], c.result[1], h_ents(c), h_ents(c).len),
             loops={0: Loop(inv=lambda c: h_state(c, c.v('request_headers'), c.v('response_headers'), h_ents(c), c.i), final=h_hint)}),
]


def load(P):
    P.add([F], 3)
