"""Contracts for format_http1 / parse_http1 (compressor/__init__.py) and the theorem that they are inverse"""
import z3
from engine.types import *
from engine.symex import Contract, Loop, zs, zi, unstore
from engine.speclib import *
from contracts.text import *

F = 'compressor/__init__.py'
K = lambda n: '%s::%s' % (F, n)
HD = TDict(STR, STR)
HAS, VAL, ENUM = z3.ArraySort(SEQ, B), z3.ArraySort(SEQ, SEQ), z3.ArraySort(I, SEQ)
H0, V0 = z3.K(SEQ, z3.BoolVal(False)), z3.K(SEQ, EMPTY)
NUL, CRLF, SEP = zs('\0'), zs('\r\n'), zs(': ')
METHOD, PATH, VERSION, STATUS, STEXT, PHOST, HOST = [zs(x) for x in (':method', ':path', ':version', ':status', ':status-text', ':host', 'host')]
lend = lambda s: L(s)

# ---------------------------------------------------------------- reading one field line
LBODY = RecDef('LINE_BODY', [SEQ], SEQ, lambda l: z3.If(l[0] == 58, drop(l, 1), l))
LOK = RecDef('LINE_OK', [SEQ], B, lambda l: z3.And(L(l) > 0, LHAS(LBODY(l), 58)))
LNAME = RecDef('LINE_NAME', [SEQ], SEQ, lambda l: LOWER0(z3.If(l[0] == 58, cc(COL, LINE(LBODY(l), 58)), LINE(LBODY(l), 58))))
LVAL = RecDef('LINE_VALUE', [SEQ], SEQ, lambda l: STRIP(TAIL(LBODY(l), 58)))


def upd(h, v, k, x):
    """one more field: a repeated name appends after NUL"""
    return z3.Store(h, k, True), z3.Store(v, k, z3.If(h[k], cc(v[k], NUL, x), x))


def _pt(which, s, h, v):
    t, l = TAIL(s, z3.IntVal(10)), LINE(s, z3.IntVal(10))
    h2, v2 = upd(h, v, LNAME(l), LVAL(l))
    stop = z3.Or(L(s) == 0, L(t) >= L(s))
    return z3.If(stop, (h, v)[which], (PTH, PTV)[which](t, h2, v2))


def _ptc(s, h, v):
    t, l = TAIL(s, z3.IntVal(10)), LINE(s, z3.IntVal(10))
    return [(z3.And(L(s) > 0, L(t) < L(s)), (t,) + upd(h, v, LNAME(l), LVAL(l)))]


# fields of a text, added to (h, v): which names there are, and their values
PTH = RecDef('FIELDS_HAS', [SEQ, HAS, VAL], HAS, lambda s, h, v: _pt(0, s, h, v), measure=lambda s, h, v: L(s), calls=_ptc)
PTV = RecDef('FIELDS_VAL', [SEQ, HAS, VAL], VAL, lambda s, h, v: _pt(1, s, h, v), measure=lambda s, h, v: L(s), calls=_ptc)
POK = RecDef('FIELDS_OK', [SEQ], B, lambda s: z3.Or(L(s) == 0, L(TAIL(s, 10)) >= L(s), z3.And(LOK(LINE(s, 10)), POK(TAIL(s, 10)))),
             measure=lend, calls=lambda s: [(z3.And(L(s) > 0, L(TAIL(s, 10)) < L(s)), (TAIL(s, 10),))])

# the three parts of the first line
W1 = RecDef('WORD_1', [SEQ], SEQ, lambda s: sub(LSTRIP(s), 0, WLEN(LSTRIP(s))))
T1 = RecDef('AFTER_WORD_1', [SEQ], SEQ, lambda s: LSTRIP(drop(LSTRIP(s), WLEN(LSTRIP(s)))))
W2 = RecDef('WORD_2', [SEQ], SEQ, lambda s: sub(T1(s), 0, WLEN(T1(s))))
T2 = RecDef('AFTER_WORD_2', [SEQ], SEQ, lambda s: LSTRIP(drop(T1(s), WLEN(T1(s)))))
TOPOK = RecDef('TOP_LINE_OK', [SEQ], B, lambda s: z3.And(L(LSTRIP(s)) > 0, L(T1(s)) > 0, L(T2(s)) > 0))
top_defs = lambda s: [W1.unfold(s), T1.unfold(s), W2.unfold(s), T2.unfold(s), TOPOK.unfold(s)]


def msg(c):
    s = STRIP(c.o('message'))
    return s, LINE(s, 10), TAIL(s, 10)


def parse_pre(c):
    s, top, rest = msg(c)
    return [('first line has three parts', TOPOK(top)), ('field lines have names', POK(rest))]


# what parse_http1 answers for a message with first line `top` and fields (h, v)
def parsed_has(req, h, k):
    r = z3.Or(k == METHOD, k == PATH, k == VERSION, z3.And(k == PHOST, h[HOST]), z3.And(k != HOST, h[k]))
    s = z3.Or(k == VERSION, k == STATUS, k == STEXT, h[k])
    return z3.If(req, r, s)


def parsed_val(req, top, h, v, k):
    r = z3.If(k == METHOD, W1(top), z3.If(k == PATH, W2(top), z3.If(k == VERSION, STRIP(T2(top)), z3.If(z3.And(k == PHOST, h[HOST]), v[HOST], v[k]))))
    s = z3.If(k == VERSION, W1(top), z3.If(k == STATUS, W2(top), z3.If(k == STEXT, STRIP(T2(top)), v[k])))
    return z3.If(req, r, s)


def parse_post(c):
    s, top, rest = msg(c)
    d = c.result.dict_of(HD)
    k = z3.Const('hk', SEQ)
    h, v = PTH(rest, H0, V0), PTV(rest, H0, V0)
    req = c.o('is_request')
    return [('names', FA([k], d.has[k] == parsed_has(req, h, k), d.has[k])), ('values', FA([k], z3.Implies(d.has[k], d.arrs[0][k] == parsed_val(req, top, h, v, k)), d.arrs[0][k]))]


def parse_start(c):
    s, top, rest = msg(c)
    return [split_is(s, 10), REST.unfold(s, 10, 0), REST.unfold(s, 10, 1), PTH.all(lambda h, v: (EMPTY, h, v), [HAS, VAL]), PTV.all(lambda h, v: (EMPTY, h, v), [HAS, VAL])] + top_defs(top) + parse_exit(c)


def parse_inv(c):
    s, top, rest = msg(c)
    d = c.v('out').dict_of(HD)
    r = REST(s, 10, c.i + 1)
    return [('what is left to read', z3.And(PTH(r, d.has, d.arrs[0]) == PTH(rest, H0, V0), PTV(r, d.has, d.arrs[0]) == PTV(rest, H0, V0))), ('lines left are well-formed', POK(r))]


def parse_body(c):
    s, top, rest = msg(c)
    d = c.v('out').dict_of(HD)
    r = REST(s, 10, c.i + 1)
    l = LINE(r, 10)
    return [REST_N.inst(s, 10, c.i + 1), REST.unfold(s, 10, c.i + 2), CUT_IS.inst(r, 10), PTH.unfold(r, d.has, d.arrs[0]), PTV.unfold(r, d.has, d.arrs[0]), POK.unfold(r),
            LOK.unfold(l), LBODY.unfold(l), LNAME.unfold(l), LVAL.unfold(l), INDEXOF.inst(LBODY(l), 58)] + LCUT(LBODY(l), 58)


def parse_exit(c):
    s, top, rest = msg(c)
    n = PARTS(s, 10)
    return [REST.unfold(s, 10, n), REST_N.inst(s, 10, n - 1), CUT_IS.inst(REST(s, 10, n - 1), 10), PARTS_1.inst(s, 10)]


# ---------------------------------------------------------------- writing
REQ = lambda has: has[METHOD]
SKIP = RecDef('IN_FIRST_LINE', [B, SEQ], B, lambda req, k: z3.If(req, z3.Or(k == METHOD, k == PATH, k == VERSION), z3.Or(k == VERSION, k == STATUS, k == STEXT)))
REN = RecDef('FIELD_NAME', [SEQ], SEQ, lambda k: z3.If(k == PHOST, HOST, k))
# one field line per NUL-separated part
FLINE = RecDef('FIELD_LINE', [SEQ, SEQ], SEQ, lambda k, x: cc(k, SEP, x, CRLF))
FIELD = RecDef('FIELD', [SEQ, SEQ], SEQ, lambda k, w: z3.If(z3.And(LHAS(w, 0), L(TAIL(w, 0)) < L(w)), cc(FLINE(k, LINE(w, 0)), FIELD(k, TAIL(w, 0))), FLINE(k, w)),
               measure=lambda k, w: L(w), calls=lambda k, w: [(z3.And(LHAS(w, 0), L(TAIL(w, 0)) < L(w)), (k, TAIL(w, 0)))])
# fields number i.. of the dictionary, in its order e
FIELDS = RecDef('FIELDS', [B, ENUM, VAL, I, I], SEQ,
                lambda req, e, val, i, n: z3.If(i >= n, EMPTY, z3.If(SKIP(req, e[i]), FIELDS(req, e, val, i + 1, n), cc(FIELD(REN(e[i]), val[e[i]]), FIELDS(req, e, val, i + 1, n)))),
                measure=lambda req, e, val, i, n: z3.If(i < n, n - i, z3.IntVal(0)), calls=lambda req, e, val, i, n: [(i < n, (req, e, val, i + 1, n))])
get = lambda has, val, k, d: z3.If(has[k], val[k], zs(d))
VERS = lambda has, val: get(has, val, VERSION, 'HTTP/1.1')
TOP = RecDef('FIRST_LINE', [HAS, VAL], SEQ, lambda has, val: z3.If(REQ(has), cc(get(has, val, METHOD, ''), SP, get(has, val, PATH, ''), SP, VERS(has, val)),
                                                                 cc(VERS(has, val), SP, get(has, val, STATUS, ''), SP, get(has, val, STEXT, '?'))))


def text(has, val, e, n):
    return cc(TOP(has, val), CRLF, FIELDS(REQ(has), e, val, z3.IntVal(0), n), CRLF)


def hv(v):
    return v.dict.has, v.dict.arrs[0]


def fm(c):
    has, val = hv(c.o('frame'))
    n, e, pos = c.o('frame').order
    return has, val, n, e


def format_post(c):
    has, val, n, e = fm(c)
    return [('the text is first line, fields in order, blank line', c.result == text(has, val, e, n))]


def format_start(c):
    has, val, n, e = fm(c)
    return []


def joined(o):
    n = z3.simplify(o.hi - o.lo)
    if z3.is_int_value(n) and n.as_long() <= 4:
        return cc(EMPTY, *[o.arr()[o.lo + k] for k in range(n.as_long())])
    return JOIN(EMPTY, o.arr(), o.lo, o.hi)


# text in two pieces; only regrouped, never taken apart, while the text grows
CAT = RecDef('TWO_PIECES', [SEQ, SEQ], SEQ, lambda x, y: cc(x, y))
REGROUP = Lemma('regroup', [SEQ, SEQ, SEQ], lambda x, f, y: CAT(cc(x, f), y) == CAT(x, cc(f, y)), proof=lambda x, f, y: [CAT.unfold(cc(x, f), y), CAT.unfold(x, cc(f, y))])


def outer(c):
    has, val, n, e = fm(c)
    return [('written so far, then the rest', CAT(joined(c.v('out_frame')), FIELDS(REQ(has), e, val, c.i, n)) == CAT(c.v('top_line'), FIELDS(REQ(has), e, val, z3.IntVal(0), n)))]


def outer_hints(c):
    has, val, n, e = fm(c)
    k = e[c.i]
    v = val[k]
    x = joined(c.v('out_frame'))
    F2 = FIELDS(REQ(has), e, val, c.i + 1, n)
    return [FIELDS.unfold(REQ(has), e, val, c.i, n), SKIP.unfold(REQ(has), k), REN.unfold(k), split_is(v, 0), REST.unfold(v, 0, 0), PARTS_1.inst(v, 0), REGROUP.inst(x, FIELD(REN(k), v), F2), CAT.unfold(x, FIELD(REN(k), v))]


def outer_final(c):
    return [CAT.unfold(joined(c.v('out_frame')), EMPTY)]


def inner(c):
    v = c.v('val')
    r = REST(v, 0, c.i)
    left = z3.If(c.i < PARTS(v, 0), FIELD(c.v('key'), r), EMPTY)
    return [('written so far, then the rest of the value', CAT(joined(c.v('out_frame')), left) == CAT(joined(c.e('out_frame')), FIELD(c.v('key'), v)))]


def inner_hints(c):
    v = c.v('val')
    r = REST(v, 0, c.i)
    return [REST.unfold(v, 0, c.i + 1), REST_N.inst(v, 0, c.i), CUT_IS.inst(r, 0), FIELD.unfold(c.v('key'), r), FLINE.unfold(c.v('key'), LINE(r, 0))]


def inner_final(c):
    o = c.v('out_frame')
    a, b, lo, hi = o.arr(), unstore(o.arr()), o.lo, o.hi
    v, k = c.v('val'), c.v('key')
    x = JOIN(EMPTY, b, lo, hi - 4)
    part = LINE(REST(v, 0, c.i - 1), 0)
    left = z3.If(c.i < PARTS(v, 0), FIELD(k, REST(v, 0, c.i)), EMPTY)
    return [JOIN_EXT.inst(EMPTY, b, a, lo, hi - 4)] + [JOIN_SNOC.inst(a, lo, hi - j) for j in (4, 3, 2, 1)] + [
        JOIN(EMPTY, a, lo, hi) == cc(x, FLINE(k, part)), FIELD(k, REST(v, 0, c.i - 1)) == cc(FLINE(k, part), left), REGROUP.inst(x, FLINE(k, part), left)]


def format_exit(c):
    o = c.v('out_frame')
    a, b, lo, hi = o.arr(), unstore(o.arr()), o.lo, o.hi
    has, val, n, e = fm(c)
    F = lambda i: FIELDS(REQ(has), e, val, i, n)
    return [TOP.unfold(has, val), F_END.inst(REQ(has), e, val, n), CAT.unfold(JOIN(EMPTY, b, lo, hi - 1), EMPTY), CAT.unfold(c.v('top_line'), F(z3.IntVal(0))), JOIN_EXT.inst(EMPTY, b, a, lo, hi - 1), JOIN_SNOC.inst(a, lo, hi - 1)]


F_END = Lemma('no-fields-left', [B, ENUM, VAL, I], lambda q, e, v, n: FIELDS(q, e, v, n, n) == EMPTY, proof=lambda q, e, v, n: [FIELDS.unfold(q, e, v, n, n)])
contracts = [
    Contract(K('format_http1'), {'frame': HD}, returns=STR, ensures=format_post, pre_hints=format_start, exit_hints=format_exit,
             merge_get=True, loops={0: Loop(inv=outer, hints=outer_hints, final=outer_final), 1: Loop(inv=inner, hints=inner_hints, final=inner_final)}),
    Contract(K('parse_http1'), {'message': STR, 'is_request': BOOL}, returns=HD, requires=parse_pre, ensures=parse_post, pre_hints=parse_start,
             loops={0: Loop(inv=parse_inv, hints=parse_body)}),
]

# ---------------------------------------------------------------- the theorem: reading what was written
# a header name: not empty, lower case, one line, no colon after the first character
WFN = RecDef('NAME_OK', [SEQ], B, lambda k: z3.And(L(k) > 0, LOWER0(k) == k, NOC(k, 10), NOC(LBODY(k), 58)))
# a header value: NUL-separated trimmed one-line parts
WFV = RecDef('VALUE_OK', [SEQ], B, lambda w: z3.If(z3.And(LHAS(w, 0), L(TAIL(w, 0)) < L(w)), z3.And(TRIM(LINE(w, 0)), WFV(TAIL(w, 0))), TRIM(w)),
             measure=lend, calls=lambda w: [(z3.And(LHAS(w, 0), L(TAIL(w, 0)) < L(w)), (TAIL(w, 0),))])

AWS_CC = Lemma('white-space-concatenation', [SEQ, SEQ], lambda x, y: AWS(cc(x, y)) == z3.And(AWS(x), AWS(y)), proof=lambda x, y: [AWS.unfold(y), AWS.unfold(cc(x, y)), CC_INIT.inst(x, y)],
               ih=lambda x, y: [(L(y) > 0, (x, sub(y, 0, L(y) - 1)))], measure=lambda x, y: L(y))
# name, colon, anything: the name and the trimmed rest are read
LINE_RD = Lemma('field-line-is-read', [SEQ, SEQ], lambda k, x: z3.Implies(WFN(k), z3.And(LOK(cc(k, COL, x)), LNAME(cc(k, COL, x)) == k, LVAL(cc(k, COL, x)) == STRIP(x))),
                proof=lambda k, x: [WFN.unfold(k), LBODY.unfold(k), LBODY.unfold(cc(k, COL, x)), LOK.unfold(cc(k, COL, x)), LNAME.unfold(cc(k, COL, x)), LVAL.unfold(cc(k, COL, x)),
                                    CUT.inst(LBODY(k), 58, x, cc(LBODY(k), COL, x))])


def _rd(s, l, R, h, v, k, x):
    """text s has first line l (name k, value x) and rest R"""
    return z3.And(PTH(s, h, v) == PTH(R, *upd(h, v, k, x)), PTV(s, h, v) == PTV(R, *upd(h, v, k, x)), POK(s) == POK(R))


def _pt_unf(s, h, v):
    return [PTH.unfold(s, h, v), PTV.unfold(s, h, v), POK.unfold(s)]


# one line of a text, followed by another line / at the end
MORE = Lemma('a-line-and-more', [SEQ, SEQ, SEQ, HAS, VAL], lambda k, x, R, h, v: z3.Implies(z3.And(WFN(k), NOC(x, 10)), _rd(cc(k, COL, x, NL, R), None, R, h, v, k, STRIP(x))),
             proof=lambda k, x, R, h, v: [LINE_RD.inst(k, x), WFN.unfold(k), NOC_CC.inst(k, cc(COL, x), 10), NOC_CC.inst(COL, x, 10), NOC.unfold(COL, 10), NOC.unfold(EMPTY, 10), CUT.inst(cc(k, COL, x), 10, R, cc(k, COL, x, NL, R))] + _pt_unf(cc(k, COL, x, NL, R), h, v))
LAST = Lemma('the-last-line', [SEQ, SEQ, HAS, VAL], lambda k, x, h, v: z3.Implies(z3.And(WFN(k), NOC(x, 10)), _rd(cc(k, COL, x), None, EMPTY, h, v, k, STRIP(x))),
             proof=lambda k, x, h, v: [LINE_RD.inst(k, x), WFN.unfold(k), NOC_CC.inst(k, cc(COL, x), 10), NOC_CC.inst(COL, x, 10), NOC.unfold(COL, 10), NOC.unfold(EMPTY, 10), NOCUT.inst(cc(k, COL, x), 10)] + _pt_unf(cc(k, COL, x), h, v) + _pt_unf(EMPTY, *upd(h, v, k, STRIP(x))))
# a field line at the start of a text that ends in blanks which are stripped
SP_NOC = lambda v: [NOC_CC.inst(SP, cc(v, CR), 10), NOC_CC.inst(v, CR, 10), NOC_CC.inst(SP, v, 10), NOC.unfold(SP, 10), NOC.unfold(CR, 10), NOC.unfold(EMPTY, 10)]
LINE_STEP = Lemma('field-line-step', [SEQ, SEQ, SEQ, HAS, VAL], lambda k, x, R, h, v: z3.Implies(z3.And(WFN(k), TRIM(x)), _rd(RS(cc(FLINE(k, x), R)), None, RS(R), h, v, k, x)),
                  proof=lambda k, x, R, h, v: [FLINE.unfold(k, x), TRIM.unfold(x), STRIP_V.inst(x), STRIP.unfold(EMPTY),
                                               RS_CC.inst(FLINE(k, x), R), RS_WS.inst(R),
                                               RS_CC.inst(cc(k, SEP, x), CRLF), RS_CC.inst(cc(k, COL), cc(SP, x)), RS_CC.inst(k, COL), AWS_CC.inst(SP, x),
                                               AWS.unfold(CRLF), AWS.unfold(CR), AWS.unfold(SP), AWS.unfold(EMPTY), AWS.unfold(COL), AWS.unfold(x), RS.unfold(COL), RS.unfold(cc(SP, x)), RS.unfold(EMPTY),
                                               MORE.inst(k, cc(SP, x, CR), RS(R), h, v), LAST.inst(k, cc(SP, x), h, v), LAST.inst(k, EMPTY, h, v)] + SP_NOC(x) + [WS.unfold(z3.IntVal(c)) for c in (10, 13, 32, 58)],
                  cases=lambda k, x, R, h, v: [z3.Not(AWS(R)), z3.And(AWS(R), L(x) == 0), z3.And(AWS(R), L(x) > 0)])
FIELD_STEP = Lemma('field-step', [SEQ, SEQ, SEQ, HAS, VAL], lambda k, w, R, h, v: z3.Implies(z3.And(WFN(k), WFV(w)), _rd(RS(cc(FIELD(k, w), R)), None, RS(R), h, v, k, w)),
                   proof=lambda k, w, R, h, v: [FIELD.unfold(k, w), WFV.unfold(w), CUT_IS.inst(w, 0), LINE_STEP.inst(k, w, R, h, v), LINE_STEP.inst(k, LINE(w, 0), cc(FIELD(k, TAIL(w, 0)), R), h, v)],
                   ih=lambda k, w, R, h, v: [(z3.And(LHAS(w, 0), L(TAIL(w, 0)) < L(w)), (k, TAIL(w, 0), R) + upd(h, v, k, LINE(w, 0)))], measure=lambda k, w, R, h, v: L(w))
POS = z3.ArraySort(SEQ, I)
# e[0..n) lists the names of the dictionary, each once
LISTED = RecDef('LISTS_NAMES', [HAS, ENUM, POS, I], B, lambda has, e, pos, n: FA([z3.Int('lj')], z3.Implies(z3.And(0 <= z3.Int('lj'), z3.Int('lj') < n), z3.And(has[e[z3.Int('lj')]], pos[e[z3.Int('lj')]] == z3.Int('lj'))), e[z3.Int('lj')]))
# every header that gets a field line has a good name and value
FOK = RecDef('HEADERS_OK', [HAS, VAL], B, lambda has, val: FA([z3.Const('fk', SEQ)], z3.Implies(z3.And(has[z3.Const('fk', SEQ)], z3.Not(SKIP(REQ(has), z3.Const('fk', SEQ)))),
                                                                                       z3.And(WFN(z3.Const('fk', SEQ)), WFN(REN(z3.Const('fk', SEQ))), WFV(val[z3.Const('fk', SEQ)]))), has[z3.Const('fk', SEQ)]))
# the header a field name stands for; is it among the headers from number i on?
SRC = RecDef('HEADER_OF', [HAS, SEQ], SEQ, lambda has, k: z3.If(z3.And(k == HOST, has[PHOST]), PHOST, k))
INF = RecDef('WRITTEN_FROM', [HAS, POS, I, SEQ], B, lambda has, pos, i, k: z3.And(has[SRC(has, k)], z3.Not(SKIP(REQ(has), SRC(has, k))), k != PHOST, pos[SRC(has, k)] >= i))


def body(has, val, e, i, n):
    """text from header number i to the end"""
    return RS(cc(FIELDS(REQ(has), e, val, i, n), CRLF))


def _fs(has, val, e, pos, i, n, h, v, k):
    s = body(has, val, e, i, n)
    pre = z3.And(LISTED(has, e, pos, n), FOK(has, val), z3.Not(z3.And(has[HOST], has[PHOST])), i >= 0, i <= n, z3.Implies(has[SRC(has, k)], pos[SRC(has, k)] < n), z3.Implies(has[SRC(has, k)], e[pos[SRC(has, k)]] == SRC(has, k)),
                 z3.Implies(INF(has, pos, i, k), z3.Not(h[k])))
    return z3.Implies(pre, z3.And(POK(s), PTH(s, h, v)[k] == z3.Or(h[k], INF(has, pos, i, k)), PTV(s, h, v)[k] == z3.If(INF(has, pos, i, k), val[SRC(has, k)], v[k])))


def _fsp(has, val, e, pos, i, n, h, v, k):
    r = REN(e[i])
    F2 = cc(FIELDS(REQ(has), e, val, i + 1, n), CRLF)
    return [FIELDS.unfold(REQ(has), e, val, i, n), LISTED.unfold(has, e, pos, n), FOK.unfold(has, val), SRC.unfold(has, k), SRC.unfold(has, r), REN.unfold(e[i]), INF.unfold(has, pos, i, k), INF.unfold(has, pos, i + 1, k),
            FIELD_STEP.inst(r, val[e[i]], F2, h, v), RS_WS.inst(CRLF), AWS.unfold(CRLF), AWS.unfold(CR), AWS.unfold(EMPTY), WS.unfold(z3.IntVal(10)), WS.unfold(z3.IntVal(13)),
            POK.unfold(EMPTY), PTH.unfold(EMPTY, h, v), PTV.unfold(EMPTY, h, v)]


FIELDS_STEP = Lemma('all-field-lines-are-read', [HAS, VAL, ENUM, POS, I, I, HAS, VAL, SEQ], _fs, proof=_fsp,
                    ih=lambda has, val, e, pos, i, n, h, v, k: [(z3.And(i < n, SKIP(REQ(has), e[i])), (has, val, e, pos, i + 1, n, h, v, k)),
                                                                (z3.And(i < n, z3.Not(SKIP(REQ(has), e[i]))), (has, val, e, pos, i + 1, n) + upd(h, v, REN(e[i]), val[e[i]]) + (k,))],
                    measure=lambda has, val, e, pos, i, n, h, v, k: z3.If(i < n, n - i, z3.IntVal(0)),
                    cases=lambda has, val, e, pos, i, n, h, v, k: [i >= n, z3.And(i < n, SKIP(REQ(has), e[i])), z3.And(i < n, z3.Not(SKIP(REQ(has), e[i])), REN(e[i]) == k), z3.And(i < n, z3.Not(SKIP(REQ(has), e[i])), REN(e[i]) != k)])

# the first line: two words and a phrase
WORD = lambda w: z3.And(NOWS(w), L(w) > 0)
FIRST = Lemma('first-word', [SEQ, SEQ], lambda a, y: z3.Implies(z3.And(WORD(a), L(y) > 0, z3.Not(WS(y[0]))), z3.And(LSTRIP(cc(a, SP, y)) == cc(a, SP, y), WLEN(cc(a, SP, y)) == L(a), sub(cc(a, SP, y), 0, L(a)) == a,
                                                                                                         LSTRIP(drop(cc(a, SP, y), L(a))) == y)),
              proof=lambda a, y: [NOWS.unfold(a), LSTRIP.unfold(cc(a, SP, y)), LSTRIP.unfold(cc(SP, y)), LSTRIP.unfold(y), WORD_IS.inst(a, cc(SP, y)), WS.unfold(z3.IntVal(32))])


PARTW = Lemma('first-word-of-a-line', [SEQ, SEQ, SEQ], lambda a, u, t: z3.Implies(z3.And(t == cc(a, SP, u), WORD(a), L(u) > 0, z3.Not(WS(u[0]))), z3.And(L(LSTRIP(t)) > 0, W1(t) == a, T1(t) == u)),
              proof=lambda a, u, t: [W1.unfold(t), T1.unfold(t), FIRST.inst(a, u)])
PARTW2 = Lemma('second-word-of-a-line', [SEQ, SEQ, SEQ, SEQ], lambda t, b, p, u: z3.Implies(z3.And(T1(t) == u, u == cc(b, SP, p), WORD(b), L(p) > 0, z3.Not(WS(p[0]))), z3.And(W2(t) == b, T2(t) == p)),
               proof=lambda t, b, p, u: [W2.unfold(t), T2.unfold(t), FIRST.inst(b, p)])


def _top(a, b, v, z):
    t = cc(a, SP, b, SP, v, z)
    return z3.Implies(z3.And(WORD(a), WORD(b), TRIM(v), L(v) > 0, z3.Or(z == EMPTY, z == CR)), z3.And(TOPOK(t), W1(t) == a, W2(t) == b, STRIP(T2(t)) == v))


def _topp(a, b, v, z):
    t = cc(a, SP, b, SP, v, z)
    u = cc(b, SP, v, z)
    return [TOPOK.unfold(t), NOWS.unfold(b), TRIM.unfold(v), PARTW.inst(a, u, t), PARTW2.inst(t, b, cc(v, z), u), STRIP_V.inst(v)]


TOP_NOC = Lemma('first-line-is-one-line', [SEQ, SEQ, SEQ, SEQ], lambda a, b, v, z: z3.Implies(z3.And(NOWS(a), NOWS(b), TRIM(v), z3.Or(z == EMPTY, z == CR)), NOC(cc(a, SP, b, SP, v, z), 10)),
                proof=lambda a, b, v, z: [TRIM.unfold(v), WORD_NOC.inst(a), WORD_NOC.inst(b), NOC_CC.inst(a, cc(SP, b, SP, v, z), 10), NOC_CC.inst(SP, cc(b, SP, v, z), 10), NOC_CC.inst(b, cc(SP, v, z), 10),
                                          NOC_CC.inst(SP, cc(v, z), 10), NOC_CC.inst(v, z, 10), NOC.unfold(SP, 10), NOC.unfold(CR, 10), NOC.unfold(EMPTY, 10)])
TOP_RD = Lemma('first-line-is-read', [SEQ, SEQ, SEQ, SEQ], _top, proof=_topp, cases=lambda a, b, v, z: [z == EMPTY, z == CR, z3.And(z != EMPTY, z != CR)])


def _msg(a, b, v, R):
    s = STRIP(cc(a, SP, b, SP, v, CRLF, R))
    l = LINE(s, z3.IntVal(10))
    return z3.Implies(z3.And(WORD(a), WORD(b), TRIM(v), L(v) > 0), z3.And(TOPOK(l), W1(l) == a, W2(l) == b, STRIP(T2(l)) == v, TAIL(s, z3.IntVal(10)) == RS(R)))


def _msgp(a, b, v, R):
    t = cc(a, SP, b, SP, v)
    T = cc(t, CRLF, R)
    return [TOP_RD.inst(a, b, v, EMPTY), TOP_RD.inst(a, b, v, CR), TOP_NOC.inst(a, b, v, EMPTY), TOP_NOC.inst(a, b, v, CR), NOWS.unfold(a), TRIM.unfold(v), STRIP.unfold(T), RS_CC.inst(cc(t, CRLF), R), RS_CC.inst(t, CRLF), RS.unfold(t), RS_WS.inst(R), AWS.unfold(CRLF), AWS.unfold(CR), AWS.unfold(EMPTY),
            WS.unfold(z3.IntVal(10)), WS.unfold(z3.IntVal(13)), CUT.inst(cc(t, CR), 10, RS(R), cc(t, CRLF, RS(R))), NOCUT.inst(t, 10)]


MSG = Lemma('message-splits-into-first-line-and-fields', [SEQ, SEQ, SEQ, SEQ], _msg, proof=_msgp, cases=lambda a, b, v, R: [AWS(R), z3.Not(AWS(R))])

# a well-formed header dictionary
PHRASE = lambda x: z3.And(TRIM(x), L(x) > 0)


def _wf(has, val):
    req = z3.And(has[PATH], WORD(val[METHOD]), WORD(val[PATH]), z3.Implies(has[VERSION], PHRASE(val[VERSION])), z3.Not(has[HOST]))
    res = z3.And(has[STATUS], WORD(val[STATUS]), z3.Implies(has[VERSION], WORD(val[VERSION])), z3.Implies(has[STEXT], PHRASE(val[STEXT])), z3.Not(has[PHOST]))
    return z3.And(FOK(has, val), z3.If(REQ(has), req, res))


WF = RecDef('WELL_FORMED', [HAS, VAL], B, _wf)


def _thm(has, val, e, pos, n, k):
    s = STRIP(text(has, val, e, n))
    top, rest = LINE(s, z3.IntVal(10)), TAIL(s, z3.IntVal(10))
    h, v = PTH(rest, H0, V0), PTV(rest, H0, V0)
    x = SRC(has, k)
    req = REQ(has)
    known = z3.Or(has[k], k == VERSION, z3.And(z3.Not(req), k == STEXT))
    pre = z3.And(WF(has, val), LISTED(has, e, pos, n), n >= 0, z3.Implies(has[x], z3.And(pos[x] >= 0, pos[x] < n, e[pos[x]] == x)), z3.Implies(has[PHOST], z3.And(pos[PHOST] >= 0, pos[PHOST] < n, e[pos[PHOST]] == PHOST)))
    return z3.Implies(pre, z3.And(TOPOK(top), POK(rest), parsed_has(req, h, k) == known,
                                  z3.Implies(known, parsed_val(req, top, h, v, k) == z3.If(has[k], val[k], z3.If(k == VERSION, zs('HTTP/1.1'), zs('?'))))))


def _thmp(has, val, e, pos, n, k):
    req = REQ(has)
    R = cc(FIELDS(req, e, val, z3.IntVal(0), n), CRLF)
    lits = []
    for w in ('HTTP/1.1', '?'):
        lits += [NOWS.unfold(zs(w[i:]) if w[i:] else EMPTY) for i in range(len(w) + 1)] + [TRIM.unfold(zs(w))] + [NOC.unfold(zs(w[i:]) if w[i:] else EMPTY, 10) for i in range(len(w) + 1)] + [WS.unfold(z3.IntVal(ord(c))) for c in w]
    v = VERS(has, val)
    return [WF.unfold(has, val), TOP.unfold(has, val), MSG.inst(val[METHOD], val[PATH], v, R), MSG.inst(v, val[STATUS], get(has, val, STEXT, '?'), R),
            FIELDS_STEP.inst(has, val, e, pos, z3.IntVal(0), n, H0, V0, k), FIELDS_STEP.inst(has, val, e, pos, z3.IntVal(0), n, H0, V0, HOST),
            SRC.unfold(has, k), SRC.unfold(has, HOST), INF.unfold(has, pos, z3.IntVal(0), k), INF.unfold(has, pos, z3.IntVal(0), HOST), SKIP.unfold(req, SRC(has, k)), SKIP.unfold(req, PHOST)] + lits


ROUNDTRIP = Lemma('http1-message-is-read-back', [HAS, VAL, ENUM, POS, I, SEQ], _thm, proof=_thmp, cases=lambda has, val, e, pos, n, k: [REQ(has), z3.Not(REQ(has))])
LEMMAS = [ROUNDTRIP]


def load(P):
    P.add([F], 3)
