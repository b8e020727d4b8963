"""http2: the header tables (accounted size, eviction) and the termination of the encoder"""
import z3
from engine.types import *
from engine.symex import Contract, Loop, cat, zs, zi, zb
from engine.speclib import *
from contracts import http2 as base
from contracts.http2 import F, K, ENTRY

HDR = TTuple(STR, STR)
CODEC = TObj(F + '::HTTP2Codec', {
    'max_encoder_size': INT, 'max_decoder_size': INT, 'is_request': BOOL,
    'encoder_table': TList(ENTRY), 'encoder_table_size': INT,
    'decoder_table': TList(ENTRY), 'decoder_table_size': INT,
    'encoded_stream': STR, 'decoded_stream': STR, 'decoded_stream_index': INT,
    'ghost_written': INT})
SA = SEQARR
_m = lambda a, b, lo, hi, *r: z3.If(hi > lo, hi - lo, z3.IntVal(0))
EL = lambda n, v: L(n) + L(v) + 32
# what a table of entries with these names and values accounts for
SIZE = RecDef('TABLE_SIZE', [SA, SA, I, I], I, lambda a, b, lo, hi: z3.If(hi <= lo, z3.IntVal(0), EL(a[lo], b[lo]) + SIZE(a, b, lo + 1, hi)), measure=_m, calls=lambda a, b, lo, hi: [(hi > lo, (a, b, lo + 1, hi))])
_j = z3.Int('ts_j')
SAME = lambda a, b, c, d, lo, hi: z3.ForAll([_j], z3.Implies(z3.And(_j >= lo, _j < hi), z3.And(a[_j] == c[_j], b[_j] == d[_j])))
ih1 = lambda a, b, *r: [(r[-1] > r[-2], (a, b) + r[:-2] + (r[-2] + 1, r[-1]))]
SIZE_EXT = Lemma('table-size-of-equal-tables', [SA, SA, SA, SA, I, I], lambda a, b, c, d, lo, hi: z3.Implies(SAME(a, b, c, d, lo, hi), SIZE(a, b, lo, hi) == SIZE(c, d, lo, hi)),
                 proof=lambda a, b, c, d, lo, hi: [SIZE.unfold(a, b, lo, hi), SIZE.unfold(c, d, lo, hi)], ih=ih1, measure=lambda a, b, c, d, lo, hi: _m(a, b, lo, hi))
SIZE_SNOC = Lemma('table-size-append', [SA, SA, I, I], lambda a, b, lo, hi: z3.Implies(lo <= hi, SIZE(a, b, lo, hi + 1) == SIZE(a, b, lo, hi) + EL(a[hi], b[hi])),
                  proof=lambda a, b, lo, hi: [SIZE.unfold(a, b, lo, hi), SIZE.unfold(a, b, lo, hi + 1), SIZE.unfold(a, b, lo + 1, hi + 1)], ih=ih1, measure=_m)
SIZE_POS = Lemma('table-size-not-negative', [SA, SA, I, I], lambda a, b, lo, hi: SIZE(a, b, lo, hi) >= 0, proof=lambda a, b, lo, hi: [SIZE.unfold(a, b, lo, hi)], ih=ih1, measure=_m)
SIZE_SPLIT = Lemma('table-size-split', [SA, SA, I, I, I], lambda a, b, m, lo, hi: z3.Implies(z3.And(lo <= m, m <= hi), SIZE(a, b, lo, hi) == SIZE(a, b, lo, m) + SIZE(a, b, m, hi)),
                   proof=lambda a, b, m, lo, hi: [SIZE.unfold(a, b, lo, hi), SIZE.unfold(a, b, lo, m)],
                   ih=lambda a, b, m, lo, hi: [(z3.And(lo < m, m <= hi), (a, b, m, lo + 1, hi))], measure=lambda a, b, m, lo, hi: _m(a, b, lo, hi))
SIZE_SHIFT = Lemma('table-size-shift', [SA, SA, SA, SA, I, I], lambda a, b, c, d, lo, hi: z3.Implies(z3.ForAll([_j], z3.Implies(z3.And(_j >= lo, _j < hi), z3.And(a[_j] == c[_j + 1], b[_j] == d[_j + 1]))), SIZE(a, b, lo, hi) == SIZE(c, d, lo + 1, hi + 1)),
                   proof=lambda a, b, c, d, lo, hi: [SIZE.unfold(a, b, lo, hi), SIZE.unfold(c, d, lo + 1, hi + 1)], ih=ih1, measure=lambda a, b, c, d, lo, hi: _m(a, b, lo, hi))
# after evicting oldest entries until `need` more fits in `mx` (or nothing is left): the first entry kept
KEEP = RecDef('TABLE_KEEP', [SA, SA, I, I, I, I], I, lambda a, b, need, mx, lo, hi: z3.If(z3.Or(hi <= lo, SIZE(a, b, lo, hi) + need <= mx), lo, KEEP(a, b, need, mx, lo + 1, hi)),
              measure=lambda a, b, need, mx, lo, hi: _m(a, b, lo, hi), calls=lambda a, b, need, mx, lo, hi: [(hi > lo, (a, b, need, mx, lo + 1, hi))])
KEEP_POS = Lemma('table-keep-is-a-suffix', [SA, SA, I, I, I, I], lambda a, b, need, mx, lo, hi: z3.Implies(lo <= hi, z3.And(lo <= KEEP(a, b, need, mx, lo, hi), KEEP(a, b, need, mx, lo, hi) <= hi)),
                 proof=lambda a, b, need, mx, lo, hi: [KEEP.unfold(a, b, need, mx, lo, hi)], ih=ih1, measure=lambda a, b, need, mx, lo, hi: _m(a, b, lo, hi))


HP = ENTRY.slot('header')[0]
FLAGS = [(f, ENTRY.slot(f)[0]) for f in ('age', 'referenced', 'emitted')]


def flags(o, side):
    a = getattr(o, side + 'coder_table').sym(ENTRY).arrs
    return [a[p] for f, p in FLAGS]


def tab(o, side):
    """(names, values, lo, hi, size, max) of one side's table"""
    t = getattr(o, side + 'coder_table')
    if t._lc().items is not None and t._lc().items == ():
        e = z3.K(I, EMPTY)
        return (e, e, z3.IntVal(0), z3.IntVal(0), getattr(o, side + 'coder_table_size'), getattr(o, 'max_%scoder_size' % side))
    t = t.sym(ENTRY)
    a = t.arrs
    return (a[HP], a[HP + 1], t.lo, t.hi, getattr(o, side + 'coder_table_size'), getattr(o, 'max_%scoder_size' % side))


def ok(o, side):
    a, b, lo, hi, s, mx = tab(o, side)
    return s == SIZE(a, b, lo, hi)


def both(o):
    return [ok(o, 'en'), ok(o, 'de')]


def same_headers(c, side, f='self'):
    """the operation leaves names, values and extent of the table alone"""
    x, y = tab(c.o(f), side), tab(c.p(f), side)
    return z3.And([p == q for p, q in zip(x[:5], y[:5])])


def ap_post(c, side, dropped=False):
    a, b, lo, hi, s, mx = tab(c.o('self'), side)
    a2, b2, lo2, hi2, s2, mx2 = tab(c.p('self'), side)
    e = c.o('entry').header
    n, v = e[0], e[1]
    need = EL(n, v)
    k = KEEP(a, b, need, mx, lo, hi)
    fits = SIZE(a, b, k, hi) + need <= mx
    out = [('accounted size', s2 == SIZE(a2, b2, lo2, hi2)),
           ('at most the buffer size', s2 <= mx),
           ('oldest first and no more than needed', lo2 == k),
           ('the new entry comes last', z3.If(fits, z3.And(hi2 == hi + 1, a2 == z3.Store(a, hi, n), b2 == z3.Store(b, hi, v)), z3.And(hi2 == hi, lo2 == hi2, a2 == a, b2 == b)))]
    t1, t2 = flags(c.o('self'), side), flags(c.p('self'), side)
    en = c.o('entry')
    out.append(('other fields kept', z3.If(fits, z3.And([y == z3.Store(x, hi, w) for x, y, w in zip(t1, t2, (zi(en.age), zb(en.referenced), zb(en.emitted)))]), z3.And([x == y for x, y in zip(t1, t2)]))))
    if dropped:
        out.append(('number of entries dropped', c.result == k - lo))
    return out


def ap_inv(c, side):
    a, b, lo, hi, s, mx = tab(c.ep('self'), side)
    a2, b2, lo2, hi2, s2, mx2 = tab(c.p('self'), side)
    need = c.v('size')
    out = [('size', s2 == SIZE(a2, b2, lo2, hi2)), ('same entries', z3.And(a2 == a, b2 == b, hi2 == hi, lo <= lo2, lo2 <= hi2)),
           ('keeps', KEEP(a, b, need, mx, lo, hi) == KEEP(a, b, need, mx, lo2, hi))]
    t1, t2 = flags(c.ep('self'), side), flags(c.p('self'), side)
    out.append(('flags', z3.And([x == y for x, y in zip(t1, t2)])))
    if c.has('dropped_number'):
        out.append(('dropped', c.v('dropped_number') == lo2 - lo))
    return out


def ap_hints(c, side):
    a2, b2, lo2, hi2, s2, mx2 = tab(c.p('self'), side)
    return [SIZE.unfold(a2, b2, lo2, hi2), KEEP.unfold(a2, b2, c.v('size'), mx2, lo2, hi2)]


def ap_exit(c, side):
    a, b, lo, hi, s, mx = tab(c.o('self'), side)
    a2, b2, lo2, hi2, s2, mx2 = tab(c.p('self'), side)
    e = c.o('entry').header
    k = KEEP(a, b, EL(e[0], e[1]), mx, lo, hi)
    return [SIZE.unfold(a, b, k, hi), KEEP.unfold(a, b, EL(e[0], e[1]), mx, k, hi), SIZE_EXT.inst(a, b, a2, b2, k, hi), SIZE_SNOC.inst(a2, b2, k, hi), SIZE.unfold(a2, b2, hi, hi)]


def append(name, side, dropped):
    t = 'self.%scoder_table' % side
    return Contract(K(name), {'self': CODEC, 'entry': ENTRY}, returns=INT if dropped else None,
                    requires=lambda c: [ok(c.v('self'), side), tab(c.v('self'), side)[5] >= 0],
                    ensures=lambda c: ap_post(c, side, dropped), modifies=[t, t + '_size'],
                    exit_hints=lambda c: ap_exit(c, side),
                    loops={0: Loop(inv=lambda c: ap_inv(c, side), hints=lambda c: ap_hints(c, side), dec=lambda c: tab(c.p('self'), side)[3] - tab(c.p('self'), side)[2])})


def find_post(c, whole):
    a, b, lo, hi, s, mx = tab(c.o('self'), 'en')
    h = c.o('header')
    r, j = c.result, z3.Int('fh_j')
    eq = lambda k: z3.And(a[k] == h[0], b[k] == h[1]) if whole else a[k] == h[0]
    return [('in the table or -1', z3.And(r >= -1, r < hi - lo)), ('is the header', z3.Implies(r >= 0, eq(lo + r))),
            ('the first one', z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < z3.If(r >= 0, lo + r, hi)), z3.Not(eq(j))), patterns=[a[j]]))]


def find_inv(c, whole):
    a, b, lo, hi, s, mx = tab(c.o('self'), 'en')
    h = c.o('header')
    j = z3.Int('fh_j')
    eq = lambda k: z3.And(a[k] == h[0], b[k] == h[1]) if whole else a[k] == h[0]
    return [('not among the first', z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < lo + c.i), z3.Not(eq(j))), patterns=[a[j]]))]


def find(name, whole):
    return Contract(K(name), {'self': CODEC, 'header': HDR}, returns=INT, ensures=lambda c: find_post(c, whole), loops={0: Loop(inv=lambda c: find_inv(c, whole))})


sub1 = lambda nm, **kw: [x for x in base.contracts if x.key == K(nm)][0]
base_contracts = base.contracts_for(CODEC)
WRITERS = [x for x in base_contracts if 'write' in x.key]
TBL = ['self.encoder_table', 'self.encoder_table_size', 'self.encoded_stream', 'self.ghost_written']


def room(o, side='en'):
    return tab(o, side)[5] >= 0


def step_post(c):
    """what every encoder step keeps: the accounted size; at most the buffer size once changed"""
    a, b, lo, hi, s, mx = tab(c.o('self'), 'en')
    a2, b2, lo2, hi2, s2, mx2 = tab(c.p('self'), 'en')
    return [('accounted size', s2 == SIZE(a2, b2, lo2, hi2)), ('at most the buffer size, or unchanged', z3.Or(s2 <= mx, z3.And(a2 == a, b2 == b, lo2 == lo, hi2 == hi, s2 == s)))]


def bump(eng, fr):
    o = fr.env['self']
    eng.set_field(o, 'ghost_written', eng.get_field(o, 'ghost_written') + 1)


encode_header = Contract(K('encode_header'), {'self': CODEC, 'header': HDR}, modifies=TBL, ghost=bump,
                         requires=lambda c: [ok(c.v('self'), 'en'), room(c.v('self'))],
                         ensures=lambda c: step_post(c) + [('counted once', c.p('self').ghost_written == c.o('self').ghost_written + 1)])


def eh_inv(c):
    a, b, lo, hi, s, mx = tab(c.o('self'), 'en')
    a2, b2, lo2, hi2, s2, mx2 = tab(c.p('self'), 'en')
    return [('accounted size', s2 == SIZE(a2, b2, lo2, hi2)), ('at most the buffer size, or unchanged', z3.Or(s2 <= mx, z3.And(a2 == a, b2 == b, lo2 == lo, hi2 == hi, s2 == s)))]


def unch(c):
    return [('headers unchanged', same_headers(c, 'en'))]


written = lambda c: c.p('self').ghost_written - c.o('self').ghost_written
encode_headers = Contract(K('encode_headers'), {'self': CODEC, 'headers': TList(HDR)}, returns=STR, modifies=TBL,
                          requires=lambda c: [ok(c.v('self'), 'en'), room(c.v('self'))],
                          raises=lambda c: z3.BoolVal(True), raises_may=True,
                          ensures=lambda c: step_post(c) + [('every header is written at most once', written(c) <= c.o('headers').len)],
                          loops={0: Loop(inv=lambda c: unch(c) + [('none written', written(c) == 0)]),
                                 1: Loop(inv=lambda c: eh_inv(c) + [('written', written(c) == c.i)]),
                                 2: Loop(inv=lambda c: eh_inv(c) + [('written', written(c) + c.v('referenced_headers').len <= c.o('headers').len)],
                                         types={'referenced_headers': TList(HDR), 'remaining_headers': TList(HDR)},
                                         dec=lambda c: 2 * c.v('referenced_headers').len + z3.If(zb(c.v('encoded_headers')), z3.IntVal(1), z3.IntVal(0))),
                                 3: Loop(inv=lambda c: eh_inv(c) + [('written', written(c) - c.ep('self').ghost_written + c.o('self').ghost_written == c.i - c.v('remaining_headers').len),
                                                                    ('progress', zb(c.v('encoded_headers')) == (c.v('remaining_headers').len < c.i)),
                                                                    ('remaining', c.v('remaining_headers').len <= c.i)], types={'remaining_headers': TList(HDR)})})

REMS = TTuple(TList(INT), TList(HDR), TList(HDR))
compute_diff = Contract(K('compute_diff'), {'self': CODEC, 'headers': TList(HDR)}, returns=REMS, modifies=['self.encoder_table'],
                        ensures=lambda c: unch(c) + [('kept and remaining make up the headers', c.result[1].len + c.result[2].len == c.o('headers').len),
                                                     ('removed are places in the table', in_table(c, c.result[0]))],
                        loops={0: Loop(inv=unch),
                               1: Loop(inv=lambda c: unch(c) + [('kept and remaining', c.v('referenced_headers').len + c.v('remaining_headers').len == c.i)], types={'remaining_headers': TList(HDR), 'referenced_headers': TList(HDR)}),
                               2: Loop(inv=lambda c: unch(c) + [('removed are places in the table', in_table(c, c.v('removed_headers')))], types={'removed_headers': TList(INT, z=True)})})


def in_table(c, l):
    if z3.is_int_value(l.len) and l.len.as_long() == 0:
        return z3.BoolVal(True)
    j = z3.Int('rm_j')
    a, b, lo, hi, s, mx = tab(c.o('self'), 'en')
    x = l.sym(INT)
    return FA([j], z3.Implies(z3.And(j >= x.lo, j < x.hi), z3.And(x.arrs[0][j] >= 0, x.arrs[0][j] < hi - lo)), x.arrs[0][j])


update = Contract(K('update_encoder_table'), {'self': CODEC}, modifies=['self.encoder_table'], ensures=unch, loops={0: Loop(inv=unch)})

# ---------------------------------------------------------------- decoder: any byte string may arrive; it may be rejected by an exception
anyx = lambda c: z3.BoolVal(True)
DI = ['self.decoded_stream_index']
moved = lambda c: c.p('self').decoded_stream_index >= c.o('self').decoded_stream_index
at0 = lambda c: c.v('self').decoded_stream_index >= 0
READERS = [
    Contract(K('read_next_byte'), {'self': CODEC}, returns=INT, requires=lambda c: [at0(c)], raises=anyx, raises_may=True, modifies=DI,
             ensures=lambda c: [c.result >= 0, c.result < 256, c.p('self').decoded_stream_index == c.o('self').decoded_stream_index + 1, c.p('self').decoded_stream_index <= L(c.o('self').decoded_stream)]),
    Contract(K('read_integer'), {'self': CODEC, 'byte': INT, 'prefix_size': INT}, returns=INT, raises=anyx, raises_may=True, modifies=DI,
             requires=lambda c: [at0(c), c.v('byte') >= 0, c.v('byte') < 256, z3.Or([c.v('prefix_size') == p for p in (0, 5, 6, 7)])],
             ensures=lambda c: [c.result >= 0, moved(c)],
             loops={0: Loop(inv=lambda c: [c.v('b') >= 0, c.v('b') < 256, c.v('shift') >= 0, c.v('value') >= 0, moved(c), P2_POS.inst(c.v('shift'))],
                            hints=lambda c: [], dec=lambda c: z3.If(c.p('self').decoded_stream_index <= L(c.o('self').decoded_stream), 1 + L(c.o('self').decoded_stream) - c.p('self').decoded_stream_index, z3.IntVal(0)))}),
    Contract(K('read_literal_string'), {'self': CODEC}, returns=STR, raises=anyx, raises_may=True, modifies=DI, requires=lambda c: [at0(c)], ensures=lambda c: [moved(c)]),
]


def ins_state(c):
    return tab(c.o('self'), 'de'), tab(c.p('self'), 'de')


def step_post_de(c):
    (a, b, lo, hi, s, mx), (a2, b2, lo2, hi2, s2, _) = ins_state(c)
    return [('accounted size', s2 == SIZE(a2, b2, lo2, hi2)), ('at most the buffer size, or unchanged', z3.Or(s2 <= mx, z3.And(a2 == a, b2 == b, lo2 == lo, hi2 == hi, s2 == s)))]


def ins_inv(c):
    (a, b, lo, hi, s, mx), (a2, b2, lo2, hi2, s2, _) = ins_state(c)
    n, x = c.o('index'), c.v('index')
    e = c.o('entry').header
    rem = EL(a[lo + n], b[lo + n])
    return [('size', s2 == SIZE(a2, b2, lo2, hi2)), ('same entries', z3.And(a2 == a, b2 == b, hi2 == hi, lo <= lo2, lo2 <= hi2)),
            ('place', x == n - (lo2 - lo)), ('new size', c.v('size') == EL(e[0], e[1]) - z3.If(x >= 0, rem, z3.IntVal(0))), c.v('removed_size') == rem]


def ins_exit(c):
    (a, b, lo, hi, s, mx), (a2, b2, lo2, hi2, s2, _) = ins_state(c)
    n = c.o('index')
    k = lo + n
    l1 = lo2
    lo1 = n - (lo2 - lo)  # the index after evictions
    out = [SIZE_SPLIT.inst(a, b, k, l1, hi), SIZE.unfold(a, b, k, hi), SIZE_SPLIT.inst(a2, b2, k, l1, hi), SIZE.unfold(a2, b2, k, hi), SIZE_EXT.inst(a, b, a2, b2, l1, k), SIZE_EXT.inst(a, b, a2, b2, k + 1, hi)]
    # an insertion in front of, or between, the entries left
    p = z3.If(lo1 + hi - l1 < 0, l1, lo1 + hi)
    out += [SIZE_SPLIT.inst(a, b, p, l1, hi), SIZE_SPLIT.inst(a2, b2, p, l1, hi + 1), SIZE.unfold(a2, b2, p, hi + 1), SIZE_SHIFT.inst(a, b, a2, b2, p, hi), SIZE_EXT.inst(a, b, a2, b2, l1, p), SIZE.unfold(a, b, l1, hi)]
    return out


insert_decoded = Contract(K('insert_decoded_header'), {'self': CODEC, 'entry': ENTRY, 'index': INT}, returns=INT, raises=anyx, raises_may=True,
                          requires=lambda c: [ok(c.v('self'), 'de'), tab(c.v('self'), 'de')[5] >= 0, c.v('index') >= 0], modifies=['self.decoder_table', 'self.decoder_table_size'],
                          ensures=step_post_de, exit_hints=ins_exit,
                          loops={0: Loop(inv=ins_inv, hints=lambda c: ap_hints(c, 'de')[:1], dec=lambda c: tab(c.p('self'), 'de')[3] - tab(c.p('self'), 'de')[2])})
decode = Contract(K('decode_headers'), {'self': CODEC, 'stream': STR}, returns=None, raises=anyx, raises_may=True,
                  requires=lambda c: [ok(c.v('self'), 'de'), tab(c.v('self'), 'de')[5] >= 0],
                  modifies=['self.decoder_table', 'self.decoder_table_size', 'self.decoded_stream', 'self.decoded_stream_index'],
                  ensures=step_post_de,
                  loops={0: Loop(inv=lambda c: [('headers unchanged', same_headers(c, 'de'))]),
                         1: Loop(inv=lambda c: step_post_de(c) + [c.p('self').decoded_stream_index >= 0], types={'headers': TList(HDR)},
                                 dec=lambda c: z3.If(c.p('self').decoded_stream_index <= L(c.p('self').decoded_stream), L(c.p('self').decoded_stream) - c.p('self').decoded_stream_index, z3.IntVal(0))),
                         2: Loop(inv=step_post_de, types={'headers': TList(HDR)})})


def init_post(c):
    o = c.p('self')
    x, y = tab(o, 'en'), tab(o, 'de')
    return [('accounted size of the encoder table', x[4] == SIZE(*x[:4])), ('accounted size of the decoder table', y[4] == SIZE(*y[:4]))]


def init_hints(c):
    out = []
    for s in ('en', 'de'):
        a, b, lo, hi, _, _ = tab(c.p('self'), s)
        n = c.eng.length(c.p('self').encoder_table._v)
        n = n if isinstance(n, int) else 30
        out += [SIZE.unfold(a, b, z3.simplify(lo + k), hi) for k in range(n + 1)]
    return out


init = Contract(K('init_codec'), {'self': CODEC}, modifies=TBL[:2] + ['self.decoder_table', 'self.decoder_table_size'], ensures=init_post, exit_hints=init_hints)

contracts = [append('append_encoded_header', 'en', False), append('append_decoded_header', 'de', True), find('find_header', True), find('find_header_name', False),
             encode_header, compute_diff, update, encode_headers, init, insert_decoded, decode] + READERS + WRITERS
LEMMAS = []
