"""lib.processors: compare_headers and filter_headers on real dictionaries"""
import sys, os, types
sys.path.insert(0, os.environ['VERIF_HARNESS'])
from hcommon import *
sys.path.insert(0, REPO)
from compressor import BaseProcessor
from lib.processors import Processors, compare_headers_impl

IGN = {':version', ':status-text', 'connection'}


def norm(d):
    out = set()
    for k, v in dict(d).items():
        if k in IGN:
            continue
        part, v2 = [], v
        sep = ';' if k == 'cookie' else '\0'
        cur = ''
        for ch in v:
            if ch == sep:
                part.append(cur)
                cur = ''
            else:
                cur += ch
        part.append(cur)
        for p in part:
            while p[:1] == ' ':
                p = p[1:]
            while p[-1:] == ' ':
                p = p[:-1]
            out.add((k, p))
    return out


def t_cmp(inp):
    a, b = inp['a'], inp['b']
    a0, b0 = dict(a), dict(b)
    arg = list(b.items()) if inp.get('pairs') else b
    r = Processors.compare_headers(a, 'orig', arg, 'codec')
    eq(a, a0, 'compared dictionary changed')
    na, nb = norm(a), norm(b)
    ok(isinstance(r, str), 'report is not a string')
    eq(r == '', na == nb, 'empty report')
    if na != nb:
        exp = []
        for name, only in (('orig', na - nb), ('codec', nb - na)):
            if only:
                exp.append((name, sorted('\t%s: %s' % p for p in only)))
        # lines after each heading, as a set of texts (values may hold any character but the report joins lines with newline)
        pos = 0
        text = r
        want = []
        for name, ls in exp:
            head = 'Only found in: %s' % name
            ok(head in text, 'report lacks the heading of %s' % name)
            for l in ls:
                ok(l in text, 'pair not named: %r' % l)
        n = sum(1 + sum(1 + l.count('\n') for l in ls) for _, ls in exp)
        if all('\n' not in l for _, ls in exp for l in ls):
            lines = text.split('\n')
            eq(len(lines), n, 'number of report lines')
            i = 0
            for name, ls in exp:
                eq(lines[i], 'Only found in: %s' % name, 'heading')
                eq(sorted(lines[i + 1:i + 1 + len(ls)]), ls, 'pairs named under %s' % name)
                i += 1 + len(ls)
    r2 = Processors.compare_headers(b, 'x', a, 'y')
    eq(r2 == '', na == nb, 'empty report (sides exchanged)')


def t_filter(inp):
    h = inp['h']
    h0 = dict(h)
    r = Processors.filter_headers(h)
    eq(h, h0, 'original headers changed')
    drop = {':status-text', ':version', 'keep-alive', 'connection'}
    if 'connection' in h:
        for x in h['connection'].split(','):
            while x[:1] == ' ':
                x = x[1:]
            while x[-1:] == ' ':
                x = x[:-1]
            drop.add(x)
    eq(r, {k: v for k, v in h.items() if k not in drop}, 'filtered headers')


class Fake(BaseProcessor):
    """a codec whose decompression answers what the test tells it"""
    answer = None

    def compress(self, h, host):
        Fake.given = dict(h)
        return 'x' * 7

    def decompress(self, c):
        if Fake.answer is None:
            raise NotImplementedError
        return Fake.answer


_m = types.ModuleType('compressor.verif_fake')
_m.Processor = Fake
Fake.__module__ = 'compressor.verif_fake'
sys.modules['compressor.verif_fake'] = _m


class Opt(object):
    verbose, debug, baseline, processor_names = 0, False, 'verif_fake', ['verif_fake']


def t_msg(inp):
    """a whole message through Processors.process_message"""
    h, kind = inp['h'], inp['type']
    out = []
    o = Opt()
    o.verbose = inp['verbose']
    p = Processors(o, ['req', 'res'], out.append)
    Fake.answer = inp['answer']
    err = sys.stderr
    sys.stderr = Null()
    try:
        res = p.process_message(h, kind, 'host', 1, 1)
    finally:
        sys.stderr = err
    eq(sorted(res), ['verif_fake'], 'codecs with a result')
    eq(res['verif_fake']['size'], 7, 'size')
    f = Processors.filter_headers(h)
    eq(Fake.given, f, 'headers given to the codec')
    text = ''.join(out)
    differ = inp['answer'] is not None and norm(f) != norm(inp['answer'])
    eq('mismatch in verif_fake' in text, differ, 'mismatch reported')
    if differ and inp['verbose'] > 1:
        ok(Processors.compare_headers(f, 'orig', inp['answer'], 'verif_fake').split('\n')[0] in text, 'report printed')


NAMES = [':method', ':path', ':host', ':version', ':status', ':status-text', 'connection', 'keep-alive', 'cookie', 'set-cookie', 'accept', 'x-a', 'x-b', 'a', 'Cookie', 'te', 'close', 'Connection', '']
VALS = ['', 'a', 'a b', ' a', 'a ', 'a; b', 'b; a', 'b;a;a', ';', '; ', 'a;;b', 'a\0b', 'b\0a', 'a\0\0b', '\0', ' \0 ', 'x=1; y=2', 'y=2; x=1', 'y=2;x=1', 'a,b', '\ta', 'a\t', 'A', 'x-a: b', 'a;b\0c', 'a\nb', 'close', 'x-a']


def rd(r):
    return {r.rng.choice(NAMES): val(r) for _ in range(r.rng.randrange(6))}


def val(r):
    if r.rng.random() < .6:
        return r.rng.choice(VALS)
    return bytestr(r.rng, r.rng.randrange(7), 'ab;, \0=\t:')


def mutate(r, d):
    d = dict(d)
    for _ in range(r.rng.choice([0, 1, 1, 1, 2])):
        k = r.rng.randrange(7)
        ks = list(d)
        if k == 0 or not ks:
            d[r.rng.choice(NAMES)] = val(r)
        elif k == 1:
            del d[r.rng.choice(ks)]
        elif k == 2:
            d[r.rng.choice(ks)] = val(r)
        else:
            n = r.rng.choice(ks)
            sep = r.rng.choice([';', '\0'])
            p = d[n].split(sep)
            if k == 3:
                r.rng.shuffle(p)
            elif k == 4:
                p.append(r.rng.choice(p))
            elif k == 5:
                p = [x + ' ' * r.rng.randrange(3) for x in p]
            else:
                p.pop(r.rng.randrange(len(p)))
            d[n] = sep.join(p)
    return d


def g_cmp(r):
    for n in NAMES:
        for v in VALS:
            for w in VALS:
                yield 'compare', dict(a={n: v}, b={n: w})
            yield 'compare', dict(a={n: v}, b={})
            yield 'compare', dict(a={n: v, 'x': '1'}, b={'x': '1'}, pairs=True)


def g_rnd(r):
    while True:
        a = rd(r)
        yield 'compare', dict(a=a, b=mutate(r, a), pairs=r.rng.random() < .3)


def g_msg(r):
    while True:
        a = rd(r)
        yield 'message', dict(h=a, answer=None if r.rng.random() < .1 else mutate(r, Processors.filter_headers(a)), type=r.rng.choice(['req', 'res']), verbose=r.rng.choice([0, 0, 1, 2, 3]))


def g_fil(r):
    fixed = [':status-text', ':version', 'keep-alive', 'connection']
    for c in VALS + ['keep-alive', 'x-a, x-b', 'x-a ,x-b', 'x-a,', ',x-a', 'x-a , , te', 'close, TE', 'te\t', ' x-a', 'x-a;x-b', 'x-a x-b', ':path', ':path, cookie', 'a']:
        yield 'filter', dict(h=dict([(n, 'v') for n in NAMES if n != 'connection'] + [('connection', c)]))
        yield 'filter', dict(h=dict([('connection', c)] + [(n, 'v') for n in NAMES if n != 'connection']))
    for n in NAMES:
        yield 'filter', dict(h={n: n})
    while True:
        d = rd(r)
        if r.rng.random() < .8:
            d['connection'] = r.rng.choice([',', ', ', ' ,', ' , ', ', ,']).join(r.rng.choice(NAMES) for _ in range(r.rng.randrange(4)))
        yield 'filter', dict(h=d)


r = Run()
r.go({'compare': t_cmp, 'filter': t_filter, 'message': t_msg}, [g_msg(r), g_cmp(r), g_rnd(r), g_fil(r)])
