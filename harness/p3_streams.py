"""streamifiers, Stream, Processors.process_session, the TSV and totals"""
import sys, os, types
sys.path.insert(0, os.environ['VERIF_HARNESS'])
from hcommon import *
import warnings
warnings.simplefilter('ignore')
sys.path.insert(0, REPO)
import importlib
from compressor import BaseProcessor
from lib.stream import Stream, merge_dols
from lib.processors import Processors
from lib.streamifiers import all_one, host as by_host
MODE = sys.argv[3] if len(sys.argv) > 3 else 'streams'
try:
    from lib.streamifiers import public_suffix
    PSL = public_suffix.Streamifier(['p']).psl
except ImportError:
    public_suffix = None


def key(kind, h):
    if kind == 'all':
        return 'all'
    if kind == 'host':
        return h.lower().strip()
    return PSL.get_public_suffix(h.split(':', 1)[0])


MODS = {'all': all_one, 'host': by_host, 'suffix': public_suffix}


def t_streams(inp):
    kind, hosts = inp['kind'], inp['hosts']
    procs = ['p', 'q q']
    msgs = []
    for i, h in enumerate(hosts):
        req = {':host': h, ':path': '/%d' % i, 'n': str(i)}
        res = {':status': '200', 'n': str(i)}
        msgs.append((req, res))
    keep = [(dict(a), dict(b)) for a, b in msgs]
    sts = MODS[kind].Streamifier(procs).streamify(list(msgs))
    eq([(dict(a), dict(b)) for a, b in msgs], keep, 'messages changed')
    keys = []
    for h in hosts:
        if key(kind, h) not in keys:
            keys.append(key(kind, h))
    if kind == 'all':
        keys = ['all']
    got = {}
    for s in sts:
        ok(s.msg_type in ('req', 'res'), 'message type')
        ok((s.name, s.msg_type) not in got, 'two streams of the same name and type: %r' % s.name)
        got[(s.name, s.msg_type)] = s
        eq(list(s.procs), procs, 'codecs of the stream')
    eq(sorted(got), sorted([(k, t) for k in keys for t in ('req', 'res')]), 'streams')
    for k in keys:
        idx = [i for i, h in enumerate(hosts) if key(kind, h) == k]
        for t, which in (('req', 0), ('res', 1)):
            ms = got[(k, t)].messages
            eq(len(ms), len(idx), 'messages of stream %s' % k)
            for (m, h), i in zip(ms, idx):
                ok(m is msgs[i][which] or m == msgs[i][which], 'message of stream %s out of place: %r' % (k, m))
                eq(m, msgs[i][which], 'message of stream')
                eq(h, hosts[i].lower().strip() if kind == 'host' else hosts[i], 'host paired with the message')


HOSTS = ['example.com', 'www.example.com', 'a.example.com', 'Example.com', ' example.com', 'example.com ', 'example.com:80', 'www.example.com:8080', 'example.co.uk', 'b.example.co.uk', 'co.uk', 'foo.org', 'x.foo.org:443', 'localhost', '10.0.0.1', 'github.io', 'a.github.io', 'b.github.io', 'WWW.foo.org', 'com', 'all', 'a.b.c.d.foo.org']


def g_streams(r):
    kinds = [k for k in MODS if MODS[k]]
    for k in kinds:
        for n in range(0, 3):
            yield 'streams', dict(kind=k, hosts=HOSTS[:n])
        yield 'streams', dict(kind=k, hosts=HOSTS)
        for a in HOSTS:
            for b in HOSTS[:8]:
                yield 'streams', dict(kind=k, hosts=[a, b, a, b, b])
    while True:
        pool = r.rng.sample(HOSTS, r.rng.randrange(1, 8))
        yield 'streams', dict(kind=r.rng.choice(kinds), hosts=[r.rng.choice(pool) for _ in range(r.rng.randrange(12))])


# ------------------------------------------------------------------ sizes
class Opt(object):
    verbose, debug, baseline = 0, False, 'verif_a'

    def __init__(self, names):
        self.processor_names = names


LOG = []


def size(k, h):
    return 1 + (k * 997 % 99991 if 'big' in h else k % 251)


def codec(nm):
    class P(BaseProcessor):
        def __init__(self, o, is_request, params):
            BaseProcessor.__init__(self, o, is_request, params)
            self.n = 0
            LOG.append(('new', nm, is_request))

        def compress(self, h, host):
            self.n += 1
            LOG.append((nm, self.is_request, dict(h), host, self.n))
            # size depends on the codec, on the state of this codec object and on the message
            k = (sum(map(ord, nm)) % 7 + 1) * (sum(len(a) + len(b) for a, b in h.items()) + self.n)
            self.last = size(k, h)
            return ('x' if nm == 'verif_a' else b'y') * self.last
    P.__module__ = 'compressor.' + nm
    m = types.ModuleType('compressor.' + nm)
    m.Processor = P
    sys.modules['compressor.' + nm] = m


CODECS = ['verif_a', 'verif_b', 'verif_c']
for _n in CODECS:
    codec(_n)


def expect(names, msgs, mtype):
    """sizes per codec: fresh state at the start of the session"""
    out = {n: [] for n in names}
    for i, (h, host) in enumerate(msgs):
        f = Processors.filter_headers(h)
        for n in names:
            k = (sum(map(ord, n)) % 7 + 1) * (sum(len(a) + len(b) for a, b in f.items()) + i + 1)
            out[n].append(size(k, f))
    return out


def t_sizes(inp):
    names = inp['codecs']
    o = Opt(names)
    o.baseline = inp['baseline']
    err, sys.stderr = sys.stderr, Null()
    outp = []
    try:
        p = Processors(o, ['req', 'res'], outp.append)
        sessions = []
        for k, (mtype, msgs) in enumerate(inp['sessions']):
            s = Stream('s%d' % k, [(dict(h), host) for h, host in msgs], mtype, list(names))
            del LOG[:]
            p.process_session(s)
            calls = [c for c in LOG if c[0] != 'new']
            for n in names:
                mine = [c for c in calls if c[0] == n]
                eq([(c[2], c[3]) for c in mine], [(Processors.filter_headers(h), host) for h, host in msgs], 'headers and hosts given to %s' % n)
                eq([c[1] for c in mine], [mtype == 'req'] * len(msgs), 'direction of the codec')
                eq([c[4] for c in mine], list(range(1, len(msgs) + 1)), 'state of %s at each message (fresh at the start of the session)' % n)
            sessions.append(s)
    finally:
        sys.stderr = err
    exps = []
    for s, (mtype, msgs) in zip(sessions, inp['sessions']):
        e = expect(names, msgs, mtype)
        exps.append(e)
        check_stream(s, names, e, o.baseline, msgs)
    for t in ('req', 'res'):
        group = [(s, e, m[1]) for s, e, m in zip(sessions, exps, inp['sessions']) if s.msg_type == t]
        if not group:
            continue
        tot = {n: sum([e[n] for _, e, _ in group], []) for n in names}
        allm = sum([m for _, _, m in group], [])
        c = sum([s for s, _, _ in group])
        check_stream(c, names, tot, o.baseline, allm)
        if len(group) > 1:
            c = group[0][0]
            for s, _, _ in group[1:]:
                c = c + s
            check_stream(c, names, tot, o.baseline, allm)
        for s, e, m in group:      # the streams themselves stay as they were
            check_stream(s, names, e, o.baseline, m)
        # TSV of all streams of this type, one counter
        out = []
        group[0][0].print_tsv_header(out.append)
        n = 0
        for s, _, _ in group:
            n = s.print_tsv(out.append, n)
        rows = ''.join(out).split('\n')
        eq(rows[-1], '', 'end of the TSV')
        eq(rows[0], '\t'.join(['num', 'name'] + names), 'TSV header')
        want, k = [], 0
        for s, e, m in group:
            for i in range(len(m)):
                k += 1
                want.append('\t'.join([str(k), s.name] + [str(e[x][i]) for x in names]))
        eq(rows[1:-1], want, 'TSV rows')
        eq(n, k, 'TSV count')
        out = []
        if allm:
            c.name = 'TOTAL'
            c.print_header(out.append)
            c.print_summary(out.append, o.baseline)
            text = ''.join(out)
            ok(text.startswith('* TOTAL: %d %s messages\n' % (len(allm), t)), 'summary header: %r' % text[:60])
            for x in names:
                ln = [l for l in text.split('\n') if l.strip().startswith(x + ' ')]
                eq(len(ln), 1, 'summary lines of %s' % x)
                w = ln[0].split()
                eq(w[1].replace(',', ''), str(sum(tot[x])), 'total size of %s' % x)
                eq(w[4], '%2.2f' % (1.0 * sum(tot[x]) / sum(tot[o.baseline])), 'overall ratio of %s' % x)
                rs = [1.0 * a / b for a, b in zip(tot[x], tot[o.baseline])]
                eq(w[5:7], ['%2.2f' % min(rs), '%2.2f' % max(rs)], 'smallest and largest ratio of %s' % x)


def check_stream(s, names, sizes, base, msgs):
    eq({k: list(v) for k, v in s.sizes.items() if v}, {k: v for k, v in sizes.items() if v}, 'recorded sizes')
    eq({k: list(v) for k, v in s.ratios.items() if v}, {n: [1.0 * a / b for a, b in zip(sizes[n], sizes[base])] for n in names if sizes[n]}, 'recorded ratios')
    eq({k: len(v) for k, v in s.times.items() if v}, {n: len(sizes[n]) for n in names if sizes[n]}, 'recorded times')
    eq([m for m in s.messages], [(h, host) for h, host in [(dict(a), b) for a, b in msgs]], 'messages of the stream')
    eq(list(s.procs), names, 'codecs of the stream')


def t_merge(inp):
    """streams that hold results of any subset of the codecs"""
    names = inp['codecs']
    ss, want, msgs = [], [{n: [] for n in names} for _ in range(3)], []
    k = 0
    for recs in inp['streams']:
        s = Stream('s%d' % k, [({}, str(k))], 'req', names)
        msgs.append(({}, str(k)))
        for n, c in recs:
            for _ in range(c):
                k += 1
                s.record_result(n, k, k / 8.0, k / 16.0)
                for w, x in zip(want, (k, k / 8.0, k / 16.0)):
                    w[n].append(x)
        ss.append(s)
    before = [(dict((a, list(b)) for a, b in s.sizes.items()), list(s.messages)) for s in ss]
    tot = ss[0]
    for s in ss[1:]:
        tot = tot + s
    for t, what in ((tot, 'added'), (sum(ss), 'summed')):
        for d, w, f in zip((t.sizes, t.ratios, t.times), want, ('sizes', 'ratios', 'times')):
            eq({a: list(b) for a, b in d.items() if b}, {a: b for a, b in w.items() if b}, f + ' of the streams ' + what)
        eq(list(t.messages), msgs, 'messages of the streams ' + what)
    eq([(dict((a, list(b)) for a, b in s.sizes.items()), list(s.messages)) for s in ss], before, 'streams after adding them')


def g_merge(r):
    while True:
        names = ['a', 'b', 'c'][:r.rng.randrange(1, 4)]
        yield 'merge', dict(codecs=names, streams=[[(n, r.rng.randrange(4)) for n in names if r.rng.randrange(2)] for _ in range(r.rng.randrange(1, 5))])


def t_tool(inp):
    """the whole tool on HAR files: TSV rows and totals"""
    import compare_compressors, tempfile, shutil, json as js
    from lib.harfile import har2hdrs
    d = tempfile.mkdtemp()
    argv, err = sys.argv, sys.stderr
    try:
        files, msgs = [], []
        for k, entries in enumerate(inp['files']):
            har = {'log': {'entries': [dict(request=dict(method='GET', url='http://%s%s' % (h, path), httpVersion='HTTP/1.1', headers=[dict(name=a, value=b) for a, b in rq]),
                                            response=dict(status=200, statusText='OK', httpVersion='HTTP/1.1', headers=[dict(name=a, value=b) for a, b in rs]))
                                       for h, path, rq, rs in entries]}}
            fn = os.path.join(d, '%d.har' % k)
            with open(fn, 'w') as f:
                js.dump(har, f)
            files.append(fn)
            msgs.append(list(zip(*har2hdrs(har))))
        names = inp['codecs']
        sys.argv = ['compare_compressors.py', '-t', '--prefix', os.path.join(d, 'out_'), '-s', inp['streamifier'], '-b', names[0]] + [x for n in names for x in ('-c', n)] + files
        sys.stderr = Null()
        out = []
        compare_compressors.CompressionTester(out.append)
        kind = {'all_one': 'all', 'host': 'host', 'public_suffix': 'suffix'}[inp['streamifier']]
        for t, which in (('req', 0), ('res', 1)):
            rows, tot = [], {n: [] for n in names}
            for ms in msgs:
                keys = []
                for rq, rs in ms:
                    if key(kind, rq[':host']) not in keys:
                        keys.append(key(kind, rq[':host']))
                for k in keys:
                    st = [(m[which], m[0][':host']) for m in ms if key(kind, m[0][':host']) == k]
                    e = expect(names, st, t)
                    for i in range(len(st)):
                        rows.append([k] + [e[n][i] for n in names])
                    for n in names:
                        tot[n] += e[n]
            with open(os.path.join(d, 'out_%s.tsv' % t)) as f:
                text = f.read()
            want = '\t'.join(['num', 'name'] + names) + '\n' + ''.join('\t'.join([str(i + 1)] + [str(x) for x in row]) + '\n' for i, row in enumerate(rows))
            eq(text, want, 'TSV of %s messages' % t)
            text = ''.join(out)
            part = text.split('* TOTAL: %d %s messages\n' % (len(rows), t))
            eq(len(part), 2, 'TOTAL header of %s messages in %r' % (t, text[:200]))
            lines = part[1].split('\n')[1:1 + len(names)]
            eq([l.split()[:2] for l in lines], [[n, str(sum(tot[n]))] for n in names], 'total sizes')
    finally:
        sys.argv, sys.stderr = argv, err
        shutil.rmtree(d)


def g_tool(r):
    while True:
        def entry():
            hd = lambda: [(r.rng.choice(['A', 'B', 'Accept', 'Connection']), 'v' * r.rng.randrange(5)) for _ in range(r.rng.randrange(3))]
            return (r.rng.choice(['www.example.com', 'a.example.com', 'foo.org', 'x.foo.org']), '/' + 'p' * r.rng.randrange(4), hd(), hd())
        names = r.rng.sample(CODECS, r.rng.randrange(1, 4))
        yield 'tool', dict(codecs=names, streamifier=r.rng.choice(['all_one', 'host'] + (['public_suffix'] if public_suffix else [])),
                           files=[[entry() for _ in range(r.rng.randrange(1, 5))] for _ in range(r.rng.randrange(1, 3))])


def g_sizes(r):
    def msgs(n):
        out = []
        for _ in range(n):
            h = {r.rng.choice(['a', 'bb', ':path', ':version', 'connection', 'x'] + ['big'] * (r.rng.randrange(8) == 0)): 'v' * r.rng.randrange(9) for _ in range(r.rng.randrange(4))}
            if 'connection' in h and r.rng.random() < .5:
                h['connection'] = 'a'
            out.append((h, r.rng.choice(['h1', 'h2'])))
        return out
    while True:
        names = r.rng.sample(CODECS, r.rng.randrange(1, 4))
        yield 'sizes', dict(codecs=names, baseline=r.rng.choice(names),
                            sessions=[(r.rng.choice(['req', 'res']), msgs(r.rng.choice([0, 1, 1, 2, 3, 5] + [r.rng.choice([30, 70, 130])] * (r.rng.randrange(12) == 0)))) for _ in range(r.rng.randrange(1, 5))])


r = Run()
# JSON turns pairs into lists
def tup(f):
    def g(inp):
        inp = dict(inp, sessions=[(t, [(h, x) for h, x in ms]) for t, ms in inp['sessions']])
        return f(inp)
    return g


r.go({'streams': t_streams, 'sizes': tup(t_sizes), 'tool': t_tool, 'merge': t_merge}, [g_streams(r)] if MODE == 'streams' else [g_sizes(r), g_tool(r), g_merge(r)])
