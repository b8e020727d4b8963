#!/usr/bin/env python3-vt
"""check.py <property-id>: decide one property of /repo's current tree.

 1. every contract of the property is verified against the functions' current
    source (8 worker processes), together with the definitions and lemmas used;
 2. in parallel, the property's harness runs the real code (Jython / Python 3)
    on generated inputs against the property's own oracle: it supplies failing
    inputs and covers, labelled bounded, what no contract reaches.
exit 0: all obligations discharged and no failing input.
exit 1: VIOLATION line.
"""
import importlib, json, os, subprocess, sys, time, traceback
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY3 = '/opt/venv/bin/python'


def run_contract(job):
    modname, idx, deadline, tmo, part = job
    from engine import symex, speclib
    t0 = time.time()
    from engine.solve import limits
    limits(max(10, deadline + 60 - t0), 6)
    p = importlib.import_module('props.' + modname)
    con = p.CONTRACTS[idx]
    try:
        v = symex.Verifier(PROG, p.CONTRACTS, budget=symex.Budget(deadline), tmo=tmo)
        if hasattr(p, 'setup_verifier'):
            p.setup_verifier(v)
        v.part = part
        v.sem = None if os.environ.get("NOSEM") else SEM
        obls = v.verify(con)
        res = [(o.name, o.ok, o.backend, o.t, o.info) for o in obls]
        return dict(key=con.key, name=con.name, obls=res, facts=sorted(x.name for x in v.facts_used if x is not None), wall=time.time() - t0,
                    inlined=sorted(v.inlined), used=sorted(v.used_contracts), notes=sorted(v.notes), unterm=sorted(v.unterminated),
                    paths=v.paths, solver=v.solver_time)
    except Exception:
        return dict(key=con.key, name=con.name, obls=[(con.name + '#engine', False, '-', 0.0, traceback.format_exc()[-1500:])], facts=[],
                    wall=time.time() - t0, inlined=[], used=[], notes=[], unterm=[], paths=0, solver=0.0)


def run_lemma(job):
    """one batch of lemma obligations; only!=None: just these, with longer time"""
    modname, names, k, n8, deadline, only, scale = job
    from engine import speclib, symex
    from engine.solve import discharge
    from engine.solve import limits
    limits(max(10, deadline + 60 - time.time()), 6)
    importlib.import_module('props.' + modname)
    _, obl = speclib.closure([speclib.REG[n] for n in names])
    out = []
    for j, (n, h, g, tm) in enumerate(obl):
        if only is not None:
            if n not in only or only.index(n) % n8 != k:
                continue
        elif j % n8 != k:
            continue
        try:
            ok, be, dt, info, model = discharge(h, g, tm * scale, symex.Budget(deadline))
        except Exception:
            ok, be, dt, info = False, '-', 0.0, traceback.format_exc()[-800:]
        out.append((n, ok, be, dt, info))
    return out


def harness_cmd(h, seed, budget, extra=()):
    lang, script = h['lang'], os.path.join(HERE, 'harness', h['script'])
    env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': '/root', 'LANG': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1',
           'VERIF_REPO': REPO, 'VERIF_HARNESS': os.path.join(HERE, 'harness'), 'PYTHONHASHSEED': '0'}
    args = [str(seed), str(budget)] + [str(a) for a in h.get('args', [])] + list(extra)
    if lang == 'jython':
        env['JYTHONPATH'] = '/opt/jylib'
        cmd = ['jython', '-B', script] + args
    elif lang == 'py3':
        cmd = [PY3, '-W', 'ignore', script] + args
    else:
        cmd = [script] + args
    return cmd, env


class Harness:
    """one harness process; it prints 'CASES n distinct', 'SAMPLE json' and, on a failure, 'FAIL json'"""

    def __init__(self, h, seed, budget):
        self.h, self.seed, self.budget = h, seed, budget
        cmd, env = harness_cmd(h, seed, budget)
        self.cmd = cmd
        import tempfile
        self.dir = tempfile.mkdtemp(prefix='verif-h-')
        self.out = open(os.path.join(self.dir, 'out'), 'wb+')
        self.err = open(os.path.join(self.dir, 'err'), 'wb+')
        env['TMPDIR'] = self.dir
        self.t0 = time.time()
        self.p = subprocess.Popen(cmd, env=env, stdout=self.out, stderr=self.err, cwd=self.dir, start_new_session=True)

    def failing(self):
        try:
            with open(os.path.join(self.dir, 'out'), 'rb') as f:
                return any(ln.startswith(b'FAIL ') and ln.endswith(b'\n') for ln in f)
        except OSError:
            return False

    def wait(self, limit):
        try:
            self.p.wait(max(1, limit))
            late = False
        except subprocess.TimeoutExpired:
            late = True
            import signal
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
        self.out.seek(0)
        self.err.seek(0)
        o, e = self.out.read().decode('latin-1'), self.err.read().decode('latin-1')
        self.out.close()
        self.err.close()
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)
        r = dict(script=self.h['script'], args=self.h.get('args', []), cases=0, distinct=0, samples=[], fail=None, err='', late=late, running=None,
                 done=False, rule=self.h.get('rule', ''))
        for ln in o.split('\n'):
            try:
                if ln.startswith('CASES '):
                    _, a, b = ln.split()
                    r['cases'], r['distinct'] = int(a), int(b)
                elif ln.startswith('SAMPLE '):
                    if len(r['samples']) < 4:
                        r['samples'].append(ln[7:600])
                elif ln.startswith('FAIL ') and r['fail'] is None:
                    r['fail'] = json.loads(ln[5:])
                elif ln.startswith('RUNNING '):
                    r['running'] = json.loads(ln[8:])
                elif ln.strip() == 'DONE':
                    r['done'] = True
            except ValueError:
                pass
        if late and r['running'] is not None and r['fail'] is None and not r['done']:
            # a single call on the real code did not return
            r['fail'] = dict(what='no result: the call did not return within the time limit', input=r['running'])
        if r['fail'] is None and not r['done']:
            r['err'] = (e or o)[-1500:]
        return r


class Stopper:
    """true 30 s after a harness has reported a failing input: the verdict is then known"""

    def __init__(self, hs):
        self.hs, self.t = hs, None

    def now(self):
        if self.t is None and any(h.failing() for h in self.hs):
            self.t = time.time() + 30
        return self.t is not None and time.time() > self.t


def gather(pool, fn, jobs, stop, until=None):
    """the results, None where there is none (stopped, or the job outlived `until`)"""
    rs = [pool.apply_async(fn, (j,)) for j in jobs]
    out = [None] * len(rs)
    left = set(range(len(rs)))
    while left and not stop.now() and (until is None or time.time() < until):
        for k in sorted(left):
            if rs[k].ready():
                out[k] = rs[k].get()
                left.discard(k)
        if left:
            time.sleep(0.05)
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if '--replay' in sys.argv:
        return replay(sys.argv[sys.argv.index('--replay') + 1])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    total = 780 if tier == 'quick' else 3000
    p = importlib.import_module('props.' + pid)
    hb = p.HARNESS_BUDGET if hasattr(p, 'HARNESS_BUDGET') else 20
    if tier == 'thorough':
        hb *= 10
    harnesses = getattr(p, 'HARNESS', [])
    hs = [Harness(h, seed, hb) for h in harnesses]
    deadline = t0 + (total - 230)
    obls, facts, funcs, notes, unterm, inlined = [], set(), [], set(), set(), set()
    solver = 0.0
    global PROG
    fe_err = None
    from engine import symex, frontend
    PROG = None
    if p.CONTRACTS:
        try:
            PROG = symex.Program(REPO)
            for rels, py in p.FILES:
                PROG.add(rels, py)
        except Exception as e:
            fe_err = '%s: %s' % (type(e).__name__, e)
            obls.append(('front-end#parse', False, '-', 0.0, fe_err))
    if fe_err is None and p.CONTRACTS:
        ctx = mp.get_context('fork')
        global SEM
        SEM = ctx.Semaphore(8)
        todo = [i for i, c in enumerate(p.CONTRACTS) if c.verify]
        todo.sort(key=lambda i: -getattr(p.CONTRACTS[i], 'weight', 1))
        # a contract with many cases is split over several jobs
        todo = [(i, (k, getattr(p.CONTRACTS[i], 'split', 1))) for i in todo for k in range(getattr(p.CONTRACTS[i], 'split', 1))]
        with ctx.Pool(8, maxtasksperchild=1) as pool:
            stop = Stopper(hs)
            res = gather(pool, run_contract, [(pid, i, deadline, 15000, pt) for i, pt in todo], stop, deadline + 15)
            if not stop.now():
                for t, r in zip(todo, res):
                    if r is None:
                        obls.append((p.CONTRACTS[t[0]].name + '#unfinished', False, '-', 0.0, 'out of time: the verifier did not finish this function'))
            todo = [t for t, r in zip(todo, res) if r is not None]
            res = [r for r in res if r is not None]
            # undecided (not refuted) obligations get a second, longer attempt
            again = [k for k, r in enumerate(res) if any(not o[1] and ('unknown' in o[4] or 'out of time' in o[4]) for o in r['obls'])
                     and not any(not o[1] and 'unknown' not in o[4] and 'out of time' not in o[4] for o in r['obls'])]
            if again and time.time() < deadline - 60 and not stop.now():
                r2 = gather(pool, run_contract, [(pid, todo[k][0], deadline, 60000, todo[k][1]) for k in again], stop, deadline + 15)
                for k, r in zip(again, r2):
                    if r is not None:
                        res[k] = r
            for r in res:
                obls += r['obls']
                facts |= set(r['facts'])
                notes |= set(r['notes'])
                unterm |= set(r['unterm'])
                inlined |= set(r['inlined'])
                solver += r['solver']
                old = [f for f in funcs if f[1] == r['name']]
                if old:
                    funcs.remove(old[0])
                o = old[0] if old else (0, 0, 0, 0, 0, 0)
                funcs.append((r['key'], r['name'], o[2] + len(r['obls']), o[3] + sum(1 for x in r['obls'] if x[1]), round(o[4] + r['wall'], 2), o[5] + r['paths']))
            names = sorted(facts | set(x.name for x in getattr(p, 'LEMMAS', [])))
            if names:
                lo = []
                for out in gather(pool, run_lemma, [(pid, names, k, 32, deadline, None, 1) for k in range(32)], stop, deadline + 40):
                    lo += out if out is not None else [] if stop.now() else [('lemma batch#unfinished', False, '-', 0.0, 'out of time')]
                slow = [o[0] for o in lo if not o[1] and 'refuted' not in o[4]]
                if slow and time.time() < deadline - 30 and not stop.now():
                    l2 = {}
                    for out in gather(pool, run_lemma, [(pid, names, k, 8, deadline, slow, 4) for k in range(8)], stop, deadline + 40):
                        for o in out or []:
                            l2[o[0]] = o
                    lo = [l2.get(o[0], o) for o in lo]
                obls += lo
            if stop.now():
                obls.append(('verification#stopped', False, '-', 0.0, 'the verifier was stopped some time after the real code had failed on an input; obligations not listed were not attempted'))
    nlem = sum(1 for o in obls if o[0].startswith(('lemma ', 'definition ')))
    failed = [o for o in obls if not o[1]]
    if p.CONTRACTS and not obls:
        failed = [('no-obligations', False, '-', 0, 'no obligation was generated')]
    hres = [h.wait(max(5, hb * 2.5 + 60 - (time.time() - h.t0))) for h in hs]
    fails = [r for r in hres if r['fail']]
    errs = [r for r in hres if not r['fail'] and r['err']]
    if failed and not fails and harnesses:
        # a proof obligation failed: search longer for a failing input on the real code
        rem = t0 + total - time.time() - 40
        k = max(1, min(6, 8 // max(1, len(harnesses))))
        bud = min(max(10, rem * 0.5), getattr(p, 'SEARCH_BUDGET', 60))
        hs2 = [Harness(h, seed * 1000 + j + 1, bud) for j in range(k) for h in harnesses]
        h2 = [h.wait(max(5, min(bud * 2.5 + 30, t0 + total - time.time() - 10) - (time.time() - h.t0))) for h in hs2]
        fails = [r for r in h2 if r['fail']]
        hres += h2
    known = load_known(pid)
    new = []
    for r in fails:
        f = r['fail']
        kf = [k for k in known if k.get('signature') and k['signature'] == f.get('signature')]
        if kf:
            print('KNOWN-FINDING: property=%s %s' % (pid, kf[0]['what']))
        else:
            new.append(r)
    violation = None
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rp = os.path.join(HERE, 'evidence', 'replay_%s.json' % pid)
    if new:
        r = new[0]
        json.dump(dict(property=pid, harness=dict(script=r['script'], args=r['args']), failure=r['fail'],
                       failed_obligations=[dict(name=o[0], info=o[4]) for o in failed[:20]],
                       replay='python3-vt check.py %s --replay %s' % (pid, rp)), open(rp, 'w'), indent=1)
        violation = 'VIOLATION property=%s replay=%s' % (pid, rp)
    elif failed or errs:
        json.dump(dict(property=pid, failed_obligations=[dict(name=o[0], backend=o[2], verifier_output=o[4]) for o in failed[:50]],
                       harness_errors=[r['err'] for r in errs], note='no failing input found'), open(rp, 'w'), indent=1)
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)
    elif os.path.exists(rp):
        os.remove(rp)
    for o in failed[:12]:
        print('UNDISCHARGED %s [%s] %s' % (o[0], o[2], o[4][:300].replace('\n', ' ')))
    if new:
        print('FAILING INPUT: ' + json.dumps(new[0]['fail'])[:1500])
    for r in errs:
        print('HARNESS ERROR %s: %s' % (r['script'], r['err'][-600:].replace('\n', ' | ')))
    back = {}
    for o in obls:
        if o[1]:
            back[o[2]] = back.get(o[2], 0) + 1
    con_by = {c.name: c for c in p.CONTRACTS}
    cov = dict(obligations=len(obls), discharged=sum(1 for o in obls if o[1]),
               checker_cmd='python3-vt check.py %s' % pid,
               trusted_base=['engine/ (translation of Python source to verification conditions, written for this task)', 'z3 %s' % z3v(), 'cvc5 1.1.2',
                             "the parsers: Jython 2.7's own ast module for Python-2 files, CPython's ast for Python-3 files"] + list(getattr(p, 'TRUSTED', [])),
               functions_under_contract=[dict(function=f[0], contract=f[1], obligations=f[2], discharged=f[3], wall_s=f[4], paths=f[5]) for f in funcs],
               assumed_contracts=[dict(function=c.key, why=c.why_trusted) for c in p.CONTRACTS if not c.verify and not getattr(c, 'same_as', None)],
               identical_functions=[dict(function=c.key, verified_as=c.same_as) for c in p.CONTRACTS if getattr(c, 'same_as', None)],
               lemma_obligations=nlem, discharged_by=back, solver_s=round(solver, 1),
               inlined_functions=sorted(inlined), loops_without_termination_measure=sorted(unterm), notes=sorted(notes),
               failed=[o[0] for o in failed][:50])
    if hres:
        cov['evaluations'] = sum(r['cases'] for r in hres)
        cov['distinct_nontrivial'] = sum(r['distinct'] for r in hres)
        cov['rule'] = ' / '.join(sorted(set(r['rule'] for r in hres if r['rule'])))
        cov['samples'] = [x for r in hres for x in r['samples']][:6]
        cov['bounded_part'] = getattr(p, 'BOUNDED', 'runtime cross-check of the contracts on the real code; not counted as proof')
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=p.LEVEL, coverage=cov,
              assumptions=list(COMMON_ASSUMPTIONS) + list(getattr(p, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d functions under contract, %d/%d obligations discharged (%d lemma), %d runs on the real code, %.1f s' % (
        pid, len(funcs), cov['discharged'], cov['obligations'], nlem, sum(r['cases'] for r in hres), time.time() - t0))
    if violation:
        print(violation)
        return 1
    return 0


COMMON_ASSUMPTIONS = [
    'Python integers are mathematical integers (exact for Python); str values are sequences of integers (bytes 0..255 in the Python-2 code)',
    'no aliasing between distinct mutable parameters and fields; objects stored in containers are owned by them (the engine rejects code that breaks this)',
    'memory is unbounded; print and logging output are not modelled',
    'recursive spec definitions are well-founded (an obligation each); nothing else is assumed about them',
]


def z3v():
    import z3
    return z3.get_version_string()


def load_known(pid):
    try:
        ks = json.load(open(os.path.join(HERE, 'known_findings.json')))
    except OSError:
        return []
    return [k for k in ks.get('findings', []) if k.get('property') == pid]


def replay(path):
    d = json.load(open(path))
    if 'failure' not in d:
        print(json.dumps(d, indent=1)[:4000])
        return 1
    h = d['harness']
    import tempfile
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(d['failure'], f)
    lang = 'jython' if h['script'].startswith('jy_') else 'py3'
    cmd, env = harness_cmd(dict(lang=lang, script=h['script'], args=h['args']), 1, 1, ['--replay', f.name])
    try:
        r = subprocess.run(cmd, env=env, timeout=120)
        return r.returncode
    finally:
        os.remove(f.name)


if __name__ == '__main__':
    sys.exit(main())
