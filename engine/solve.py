"""Discharging one obligation: z3 (two configurations), then cvc5."""
import ctypes, os, pickle, resource, select, signal, subprocess, tempfile, time
import z3

CVC5 = '/opt/veriftools/pyvenv/bin/python'


def _z3(hyps, goal, tmo, conf):
    s = z3.Solver()
    s.set('timeout', int(tmo))
    for k, v in conf.items():
        s.set(k, v)
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    return s, r


CONFS = [{}, {'mbqi': False, 'auto_config': False}, {'random_seed': 7}, {'mbqi': False, 'auto_config': False, 'random_seed': 3}, {'smt.arith.solver': 2}]


def discharge(hyps, goal, tmo, budget):
    """-> (proved, back end, seconds, info, model).  Several short attempts (z3 configurations, cvc5), then longer ones."""
    t0 = time.time()
    total = tmo / 1000.0
    info = ''
    s = None
    rnd = 0
    while True:
        # tmo scales the attempts: 15 s -> rounds of 2 s and 4 s
        per = max(0.5, total * (0.12, 0.25, 0.5)[min(rnd, 2)])
        for k, conf in enumerate(CONFS if rnd else CONFS[:2]):
            left = min(total * 2.2 - (time.time() - t0), budget.left())
            if left < 0.3:
                return False, 'z3+cvc5', time.time() - t0, (info or 'z3: unknown') + ' (timeout)', None
            s, r = _z3(hyps, goal, min(per, left) * 1000, conf)
            if r == z3.unsat:
                return True, 'z3', time.time() - t0, '', None
            if r == z3.sat and k == 0:
                return False, 'z3', time.time() - t0, 'refuted by z3', s.model()
            info = 'z3: unknown (%s)' % s.reason_unknown()
        if budget.left() > 2:
            if z3old_check(s, min(per * 2, budget.left())):
                return True, 'z3-4.8', time.time() - t0, '', None
        if budget.left() > 2:
            if cvc5_check(s, min(per * 2, budget.left())):
                return True, 'cvc5', time.time() - t0, '', None
        rnd += 1


def z3old_check(solver, tmo):
    """the older z3 release: other quantifier heuristics"""
    exe = '/usr/bin/z3'
    if not os.path.exists(exe):
        return False
    try:
        r = subprocess.run([exe, '-in', '-smt2', '-t:%d' % int(tmo * 1000)], input=solver.to_smt2().encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=tmo + 5)
        # an input it cannot read must not count: nothing but the one answer
        return r.stdout.strip() == b'unsat'
    except Exception:
        return False


def cvc5_check(solver, tmo):
    exe = '/usr/bin/cvc5' if os.path.exists('/usr/bin/cvc5') else 'cvc5'
    try:
        txt = '(set-logic ALL)\n' + solver.to_smt2()
    except z3.Z3Exception:
        return False
    try:
        r = subprocess.run([exe, '--lang=smt2', '--tlimit=%d' % int(tmo * 1000), '--full-saturate-quant', '-'], input=txt.encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=tmo + 5)
        return r.stdout.strip().split(b'\n')[0] == b'unsat'
    except Exception:
        return False


def quick(hyps, goal, ms):
    """one short attempt; None: undecided"""
    t0 = time.time()
    s, r = _z3(hyps, goal, ms, {})
    if r == z3.unsat:
        return True, 'z3', time.time() - t0, '', None
    if r == z3.sat:
        return False, 'z3', time.time() - t0, 'refuted by z3', s.model()
    return None


def limits(secs=None, gb=4):
    """a solver that ignores its own limits is ended: memory, wall time, death of the parent"""
    try:
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    except (ValueError, OSError):
        pass
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass
    if secs:
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(int(secs))


def spawn(eng, goal):
    """discharge one obligation in a forked child; -> (pid, read end)"""
    while not eng.sem.acquire(timeout=5):
        reap(eng)
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    res = (False, '-', 0.0, 'solver process failed')
    try:
        os.close(r)
        limits(max(5, min(eng.tmo / 1000.0 * 2.2, eng.budget.left()) + 20))
        ok, be, dt, info, model = discharge(eng.axioms + eng.pc, goal, eng.tmo, eng.budget)
        if not ok and model is not None:
            info = (info + ' ; ' + eng.describe_model(model))[:3000]
        res = (ok, be, dt, info)
    except BaseException as e:
        res = (False, '-', 0.0, 'solver process: %r' % (e,))
    finally:
        try:
            b = pickle.dumps(res)
            while b:
                b = b[os.write(w, b):]
        finally:
            eng.sem.release()
            os._exit(0)


DEAD = (False, '-', 0.0, 'solver: unknown (process ended at its time or memory limit)')


def reap(eng):
    """give back the slots of processes that were ended before they could"""
    for k, (o, job) in enumerate(eng.jobs):
        if len(job) == 2 and isinstance(job[0], int) and select.select([job[1]], [], [], 0)[0]:
            res = collect(job, eng.sem)
            eng.jobs[k] = (o, ('done', res))


def collect(job, sem=None):
    if job[0] == 'done':
        return job[1]
    pid, r = job
    b = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        b += x
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return pickle.loads(b)
    except Exception:
        # it died before giving its slot back
        if sem is not None:
            sem.release()
        return DEAD


def kill(job, sem=None):
    """drop a job whose result is no longer wanted"""
    if job[0] == 'done':
        return
    pid, r = job
    done, _ = os.waitpid(pid, os.WNOHANG)
    if not done:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        # a process that had not answered yet still held its slot
        if not os.read(r, 1) and sem is not None:
            sem.release()
    os.close(r)
