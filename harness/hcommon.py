"""Shared by the harnesses (Python 2.7 on Jython, and Python 3)."""
import os, sys, json, time, random, threading, traceback

REPO = os.environ.get('VERIF_REPO', '/repo')


class Mismatch(Exception):
    pass


def b2l(s):
    return s if isinstance(s, type(u'')) else s.decode('latin-1')


def emit(tag, obj):
    sys.__stdout__.write(tag + ' ' + json.dumps(obj) + '\n')
    sys.__stdout__.flush()


class Null(object):
    def write(self, *a):
        pass

    def flush(self):
        pass


class Run(object):
    def __init__(self, rule=''):
        self.seed = int(sys.argv[1])
        self.budget = float(sys.argv[2])
        self.args = sys.argv[3:]
        self.replay = None
        if '--replay' in self.args:
            k = self.args.index('--replay')
            self.replay = json.load(open(self.args[k + 1]))
            self.args = self.args[:k]
        self.rng = random.Random(self.seed)
        self.t0 = time.time()
        self.n = 0
        self.seen = set()
        self.cur = None
        self.cur_t = None
        self.limit = 20.0
        self.lock = threading.Lock()
        sys.stdout = Null()
        t = threading.Thread(target=self._watch)
        t.setDaemon(True) if hasattr(t, 'setDaemon') else None
        t.daemon = True
        t.start()

    def left(self):
        return self.budget - (time.time() - self.t0)

    def _watch(self):
        while True:
            time.sleep(0.5)
            with self.lock:
                c, t = self.cur, self.cur_t
            if c is not None and time.time() - t > self.limit:
                emit('FAIL', dict(what='no result: the call did not return within %d s' % self.limit, input=c))
                os._exit(1)

    def case(self, kind, inp, fn):
        """run fn(inp) on the real code; inp must be JSON-able"""
        self.n += 1
        if len(self.seen) < 200000:
            self.seen.add(hash(repr((kind, inp))))
        if self.n in (1, 50, 1000):
            emit('SAMPLE', dict(kind=kind, input=inp))
        with self.lock:
            self.cur, self.cur_t = dict(kind=kind, input=inp), time.time()
        try:
            fn(inp)
        except Mismatch as e:
            self.fail(kind, inp, str(e))
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            self.fail(kind, inp, 'exception %s: %s' % (type(e).__name__, traceback.format_exc()[-900:]))
        except:  # Java exceptions under Jython
            self.fail(kind, inp, 'exception: ' + traceback.format_exc()[-900:])
        with self.lock:
            self.cur = None

    def fail(self, kind, inp, what):
        emit('FAIL', dict(kind=kind, input=inp, what=what, signature=kind + ':' + what.split(':')[0]))
        emit('CASES', None) if False else None
        self.finish(1)

    def finish(self, rc=0):
        sys.__stdout__.write('CASES %d %d\n' % (self.n, len(self.seen)))
        if rc == 0:
            sys.__stdout__.write('DONE\n')
        sys.__stdout__.flush()
        os._exit(rc)

    def go(self, table, gens):
        """table: kind -> fn(inp); gens: list of generators yielding (kind, inp)"""
        if self.replay is not None:
            f = self.replay
            if f.get('kind') in table:
                self.case(f['kind'], f['input'], table[f['kind']])
                sys.__stdout__.write('replay: passes on this tree\n')
                os._exit(0)
            inp = f['input']
            self.case(inp['kind'], inp['input'], table[inp['kind']])
            sys.__stdout__.write('replay: passes on this tree\n')
            os._exit(0)
        alive = list(gens)
        while alive and self.left() > 0:
            for g in list(alive):
                try:
                    kind, inp = next(g)
                except StopIteration:
                    alive.remove(g)
                    continue
                self.case(kind, inp, table[kind])
                if self.left() < 0:
                    break
        self.finish(0)


def eq(a, b, what):
    if a != b:
        raise Mismatch('%s: got %r, expected %r' % (what, a, b))


def ok(c, what):
    if not c:
        raise Mismatch(what)


def bytestr(rng, n, alpha=None):
    if alpha is None:
        return ''.join(chr(rng.randrange(256)) for _ in range(n))
    return ''.join(rng.choice(alpha) for _ in range(n))
