"""A contract-based verifier for the Python subset used in /repo.

One `Engine` verifies one function under contract.  It executes the function's
current AST symbolically, path by path; loops are cut by invariants, calls to
functions under contract are replaced by their contracts, calls to other
repository functions are inlined.  Every proof obligation goes to z3 (then
cvc5).  Whatever has no rule here raises Unsupported, which is reported as an
undischarged obligation, never skipped.
"""
import ast, itertools, itertools, os, time
import z3
from .types import *
from . import frontend
from .speclib import Fact

RLIM_QUICK = 400        # ms, feasibility
RLIM_MID = 2000         # ms, in-path facts (index in range, ...)


class Unsupported(Exception):
    pass


class SpecMismatch(Exception):
    """a contract mentions a local/field the current code does not have"""


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class OutOfTime(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, name, line, val=None):
        Exception.__init__(self, name)
        self.name = name
        self.line = line
        self.val = val


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


EXC_BASES = {
    'IndexError': ['LookupError', 'StandardError', 'Exception', 'BaseException'],
    'KeyError': ['LookupError', 'StandardError', 'Exception', 'BaseException'],
    'ValueError': ['StandardError', 'Exception', 'BaseException'],
    'TypeError': ['StandardError', 'Exception', 'BaseException'],
    'AttributeError': ['StandardError', 'Exception', 'BaseException'],
    'ZeroDivisionError': ['ArithmeticError', 'StandardError', 'Exception', 'BaseException'],
    'struct.error': ['Exception', 'BaseException'],
    'StandardError': ['Exception', 'BaseException'],
    'AssertionError': ['StandardError', 'Exception', 'BaseException'],
    'StopIteration': ['Exception', 'BaseException'],
    'NotImplementedError': ['RuntimeError', 'StandardError', 'Exception', 'BaseException'],
    'Exception': ['BaseException'],
    'SystemExit': ['BaseException'],
}


# ---------------------------------------------------------------- values
class Ref:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def __repr__(self):
        return 'Ref(%s%r)' % (self.root, self.path)


class OptVal:
    def __init__(self, isnone, inner_t, leaves, ref=None):
        self.isnone = isnone
        self.t = inner_t
        self.leaves = leaves
        self.ref = ref


class OpaqueVal:
    def __init__(self, term):
        self.term = term


class FuncVal:
    def __init__(self, mod, qual, node, env=None, bound=None):
        self.mod, self.qual, self.node, self.env, self.bound = mod, qual, node, env, bound

    @property
    def key(self):
        return self.mod.rel + '::' + self.qual


class ClassVal:
    def __init__(self, mod, name, node):
        self.mod, self.name, self.node = mod, name, node

    @property
    def key(self):
        return self.mod.rel + '::' + self.name


class BuiltinVal:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'builtin:' + self.name


class BoundMethod:
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class ExcVal:
    def __init__(self, name, args=()):
        self.name, self.args = name, args


class LazySeq:
    """enumerate/zip/reversed/items views: a virtual sequence with len and item(i)"""
    def __init__(self, n, item, conc=None):
        self.n, self.item, self.conc = n, item, conc
        self.srcs = []  # (list, lo, hi): lists this is a view of


class Poison:
    pass


POISON = Poison()


# ---------------------------------------------------------------- cells
class ObjCell:
    __slots__ = ('cls', 'fields', 'T')

    def __init__(self, cls, fields, T=None):
        self.cls, self.fields, self.T = cls, fields, T


class ListCell:
    __slots__ = ('items', 't', 'lo', 'hi', 'arrs')

    def __init__(self, items=None, t=None, lo=None, hi=None, arrs=None):
        self.items, self.t, self.lo, self.hi, self.arrs = items, t, lo, hi, arrs


class DictCell:
    __slots__ = ('items', 'k', 'v', 'has', 'arrs', 'default')

    def __init__(self, items=None, k=None, v=None, has=None, arrs=None, default=None):
        self.items, self.k, self.v, self.has, self.arrs, self.default = items, k, v, has, arrs, default


class SetCell:
    __slots__ = ('items', 'k', 'has')

    def __init__(self, items=None, k=None, has=None):
        self.items, self.k, self.has = items, k, has


class Snap:
    __slots__ = ('heap', 'redirect')

    def __init__(self, heap, redirect):
        self.heap, self.redirect = heap, redirect


# ---------------------------------------------------------------- helpers
def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or isinstance(v, z3.ArithRef) and v.is_int()


def is_bool(v):
    return isinstance(v, bool) or isinstance(v, z3.BoolRef)


def is_real(v):
    return isinstance(v, float) or isinstance(v, z3.ArithRef) and v.is_real()


def is_str(v):
    return isinstance(v, (str, bytes)) or isinstance(v, z3.SeqRef)


def str_bytes(s):
    return list(s) if isinstance(s, bytes) else [ord(c) for c in s]


def zi(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def zb(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def zr(v):
    if isinstance(v, float):
        return z3.RealVal(repr(v))
    v = zi(v)
    return z3.ToReal(v) if v.is_int() else v


def zs(v):
    """python str/bytes constant or z3 Seq -> z3 Seq(Int)"""
    if isinstance(v, (str, bytes)):
        b = str_bytes(v)
        if not b:
            return z3.Empty(SEQ)
        us = [z3.Unit(z3.IntVal(x)) for x in b]
        return us[0] if len(us) == 1 else z3.Concat(*us)
    return v


def cat(*xs):
    xs = [zs(x) for x in xs]
    xs = [x for x in xs if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_EMPTY)]
    if not xs:
        return z3.Empty(SEQ)
    return xs[0] if len(xs) == 1 else z3.Concat(*xs)


def simp(e):
    return z3.simplify(e)


def mksel(a, x):
    """a[x], looking through a store at the same index"""
    if z3.is_store(a) and a.arg(1).eq(x):
        return a.arg(2)
    return z3.Select(a, x)


def mkst(a, x, v):
    """a with v at x; an earlier store at the same index is dropped"""
    if z3.is_store(a) and a.arg(1).eq(x):
        a = a.arg(0)
    return z3.Store(a, x, v)


def unstore(a):
    """the array before a chain of stores"""
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        a = a.arg(0)
    return a


def const_int(v):
    """python int when v is a literal (after simplification), else None"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, z3.ArithRef) and v.is_int():
        if z3.is_int_value(v):
            return v.as_long()
        s = z3.simplify(v)
        if z3.is_int_value(s):
            return s.as_long()
    return None


def const_bool(v):
    if isinstance(v, bool):
        return v
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    s = z3.simplify(v)
    return True if z3.is_true(s) else False if z3.is_false(s) else None


def has_quant(e, _c={}):
    k = e.get_id()
    if k in _c and _c[k][0].eq(e):
        return _c[k][1]
    todo, seen, r = [e], set(), False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        todo.extend(x.children())
    _c[k] = (e, r)
    return r


POW2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())


def mask_runs(m):
    """contiguous runs (offset, width) of ones of m >= 0"""
    out, i = [], 0
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> j) & 1:
                j += 1
            out.append((i, j - i))
            i = j
        else:
            i += 1
    return out


def cmul(x):
    """(k, y) with x == k*y, k a positive constant"""
    if is_z3(x) and z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() > 0:
        return x.arg(0).as_long(), x.arg(1)
    if is_z3(x) and z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() > 0:
        return x.arg(1).as_long(), x.arg(0)
    return 1, x


def mkdiv(x, m):
    """x / m for a constant m > 0 (exact rewriting of (k*y)/m)"""
    if m == 1:
        return x
    k, y = cmul(x)
    if k > 1 and m % k == 0:
        return mkdiv(y, m // k)
    if k > 1 and k % m == 0:
        return y * (k // m)
    if is_z3(x) and x.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() > 0:
        return x.arg(0) / z3.IntVal(x.arg(1).as_long() * m)
    return x / z3.IntVal(m)


def mkmod(x, m):
    """x % m for a constant m > 0 (exact rewriting of (k*y)%m)"""
    k, y = cmul(x)
    if k > 1 and m % k == 0:
        return (y % z3.IntVal(m // k)) * k if m > k else z3.IntVal(0)
    if k > 1 and k % m == 0:
        return z3.IntVal(0)
    return x % z3.IntVal(m)


def and_const(x, c):
    """exact x & c for python int constant c and z3 Int x (any sign)"""
    if c < 0:
        return x - and_const(x, ~c)
    t = []
    for off, w in mask_runs(c):
        y = mkdiv(x, 2 ** off) if off else x
        y = mkmod(y, 2 ** w)
        t.append(y * (2 ** off) if off else y)
    return z3.Sum(t) if len(t) > 1 else t[0] if t else z3.IntVal(0)


def bit_of(x, k):
    return (x / z3.IntVal(2 ** k)) % 2


# ---------------------------------------------------------------- program
class Module:
    def __init__(self, prog, path, rel, tree, py):
        self.prog, self.path, self.rel, self.tree, self.py = prog, path, rel, tree, py
        self.defs = {}
        for st in tree.body:
            self._scan(st)

    def _scan(self, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            self.defs[st.name] = st
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        self.defs[n.id] = st
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.defs[(a.asname or a.name).split('.')[0]] = st
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                self.defs[a.asname or a.name] = st
        elif isinstance(st, ast.Try):
            for s in st.body:
                self._scan(s)
            for h in st.handlers:
                for s in h.body:
                    for nm in ([x.asname or x.name for x in s.names] if isinstance(s, (ast.Import, ast.ImportFrom)) else []):
                        self.defs.setdefault(nm, s)
        elif isinstance(st, (ast.If,)):
            for s in st.body + st.orelse:
                self._scan(s)


class Program:
    def __init__(self, repo=None):
        self.repo = repo or frontend.REPO
        self.mods = {}
        self.py3 = set()

    def add(self, rels, py):
        paths = [os.path.join(self.repo, r) for r in rels]
        trees = (frontend.load2 if py == 2 else frontend.load3)(paths)
        for r, p in zip(rels, paths):
            t = trees[p]
            if isinstance(t, Exception):
                raise t
            self.mods[r] = Module(self, p, r, t, py)

    def find(self, key):
        """'file.py::Class.meth' -> (Module, qual, node)"""
        rel, qual = key.split('::')
        if rel not in self.mods:
            raise Unsupported('module %s not loaded' % rel)
        m = self.mods[rel]
        parts = qual.split('.')
        n = m.defs.get(parts[0])
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            raise SpecMismatch('%s not found' % key)
        for p in parts[1:]:
            nn = None
            for st in n.body:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.name == p:
                    nn = st
            if nn is None:
                raise SpecMismatch('%s not found' % key)
            n = nn
        return m, qual, n

    def resolve_module(self, frm, name, level=0):
        d = os.path.dirname(frm.rel)
        if level:
            for _ in range(level - 1):
                d = os.path.dirname(d)
            cands = [os.path.join(d, name.replace('.', '/')) if name else d]
        else:
            cands = [os.path.join(d, name.replace('.', '/')), name.replace('.', '/')]
        for c in cands:
            for s in ('.py', '/__init__.py'):
                r = (c + s).lstrip('/')
                if r in self.mods:
                    return self.mods[r]
        return None


# ---------------------------------------------------------------- contracts
class Loop:
    def __init__(self, inv=None, dec=None, hints=None, unroll=None, types=None, final=None):
        self.inv = inv or (lambda c: [])
        self.dec = dec
        self.hints = hints
        self.unroll = unroll
        self.types = types or {}
        self.final = final


class Contract:
    def __init__(self, key, params, requires=None, ensures=None, modifies=(), returns=NONE,
                 loops=None, raises=None, cases=None, pre_hints=None, exit_hints=None, call=True,
                 name=None, timeout=None, globals_=None, fresh_self=False, kind='function', entry=None, split=1,
                 verify=True, why_trusted=None, call_hints=None, raises_may=False, ghost=None, shared=None, lean=False, merge_get=False):
        self.key = key
        self.merge_get = merge_get  # d.get(k, default) is one conditional value, not two paths
        self.lean = lean  # no instances of the facts about listed collections from positions alone
        self.raises_may = raises_may  # `raises` says when it may raise (else: when it does)
        self.shared = shared          # why objects held by two containers are not changed through either of them
        self.ghost = ghost            # fn(engine, frame): update of ghost fields, done on entry
        self.params = params
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.modifies = tuple(modifies)
        self.returns = returns
        self.loops = loops or {}
        self.raises = raises          # fn(c) -> z3 Bool on the pre state: may raise only then
        self.cases = cases
        self.pre_hints = pre_hints
        self.exit_hints = exit_hints
        self.call = call              # usable at call sites (else callers inline)
        self.name = name or key
        self.timeout = timeout
        self.globals_ = globals_ or {}
        self.entry = entry            # callable(engine, frame) that builds extra state
        self.verify = verify
        self.why_trusted = why_trusted
        self.call_hints = call_hints
        self.split = split              # how many jobs the check splits the cases over
        self.weight = split


class Obligation:
    __slots__ = ('name', 'ok', 'backend', 't', 'info', 'model', 'line')

    def __init__(self, name, ok, backend, t, info='', model=None, line=0):
        self.name, self.ok, self.backend, self.t, self.info, self.model, self.line = name, ok, backend, t, info, model, line


class V:
    """spec-side view of a value in a given snapshot"""

    def __init__(self, eng, snap, val):
        object.__setattr__(self, '_e', eng)
        object.__setattr__(self, '_s', snap)
        object.__setattr__(self, '_v', val)

    def __getattr__(self, f):
        e, s, v = self._e, self._s, self._v
        if isinstance(v, OptVal):
            raise SpecMismatch('optional value used as object')
        if not isinstance(v, Ref):
            raise SpecMismatch('field %s of a non-object' % f)
        c = e.cell(v, s)
        if not isinstance(c, ObjCell):
            raise SpecMismatch('field %s of a container' % f)
        if f not in c.fields:
            raise SpecMismatch('no field ' + f)
        return wrap(e, s, c.fields[f])

    @property
    def _cell(self):
        return self._e.cell(self._v, self._s)

    def _lc(self):
        c = self._cell
        if not isinstance(c, ListCell):
            raise SpecMismatch('not a list')
        return c

    @property
    def len(self):
        c = self._cell
        if isinstance(c, ListCell):
            if c.items is not None:
                return z3.IntVal(len(c.items))
            return c.hi - c.lo
        raise SpecMismatch('len of non list')

    @property
    def lo(self):
        return zi(self.sym().lo)

    @property
    def hi(self):
        return zi(self.sym().hi)

    def sym(self, t=None):
        """symbolic list cell for this list"""
        c = self._lc()
        if c.items is not None:
            c = self._e.sym_list(c, t, self._s)
        return c

    def arr(self, k=0):
        return self.sym().arrs[k]

    @property
    def dict(self):
        c = self._cell
        if not isinstance(c, DictCell):
            raise SpecMismatch('not a dict')
        return self._e.sym_dict(c, self._s)

    @property
    def order(self):
        """(n, e, pos): the members of a set, or keys of a dict, in the order the program lists them"""
        c = self._cell
        c = self._e.sym_dict(c, self._s) if isinstance(c, DictCell) else self._e.sym_set(c)
        return self._e.enum_facts(c.has, keysort(c.k))[:3]

    def dict_of(self, t):
        c = self._cell
        if not isinstance(c, DictCell):
            raise SpecMismatch('not a dict')
        return self._e.sym_dict(c, self._s, t)

    def set_of(self, k):
        """membership array of a set (or key set of a dict) with members of type k"""
        c = self._cell
        if isinstance(c, DictCell):
            return self.dict.has
        if not isinstance(c, SetCell):
            raise SpecMismatch('not a set')
        return self._e.sym_set(c, TSet(k)).has

    def leaves(self, T=None):
        return self._e.leaves(self._v, T or self._e.typeof(self._v, self._s), self._s)

    def __getitem__(self, i):
        c = self._cell
        e = self._e
        if isinstance(c, ListCell):
            if c.items is not None:
                k = const_int(i)
                if k is not None and -len(c.items) <= k < len(c.items):
                    return wrap(e, self._s, c.items[k])
                if not c.items:
                    raise SpecMismatch('index into empty list')
                c = e.sym_list(c, None, self._s)
            ab = c.lo + zi(i)
            return wrap(e, self._s, e.unpack(c.t, [z3.Select(a, ab) for a in c.arrs],
                                             Ref(self._v.root, self._v.path + (('i', simp(ab)),)) if isinstance(self._v, Ref) and e.cell(self._v, self._s).items is None else None))
        if isinstance(c, DictCell):
            for k, v in c.items or ():
                if isinstance(k, (str, int, tuple)) and type(k) is type(i) and k == i:
                    return wrap(e, self._s, v)
            c = e.sym_dict(c, self._s)
            k = e.key_of(i, c.k)
            return wrap(e, self._s, e.unpack(c.v, [z3.Select(a, k) for a in c.arrs], Ref(self._v.root, self._v.path + (('k', k),))))
        raise SpecMismatch('index')

    def has(self, k):
        c = self._cell
        if isinstance(c, DictCell):
            c = self._e.sym_dict(c, self._s)
        elif c.items is not None:
            c = self._e.sym_set(c)
        return z3.Select(c.has, self._e.key_of(k, c.k))


def wrap(e, s, v):
    if isinstance(v, (Ref, OptVal)):
        return V(e, s, v)
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, (str, bytes)):
        return zs(v)
    if isinstance(v, tuple):
        return tuple(wrap(e, s, x) for x in v)
    if isinstance(v, OpaqueVal):
        return v.term
    return v


class Ctx:
    """what a contract/invariant sees"""

    def __init__(self, eng, frame, old, entry=None, i=None, it=None, result=None, holes=None, n=None):
        self._e, self._f, self._old, self._entry = eng, frame, old, entry
        self.i, self.it, self.n = i, it, n
        self._result = result
        self._holes = holes or {}
        self.has_result = False

    @property
    def eng(self):
        return self._e

    # parameters / locals in the current state
    def v(self, name):
        name = self._holes.get(name, name)
        env = self._f.env
        if name not in env or env[name] is POISON:
            raise SpecMismatch('no local ' + name)
        return wrap(self._e, self._e.snap(), env[name])

    def raw(self, name):
        return self._f.env[self._holes.get(name, name)]

    def has(self, name):
        name = self._holes.get(name, name)
        return name in self._f.env and self._f.env[name] is not POISON

    # parameter values at function entry, in the entry state
    def o(self, name):
        return wrap(self._e, self._f.old_snap, self._f.old_env[name])

    # parameter (entry value) in the current state
    def p(self, name):
        return wrap(self._e, self._e.snap(), self._f.old_env[name])

    # value of a local at loop entry
    def e(self, name):
        name = self._holes.get(name, name)
        env, snap = self._entry
        if name not in env:
            raise SpecMismatch('no local ' + name)
        return wrap(self._e, snap, env[name])

    def ep(self, name):
        """entry-of-function parameter value, seen in the loop-entry state"""
        return wrap(self._e, self._entry[1], self._f.old_env[name])

    @property
    def result(self):
        return wrap(self._e, self._e.snap(), self._result)

    def known(self, t, vals):
        """t, or the one value of vals that the path condition gives it"""
        for k in vals:
            if self._e.entails_qf(t == k):
                return z3.IntVal(k)
        return t

    def const(self, name, sort):
        """a ghost constant, fixed for this function activation"""
        return self._f.ghost(name, sort)


class Frame:
    def __init__(self, eng, fv, depth):
        self.env = {}
        self.fv = fv
        self.depth = depth
        self.loop_no = {}
        self.old_env = {}
        self.old_snap = None
        self.contract = None
        self.ghosts = {}
        self.eng = eng
        self.gparent = None

    def ghost(self, name, sort):
        if name not in self.ghosts:
            self.ghosts[name] = self.eng.fresh('ghost_' + name, sort)
        return self.ghosts[name]


def loops_in(node):
    """loops of a function in textual order (not descending into nested defs)"""
    out = []

    def go(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(ch, (ast.For, ast.While)):
                out.append(ch)
            go(ch)
    go(node)
    return out


class LoopRun:
    """bookkeeping of one loop activation while its arbitrary iteration runs"""
    def __init__(self, key, frame, cells):
        self.key, self.frame, self.cells = key, frame, cells
        self.vars = set()
        self.locs = set()


class Budget:
    def __init__(self, deadline):
        self.deadline = deadline

    def left(self):
        return self.deadline - time.time()


_BUILTINS = set('''len range xrange enumerate min max ord chr int str bytes bytearray float bool list dict tuple set frozenset
sorted reversed zip sum any all abs isinstance type repr map filter iter next print __print__ divmod round hasattr getattr
super object property id hash format unicode long basestring callable staticmethod classmethod hex bin unichr'''.split())
_EXCS = set(EXC_BASES) | {'RuntimeError', 'LookupError', 'ArithmeticError', 'BaseException', 'OSError', 'IOError',
                          'KeyboardInterrupt', 'UnicodeDecodeError', 'MemoryError'}


# (sort name of an opaque type, key) -> (z3 function, type): x[key] of an opaque record
OPAQUE_ITEMS = {}
# (sort name of an opaque type, method) -> f(engine, object, args): a method of an opaque object
OPAQUE_METHODS = {}
# (sort name of an opaque type, attribute) -> (z3 function, type): x.attribute of an opaque object (a constant of it)
OPAQUE_ATTRS = {}
# (sort name of an opaque type, attribute) -> type: a mutable attribute nothing is claimed about: every read answers an arbitrary value of the type
OPAQUE_ANY = {}
# class key -> opaque type: objects of the class are opaque once constructed; attributes in OPAQUE_ATTRS are never assigned afterwards (an assignment is outside the subset), the others are in OPAQUE_ANY
OPAQUE_CLASSES = {}
# class key -> TObj: declared field types of the objects a constructor makes
OBJ_TYPES = {}


class Engine:
    def __init__(self, prog, contracts, budget=None, max_paths=4000, tmo=10000, globals_=None, trusted=None):
        self.prog = prog
        self.contracts = {c.key: c for c in contracts if c.call}
        self.loopspecs = {}
        for c in contracts:
            if c.loops:
                self.loopspecs.setdefault(c.key, c.loops)
        self.budget = budget or Budget(time.time() + 600)
        self.max_paths = max_paths
        self.tmo = tmo
        self.obls = []
        self.modsets = {}
        self.notes = set()
        self.solver_time = 0.0
        self.axioms = []          # global spec definitions
        self.inlined = set()
        self.used_contracts = set()
        self.globals_ = dict(globals_ or {})
        self.builtin_ext = {}
        self.opaque_items = OPAQUE_ITEMS
        self.ext_types = {}
        self.paths = 0
        self.unterminated = set()
        self.facts_used = set()
        self.sem = None     # semaphore: at most so many solver processes at a time
        self.jobs = []

    # ------------------------------------------------------------ naming
    def fresh(self, name, sort):
        self.ctr += 1
        c = z3.Const('%s!%d' % (name, self.ctr), sort)
        if self.freshlog is not None:
            self.freshlog.append(c)
        return c

    def new_cell(self, cell):
        self.cellctr += 1
        cid = self.cellctr
        self.heap[cid] = cell
        return Ref(cid)

    def snap(self):
        return Snap(dict(self.heap), dict(self.redirect))

    # ------------------------------------------------------------ path control
    def verify(self, con):
        """verify one contract; fills self.obls"""
        self.con = con
        cases = [None]
        if con.cases:
            cases = itertools.count()
        self.ncases = con.cases if isinstance(con.cases, int) else 1
        t0 = time.time()
        for case in cases:
            if case is not None and case >= self.ncases:
                break
            self.case = case
            pt = getattr(self, 'part', (0, 1))
            if case is not None and case % pt[1] != pt[0] and not (case == 0 and not isinstance(con.cases, int)):
                continue
            while True:
                mark = len(self.obls)
                try:
                    self._explore(con)
                    break
                except Restart:
                    gone = set(map(id, self.obls[mark:]))
                    from .solve import kill
                    for o, j in self.jobs:
                        if id(o) in gone:
                            kill(j, self.sem)
                    self.jobs = [x for x in self.jobs if id(x[0]) not in gone]
                    del self.obls[mark:]
                    continue
        from .solve import collect
        for o, j in self.jobs:
            o.ok, o.backend, o.t, o.info = collect(j, self.sem)
            self.solver_time += o.t
        self.jobs = []
        return self.obls

    def _explore(self, con):
        self.work = [[]]
        self.checked = set()
        n = 0
        reached_exit = 0
        while self.work:
            if self.budget.left() < 0:
                self.fail('time-budget', 'out of time')
                return
            prefix = self.work.pop()
            n += 1
            self.paths += 1
            if n > self.max_paths:
                self.fail('path-limit', 'more than %d paths' % self.max_paths)
                return
            try:
                r = self._run(con, prefix)
                reached_exit += bool(r)
            except PathEnd:
                pass
            except Restart:
                raise
            except (Unsupported, SpecMismatch) as e:
                self.fail('outside-the-subset', '%s: %s' % (type(e).__name__, e))
                return
            except OutOfTime:
                self.fail('time-budget', 'out of time')
                return
            except z3.Z3Exception as e:
                import traceback
                self.fail('outside-the-subset', 'sort mismatch: %s' % (traceback.format_exc()[-900:] if os.environ.get('VERIF_DEBUG') else str(e)[:300]))
                return
            except RecursionError:
                self.fail('outside-the-subset', 'recursion')
                return
            except (TypeError, AttributeError, KeyError, IndexError, AssertionError, ValueError, NotImplementedError) as e:
                import traceback
                self.fail('outside-the-subset', 'engine: ' + traceback.format_exc()[-900:])
                return
        if not reached_exit and not con.raises:
            self.fail('reachability', 'no path reaches a normal return: the contract is vacuous')

    def fail(self, kind, info):
        self.obls.append(Obligation('%s#%s' % (self.con.name, kind), False, '-', 0.0, info))

    def _run(self, con, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.ctr = 0
        self.freshlog = None
        self.elem = 0
        self.listed = {}
        self.cellctr = 0
        self.enums = {}
        self.heap = {}
        self.redirect = {}
        self.frozen = set()
        self.frozen_fields = set()
        self.pc = []
        self.qf = z3.Solver()
        self.qf.set('timeout', RLIM_QUICK)
        self.full = z3.Solver()
        self.full.set('timeout', RLIM_MID)
        self.full.set('mbqi', False)
        for a in self.axioms:
            self.full.add(a)
        self.loopstack = []
        self.depth = 0
        self.modglobals = {}
        self.pow2s = {}
        self.line = 0
        self.frame = None
        mod, qual, node = self.prog.find(con.key)
        fv = FuncVal(mod, qual, node)
        fr = Frame(self, fv, 0)
        fr.contract = con
        self.frame = fr
        self.top = fr
        names = [a.arg for a in node.args.args]
        dec = [d.id for d in node.decorator_list if isinstance(d, ast.Name)]
        nd = len(node.args.defaults)
        for k, nm in enumerate(names):
            if nm in con.params:
                t = con.params[nm]
                v = t(self) if callable(t) and not isinstance(t, T) else t
                fr.env[nm] = self.fresh_value(v, nm) if isinstance(v, T) else v
            else:
                j = k - (len(names) - nd)
                if j >= 0:
                    fr.env[nm] = self.eval_in_module(mod, node.args.defaults[j])
                else:
                    # positional parameter renamed: take the contract's parameter at this position
                    pn = list(con.params)
                    if k < len(pn) and pn[k] not in names:
                        fr.env[nm] = self.fresh_value(con.params[pn[k]], nm)
                        fr.env[pn[k]] = fr.env[nm]
                    else:
                        raise SpecMismatch('parameter ' + nm)
        if node.args.vararg:
            fr.env[node.args.vararg.arg] = ()
        if node.args.kwarg:
            kw = con.params.get('**', {})
            fr.env[node.args.kwarg.arg] = self.new_cell(DictCell(items=tuple(
                (k, self.fresh_value(t, k) if isinstance(t, T) else t) for k, t in kw.items())))
        for pn in con.params:       # renamed parameters: contract names stay visible
            if pn not in fr.env and pn != '**':
                k = list(con.params).index(pn)
                if k < len(names):
                    fr.env[pn] = fr.env[names[k]]
        for a in node.args.args:
            if hasattr(a, 'unpack'):
                self.assign(a.unpack, fr.env[a.arg])
        if con.entry:
            con.entry(self, fr)
        fr.old_env = dict(fr.env)
        fr.old_snap = self.snap()
        c = Ctx(self, fr, None)
        for r in self.flat(con.requires(c)):
            self.assume(r)
        if not prefix:
            self.check_sat_pre(con)
        if con.pre_hints:
            self.add_hints(con.pre_hints(c))
        if con.cases and not isinstance(con.cases, int):
            cs = con.cases(c)
            if self.case == 0 and not prefix:
                self.oblige('cases-exhaustive', z3.Or(cs))
            self.ncases = len(cs)
            self.assume(cs[self.case])
        if con.ghost:
            con.ghost(self, fr)
        exc = None
        val = None
        try:
            self.block(node.body)
        except _Return as r:
            val = r.v
        except PyRaise as x:
            exc = x
        self.exit_env = dict(fr.env)
        if exc is not None:
            ok = z3.BoolVal(False)
            if con.raises:
                cc = Ctx(self, fr, None)
                snap = (self.heap, self.redirect)
                self.heap, self.redirect = fr.old_snap.heap, fr.old_snap.redirect
                try:
                    ok = con.raises(cc)
                finally:
                    self.heap, self.redirect = snap
            self.oblige('no-exception[%s]' % exc.name, zb(ok), exc.line)
            return 0
        c = Ctx(self, fr, None)
        # parameters in postconditions denote entry values
        fr.env = dict(fr.env)
        for k in fr.old_env:
            fr.env[k] = fr.old_env[k]
        if con.returns is not None and con.returns != NONE:
            val = self.coerce(val, con.returns)
        c._result = val
        if con.exit_hints:
            self.add_hints(con.exit_hints(c))
        if con.raises:
            cc = Ctx(self, fr, None)
            snap = (self.heap, self.redirect)
            self.heap, self.redirect = fr.old_snap.heap, fr.old_snap.redirect
            try:
                must = con.raises(cc)
            finally:
                self.heap, self.redirect = snap
            if not getattr(con, 'raises_may', False):
                self.oblige('raises-when-required', z3.Not(zb(must)), self.line)
        for nm, e in self.named(con.ensures(c)):
            self.oblige('ensures ' + nm, e, self.line)
        self.check_frame(con, fr)
        return 1

    def check_sat_pre(self, con):
        """vacuity guard: the precondition must not be contradictory"""
        s = z3.Solver()
        s.set('timeout', 3000)
        for a in self.axioms + self.pc:
            s.add(a)
        r = s.check()
        if r == z3.unsat:
            self.obls.append(Obligation(con.name + '#precondition-satisfiable', False, 'z3', 0, 'requires is contradictory'))

    def check_frame(self, con, fr):
        """every location outside `modifies` that existed at entry is unchanged"""
        allowed = set()
        for m in con.modifies:
            allowed.add(m)
        for pn, t in con.params.items():
            if pn == '**' or not isinstance(t, T) or not t.mutable:
                continue
            v = fr.old_env.get(pn)
            if isinstance(v, Ref):
                self._frame_cmp(v, pn, allowed, fr)

    def _frame_cmp(self, ref, name, allowed, fr):
        if name in allowed or name + '.*' in allowed:
            return
        old = self.cell(ref, fr.old_snap)
        new = self.cell(ref)
        if old is new:
            if isinstance(old, ObjCell):
                for f, v in old.fields.items():
                    if isinstance(v, Ref):
                        self._frame_cmp(v, name + '.' + f, allowed, fr)
            return
        if isinstance(old, ObjCell):
            for f in old.fields:
                p = name + '.' + f
                if p in allowed or p + '.*' in allowed:
                    continue
                a, b = old.fields[f], new.fields.get(f)
                if a is b:
                    if isinstance(a, Ref):
                        self._frame_cmp(a, p, allowed, fr)
                    continue
                if b is None and a is not None:
                    self.oblige('frame ' + p, z3.BoolVal(False), self.line)
                    continue
                t = self.typeof(a, fr.old_snap)
                la, lb = self.leaves(a, t, fr.old_snap), self.leaves(b, t)
                self.oblige('frame ' + p, z3.And([x == y for x, y in zip(la, lb)]), self.line)
        else:
            t = self.typeof(ref, fr.old_snap)
            la, lb = self.leaves(ref, t, fr.old_snap), self.leaves(ref, t)
            self.oblige('frame ' + name, z3.And([x == y for x, y in zip(la, lb)]), self.line)

    # ------------------------------------------------------------ logic
    def flat(self, xs):
        out = []
        for x in ([xs] if not isinstance(xs, (list, tuple)) else xs):
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str):
                x = x[1]
            if isinstance(x, (list, tuple)):
                out.extend(self.flat(x))
            elif isinstance(x, Fact):
                self.facts_used.add(x.src)
                out.append(x.e)
            elif x is not None:
                out.append(zb(x))
        return out

    def add_hints(self, xs):
        """facts are assumed; any other formula is first proved"""
        for x in (xs if isinstance(xs, (list, tuple)) else [xs]):
            if isinstance(x, (list, tuple)) and not (len(x) == 2 and isinstance(x[0], str)):
                self.add_hints(x)
                continue
            if isinstance(x, tuple):
                x = x[1]
            if isinstance(x, Fact):
                self.facts_used.add(x.src)
                self.assume(x.e)
            elif x is not None:
                self.oblige('hint', zb(x))
                self.assume(x)

    def named(self, xs):
        out = []
        for k, x in enumerate([xs] if not isinstance(xs, (list, tuple)) else xs):
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str):
                nm, x = x
            else:
                nm = str(k)
            if isinstance(x, Fact):
                self.facts_used.add(x.src)
                self.assume(x.e)
            elif isinstance(x, list):
                for j, y in enumerate(x):
                    if isinstance(y, Fact):
                        self.facts_used.add(y.src)
                        self.assume(y.e)
                    else:
                        out.append(('%s.%d' % (nm, j), zb(y)))
            elif x is not None:
                out.append((nm, zb(x)))
        return out

    def assume(self, e):
        e = zb(e)
        if z3.is_true(e):
            return
        if z3.is_and(e):
            for x in e.children():
                self.assume(x)
            return
        self.pc.append(e)
        self.full.add(e)
        if not has_quant(e):
            self.qf.add(e)

    def _chk(self, solver, e):
        t = time.time()
        solver.push()
        solver.add(e)
        r = solver.check()
        solver.pop()
        self.solver_time += time.time() - t
        return r

    def feasible(self, e):
        k = const_bool(e)
        if k is not None and not k:
            return False
        if self._chk(self.qf, e) == z3.unsat:
            return False
        return True

    def entails(self, e):
        """cheap entailment: True only when proved"""
        k = const_bool(e)
        if k is not None:
            if k:
                return True
        if self._chk(self.qf, z3.Not(e)) == z3.unsat:
            return True
        if self.budget.left() < 0:
            raise OutOfTime()
        return self._chk(self.full, z3.Not(e)) == z3.unsat

    def entails_qf(self, e):
        k = const_bool(e)
        if k is not None and k:
            return True
        return self._chk(self.qf, z3.Not(e)) == z3.unsat

    def choose(self, conds):
        """fork on the given (exhaustive) list of conditions; returns an index"""
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(k)
            self.assume(conds[k])
            return k
        if self.budget.left() < 0:
            raise OutOfTime()
        feas = []
        for k, c in enumerate(conds):
            kb = const_bool(c)
            if kb is False:
                continue
            if kb is True:
                feas = [k]
                break
            feas.append(k)
        if len(feas) > 1:
            f2 = []
            for n, k in enumerate(feas):
                if not f2 and n == len(feas) - 1:
                    f2.append(k)
                elif self.feasible(conds[k]):
                    f2.append(k)
            feas = f2
        if not feas:
            raise PathEnd()
        for k in feas[1:]:
            self.work.append(self.trace + [k])
        k = feas[0]
        self.prefix = self.trace + [k]
        self.pos = len(self.prefix)
        self.trace.append(k)
        self.assume(conds[k])
        return k

    def decide(self, b):
        k = const_bool(b)
        if k is not None:
            return k
        return self.choose([b, z3.Not(b)]) == 0

    def replaying(self):
        return self.pos < len(self.prefix)

    def oblige(self, name, goal, line=None, hint=True):
        if self.replaying():
            return True
        if z3.is_and(goal):
            r = True
            for k, g in enumerate(goal.children()):
                r = self.oblige('%s/%d' % (name, k), g, line) and r
            return r
        line = line or self.line
        nm = '%s#%s@%d' % (self.con.name, name, line) + ('[case %s]' % self.case if self.case is not None else '')
        key = (nm, tuple(self.trace))
        if key in self.checked:
            return True
        self.checked.add(key)
        if const_bool(goal) is True:
            self.obls.append(Obligation(nm, True, 'simplifier', 0.0, line=line))
            return True
        if self.budget.left() < 0:
            raise OutOfTime()
        from .solve import discharge, quick, spawn
        if os.environ.get('VERIF_DUMP') and os.environ['VERIF_DUMP'] in nm:
            s = z3.Solver()
            s.add(self.axioms + self.pc)
            s.add(z3.Not(goal))
            open('/tmp/dump_%d.smt2' % len(self.obls), 'w').write(s.to_smt2())
        if self.sem is not None:
            # a short attempt here; what it does not decide goes to a child process (results are collected at the end)
            res = quick(self.axioms + self.pc, goal, 300)
            if res is None:
                o = Obligation(nm, False, '-', 0.0, 'out of time', None, line)
                self.obls.append(o)
                self.jobs.append((o, spawn(self, goal)))
                return True
            ok, be, dt, info, model = res
        else:
            ok, be, dt, info, model = discharge(self.axioms + self.pc, goal, self.tmo, self.budget)
        self.solver_time += dt
        if not ok and model is not None:
            info = (info + ' ; ' + self.describe_model(model))[:3000]
        self.obls.append(Obligation(nm, ok, be, dt, info, None, line))
        if not ok and os.environ.get('VERIF_DEBUG'):
            print('  FAILED', nm, info[:1500])
            if os.environ.get('VERIF_DEBUG') == '2':
                for p in self.pc:
                    print('     pc:', str(p).replace('\n', ' ')[:2000])
                print('     goal:', str(goal)[:4000])
        return ok

    def describe_model(self, model):
        out = []
        try:
            for k, v in self.top.old_env.items():
                out.append('%s=%s' % (k, self._mval(model, v, self.top.old_snap)))
        except Exception:
            pass
        return ', '.join(out)

    def _mval(self, m, v, s, d=0):
        if is_z3(v):
            return str(m.eval(v, model_completion=True))[:200]
        if isinstance(v, Ref) and d < 3:
            c = self.cell(v, s)
            if isinstance(c, ObjCell):
                return '{' + ', '.join('%s:%s' % (f, self._mval(m, x, s, d + 1)) for f, x in c.fields.items()) + '}'
            if isinstance(c, ListCell):
                if c.items is not None:
                    return str([self._mval(m, x, s, d + 1) for x in c.items])
                lo, hi = m.eval(zi(c.lo), model_completion=True), m.eval(zi(c.hi), model_completion=True)
                try:
                    n = hi.as_long() - lo.as_long()
                    xs = [[str(m.eval(z3.Select(a, lo + i), model_completion=True)) for a in c.arrs] for i in range(min(n, 8))]
                    return 'list(len=%d, %s)' % (n, xs)
                except Exception:
                    return 'list'
        if isinstance(v, tuple):
            return str(tuple(self._mval(m, x, s, d + 1) for x in v))
        return repr(v)[:80]

    # ------------------------------------------------------------ heap
    def _norm(self, ref, s):
        root, path = ref.root, ref.path
        red = s.redirect if s is not None else self.redirect
        while root in red:
            r = red[root]
            path = r.path + path
            root = r.root
        return root, path

    def cell(self, ref, s=None):
        root, path = self._norm(ref, s)
        heap = s.heap if s is not None else self.heap
        c = heap[root]
        for p in path:
            c = self._step(c, p)
        return c

    def _step(self, c, p):
        kind, x = p
        if kind == 'i':
            if c.items is not None:
                raise Unsupported('path into a concrete list')
            return self.cell_of(c.t, [mksel(a, x) for a in c.arrs])
        if kind == 'k':
            return self.cell_of(c.v, [mksel(a, x) for a in c.arrs])
        if kind == 'f':
            lv = c.fields[x]
            if isinstance(lv, InlineCell):
                return lv.cell
            raise Unsupported('path into a field')
        raise Unsupported('path')

    def cell_of(self, t, leaves):
        """build an (ephemeral) cell from leaves"""
        if isinstance(t, TOpt):
            return self.cell_of(t.t, leaves[1:])
        if isinstance(t, TList):
            return ListCell(t=t.t, lo=leaves[0], hi=leaves[1], arrs=tuple(leaves[2:]))
        if isinstance(t, TDict):
            return DictCell(k=t.k, v=t.v, has=leaves[0], arrs=tuple(leaves[1:]), default=t.default)
        if isinstance(t, TSet):
            return SetCell(k=t.k, has=leaves[0])
        if isinstance(t, TObj):
            fields, o = {}, 0
            for f in t.order:
                ft = t.fields[f]
                n = len(ft.sorts)
                fields[f] = InlineCell(ft, self.cell_of(ft, leaves[o:o + n])) if ft.mutable else self.unpack(ft, leaves[o:o + n])
                o += n
            return ObjCell(t.cls, fields, t)
        raise Unsupported('cell of %r' % (t,))

    def cell_leaves(self, c, t, s=None):
        if isinstance(t, TOpt):
            return [z3.BoolVal(False)] + self.cell_leaves(c, t.t, s)
        if isinstance(c, ListCell):
            if not isinstance(t, TList):
                raise Unsupported('list where %r expected' % (t,))
            if c.items is not None or c.t != t.t:
                c = self.sym_list(c, t.t, s)
            return [zi(c.lo), zi(c.hi)] + list(c.arrs)
        if isinstance(c, DictCell) and isinstance(t, TObj) and t.cls == '<rec>':
            d = dict(c.items) if c.items is not None and all(isinstance(k, str) for k, _ in c.items) else {}
            if set(d) != set(t.order):
                raise Unsupported('dictionary where a record with other keys is expected')
            return [l for f in t.order for l in self.leaves(d[f], t.fields[f], s)]
        if isinstance(c, DictCell):
            c = self.sym_dict(c, s, t)
            return [c.has] + list(c.arrs)
        if isinstance(c, SetCell):
            c = self.sym_set(c, t)
            return [c.has]
        if isinstance(c, ObjCell):
            if not isinstance(t, TObj):
                raise Unsupported('object where %r expected' % (t,))
            out = []
            for f in t.order:
                if f not in c.fields:
                    raise Unsupported('object without field ' + f)
                v = c.fields[f]
                if isinstance(v, InlineCell):
                    out += self.cell_leaves(v.cell, t.fields[f], s)
                else:
                    out += self.leaves(v, t.fields[f], s)
            return out
        raise Unsupported('leaves')

    def set_cell(self, ref, cell, field=None):
        root, path = self._norm(ref, None)
        self._log(root, field if not path else None)
        if root in self.frozen:
            raise Unsupported('change of an object that is also stored elsewhere')
        if not path:
            self.heap[root] = cell
            return
        self.heap[root] = self._set(self.heap[root], path, cell)

    def _set(self, c, path, cell):
        kind, x = path[0]
        sub = cell if len(path) == 1 else self._set(self._step(c, path[0]), path[1:], cell)
        if kind == 'i':
            lv = self.cell_leaves(sub, c.t)
            return ListCell(t=c.t, lo=c.lo, hi=c.hi, arrs=tuple(mkst(a, x, l) for a, l in zip(c.arrs, lv)))
        if kind == 'k':
            lv = self.cell_leaves(sub, c.v)
            return DictCell(k=c.k, v=c.v, has=c.has, arrs=tuple(mkst(a, x, l) for a, l in zip(c.arrs, lv)), default=c.default)
        if kind == 'f':
            if (c.cls, x) in self.frozen_fields:
                raise Unsupported('change of an object that is also stored elsewhere')
            f = dict(c.fields)
            f[x] = InlineCell(f[x].t, sub)
            return ObjCell(c.cls, f, c.T)
        raise Unsupported('set path')

    def _log(self, root, field):
        for lr in self.loopstack:
            if root in lr.cells:
                lr.locs.add((root, field))

    def _logvar(self, name):
        for lr in self.loopstack:
            if lr.frame is self.frame:
                lr.vars.add(name)

    def get_field(self, ref, f):
        c = self.cell(ref)
        if not isinstance(c, ObjCell):
            return None
        if f in c.fields:
            v = c.fields[f]
            if isinstance(v, InlineCell):
                root, path = self._norm(ref, None)
                return Ref(root, path + (('f', f),))
            return v
        return MISSING

    def set_field(self, ref, f, v):
        c = self.cell(ref)
        if c.T is not None and f in c.T.fields:
            v = self.coerce(v, c.T.fields[f])
        root, path = self._norm(ref, None)
        fields = dict(c.fields)
        if path:
            t = c.T.fields.get(f) if c.T else None
            if t is None:
                raise Unsupported('new field %s on a stored object' % f)
            if t.mutable:
                cc = self.cell(v)
                fields[f] = InlineCell(t, cc)
                if isinstance(v, Ref) and not v.path:
                    self.redirect[v.root] = Ref(root, path + (('f', f),))
            else:
                fields[f] = v
        else:
            fields[f] = v
        self.set_cell(ref, ObjCell(c.cls, fields, c.T), f)

    # ------------------------------------------------------------ typing
    def typeof(self, v, s=None):
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return BOOL
        if isinstance(v, z3.SeqRef) or isinstance(v, (str, bytes)):
            return STR
        if isinstance(v, int):
            return INT
        if isinstance(v, float):
            return REAL
        if isinstance(v, z3.ArithRef):
            return INT if v.is_int() else REAL
        if v is None:
            return NONE
        if isinstance(v, tuple):
            return TTuple(*[self.typeof(x, s) for x in v])
        if isinstance(v, OptVal):
            return TOpt(v.t)
        if isinstance(v, OpaqueVal):
            return TOpaque(str(v.term.sort()))
        if isinstance(v, InlineCell):
            return v.t
        if isinstance(v, Ref):
            return self.typeof_cell(self.cell(v, s), s)
        raise Unsupported('no symbolic type for %r' % (v,))

    def typeof_cell(self, c, s=None):
        if isinstance(c, ListCell):
            if c.items is None:
                return TList(c.t, const_int(c.lo) == 0)
            t = TUnknown()
            for x in c.items:
                t = self.join(t, unz(self.typeof(x, s)))
            return TList(t, True)
        if isinstance(c, DictCell):
            if c.items is None:
                return TDict(c.k, c.v, c.default)
            k, v = TUnknown(), TUnknown()
            for a, b in c.items:
                k = self.join(k, self.typeof(a, s))
                v = self.join(v, self.typeof(b, s))
            return TDict(k, v, c.default)
        if isinstance(c, SetCell):
            if c.items is None:
                return TSet(c.k)
            k = TUnknown()
            for a in c.items:
                k = self.join(k, self.typeof(a, s))
            return TSet(k)
        if isinstance(c, ObjCell):
            if c.T is not None:
                return c.T
            return TObj(c.cls, {f: self.typeof(v, s) for f, v in c.fields.items()})
        raise Unsupported('typeof cell')

    def join(self, a, b):
        if a == b:
            return a
        if isinstance(a, TUnknown):
            return b
        if isinstance(b, TUnknown):
            return a
        if isinstance(a, TNone):
            return b if isinstance(b, TOpt) else TOpt(b)
        if isinstance(b, TNone):
            return self.join(b, a)
        if isinstance(a, TOpt) or isinstance(b, TOpt):
            x = a.t if isinstance(a, TOpt) else a
            y = b.t if isinstance(b, TOpt) else b
            return TOpt(self.join(x, y))
        if isinstance(a, TList) and isinstance(b, TList):
            return TList(self.join(a.t, b.t), a.z and b.z)
        if isinstance(a, TSet) and isinstance(b, TSet):
            return TSet(self.join(a.k, b.k))
        if isinstance(a, TDict) and isinstance(b, TDict):
            return TDict(self.join(a.k, b.k), self.join(a.v, b.v), a.default or b.default)
        if isinstance(a, TTuple) and isinstance(b, TTuple) and len(a.ts) == len(b.ts):
            return TTuple(*[self.join(x, y) for x, y in zip(a.ts, b.ts)])
        if {type(a), type(b)} <= {TInt, TBool}:
            return INT
        if {type(a), type(b)} <= {TInt, TBool, TReal}:
            return REAL
        if isinstance(a, TObj) and isinstance(b, TObj) and a.cls == b.cls and set(a.fields) == set(b.fields):
            return TObj(a.cls, {f: self.join(a.fields[f], b.fields[f]) for f in a.fields})
        raise Unsupported('values of types %r and %r in one place' % (a, b))

    def fresh_value(self, t, name='v'):
        """a fully symbolic value of type t"""
        if isinstance(t, TTuple):
            return tuple(self.fresh_value(x, name) for x in t.ts)
        if isinstance(t, TNone):
            return None
        if isinstance(t, TObj):
            fields = {f: self.fresh_value(ft, name + '.' + f) for f, ft in t.fields.items()}
            return self.new_cell(ObjCell(t.cls, fields, t))
        ls = [self.fresh(name, s) for s in t.sorts]
        if isinstance(t, TList) and t.z:
            ls[0] = z3.IntVal(0)
        v = self.unpack(t, ls)
        self.wf_assume(t, ls)
        return v

    def wf_assume(self, t, ls):
        for f in self.wf_facts(t, ls):
            self.assume(f)

    def wf_facts(self, t, ls):
        if isinstance(t, TList):
            return [ls[0] <= ls[1]]
        if isinstance(t, TObj):
            out, o = [], 0
            for f in t.order:
                n = len(t.fields[f].sorts)
                out += self.wf_facts(t.fields[f], ls[o:o + n])
                o += n
            return out
        if isinstance(t, TOpt):
            return self.wf_facts(t.t, ls[1:])
        return []

    def unpack(self, t, ls, ref=None):
        if isinstance(t, (TInt, TBool, TReal, TStr)):
            return ls[0]
        if isinstance(t, (TOpaque, TRaw)):
            return OpaqueVal(ls[0])
        if isinstance(t, TNone) or isinstance(t, TUnknown):
            return None
        if isinstance(t, TTuple):
            out, o = [], 0
            for x in t.ts:
                n = len(x.sorts)
                out.append(self.unpack(x, ls[o:o + n]))
                o += n
            return tuple(out)
        if isinstance(t, TOpt):
            k = const_bool(ls[0])
            if k is True:
                return None
            if k is False:
                return self.unpack(t.t, ls[1:], ref)
            return OptVal(ls[0], t.t, ls[1:], ref)
        if ref is not None:
            return ref
        c = self.cell_of(t, ls)
        if isinstance(c, ObjCell):
            c = ObjCell(c.cls, {f: (self.new_cell(x.cell) if isinstance(x, InlineCell) else x) for f, x in c.fields.items()}, c.T)
        return self.new_cell(c)

    def leaves(self, v, t, s=None):
        """flatten v, seen as a value of type t"""
        if isinstance(v, InlineCell):
            return self.cell_leaves(v.cell, t, s)
        if isinstance(t, TOpt):
            if v is None:
                return [z3.BoolVal(True)] + [default_leaf(x) for x in t.t.sorts]
            if isinstance(v, OptVal):
                if v.t == t.t:
                    return [v.isnone] + list(v.leaves)
                raise Unsupported('optional of different type')
            return [z3.BoolVal(False)] + self.leaves(v, t.t, s)
        if isinstance(v, OptVal):
            if s is None:
                v = self.force(v)
                return self.leaves(v, t, s)
            raise Unsupported('optional leaves in spec')
        if isinstance(t, TInt):
            if not (is_int(v) or is_bool(v)):
                raise Unsupported('%r where an int is expected' % (v,))
            return [zi(v)]
        if isinstance(t, TBool):
            if not is_bool(v):
                raise Unsupported('%r where a bool is expected' % (v,))
            return [zb(v)]
        if isinstance(t, TReal):
            return [zr(v)]
        if isinstance(t, TStr):
            if not is_str(v):
                raise Unsupported('%r where a str is expected' % (v,))
            return [zs(v)]
        if isinstance(t, (TNone, TUnknown)):
            return []
        if isinstance(t, (TOpaque, TRaw)):
            if not isinstance(v, OpaqueVal):
                raise Unsupported('opaque expected')
            return [v.term]
        if isinstance(t, TTuple):
            if isinstance(v, Ref):
                c = self.cell(v, s)
                if isinstance(c, ListCell) and c.items is not None:
                    v = c.items
            if not isinstance(v, tuple) or len(v) != len(t.ts):
                raise Unsupported('%r where %r is expected' % (v, t))
            return [x for a, b in zip(v, t.ts) for x in self.leaves(a, b, s)]
        if isinstance(v, Ref):
            return self.cell_leaves(self.cell(v, s), t, s)
        if isinstance(v, tuple) and isinstance(t, TList):
            return self.cell_leaves(ListCell(items=v), t, s)
        raise Unsupported('%r where %r is expected' % (v, t))

    def sym_list(self, c, t=None, s=None):
        """symbolic version of a list cell (element type t)"""
        if c.items is None:
            if t is None or t == c.t or isinstance(t, TUnknown):
                return c
            if isinstance(c.t, TUnknown):
                return ListCell(t=t, lo=c.lo, hi=c.hi, arrs=tuple(default_leaf(z3.ArraySort(z3.IntSort(), x)) for x in t.sorts))
            if t == TOpt(c.t):
                return ListCell(t=t, lo=c.lo, hi=c.hi, arrs=(z3.K(z3.IntSort(), z3.BoolVal(False)),) + tuple(c.arrs))
            raise Unsupported('list of %r where list of %r is expected' % (c.t, t))
        if t is None:
            t = self.typeof_cell(c, s).t
        arrs = [default_leaf(z3.ArraySort(z3.IntSort(), x)) for x in t.sorts]
        for i, x in enumerate(c.items):
            for j, l in enumerate(self.leaves(x, t, s)):
                arrs[j] = z3.Store(arrs[j], z3.IntVal(i), l)
        return ListCell(t=t, lo=z3.IntVal(0), hi=z3.IntVal(len(c.items)), arrs=tuple(arrs))

    def sym_dict(self, c, s=None, t=None):
        if c.items is None:
            return c
        if t is None:
            t = self.typeof_cell(c, s)
        has = z3.K(keysort(t.k), z3.BoolVal(False)) if not isinstance(t.k, TUnknown) else None
        if has is None:
            raise Unsupported('dict of unknown type')
        arrs = [z3.K(keysort(t.k), default_leaf(x)) for x in t.v.sorts]
        for k, v in c.items:
            kk = self.key_of(k, t.k)
            has = z3.Store(has, kk, True)
            for j, l in enumerate(self.leaves(v, t.v, s)):
                arrs[j] = z3.Store(arrs[j], kk, l)
        return DictCell(k=t.k, v=t.v, has=has, arrs=tuple(arrs), default=c.default or t.default)

    def sym_set(self, c, t=None):
        if c.items is None:
            return c
        k = t.k if t is not None else self.typeof_cell(c).k
        if isinstance(k, TUnknown):
            raise Unsupported('set of unknown type')
        has = z3.K(keysort(k), z3.BoolVal(False))
        for x in c.items:
            has = z3.Store(has, self.key_of(x, k), True)
        return SetCell(k=k, has=has)

    def key_of(self, v, t):
        if is_z3(v) and v.sort() == keysort(t):
            return v
        return mkkey(t, self.leaves(v, t))

    def coerce(self, v, t):
        """make the stored representation of v have type t (lists/dicts become symbolic)"""
        if isinstance(t, TOpt):
            if v is None or isinstance(v, OptVal):
                return v
            return self.coerce(v, t.t)
        if isinstance(v, OptVal):
            v = self.force(v)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListCell) and isinstance(t, TList):
                if c.items is not None or c.t != t.t:
                    n = self.sym_list(c, t.t)
                    root, path = self._norm(v, None)
                    for x in (c.items or ()):
                        if isinstance(x, Ref):
                            raise Unsupported('coercion of a list of objects')
                    if path:
                        raise Unsupported('coercion under a path')
                    self.heap[root] = n
                return v
            if isinstance(c, DictCell) and isinstance(t, TDict) and c.items is not None:
                root, path = self._norm(v, None)
                self.heap[root] = self.sym_dict(c, None, t)
                return v
            if isinstance(c, SetCell) and isinstance(t, TSet) and c.items is not None:
                root, path = self._norm(v, None)
                self.heap[root] = self.sym_set(c, t)
                return v
            if isinstance(c, ObjCell) and isinstance(t, TObj) and c.T is None:
                root, path = self._norm(v, None)
                f = {k: self.coerce(x, t.fields[k]) if k in t.fields else x for k, x in c.fields.items()}
                self.heap[root] = ObjCell(c.cls, f, t)
                return v
            if isinstance(c, (ListCell, DictCell, SetCell)) and isinstance(t, (TInt, TStr, TBool)):
                raise Unsupported('container where %r is expected' % (t,))
            return v
        if isinstance(t, TTuple) and isinstance(v, tuple) and len(v) == len(t.ts):
            return tuple(self.coerce(a, b) for a, b in zip(v, t.ts))
        if isinstance(t, TList) and isinstance(v, tuple):
            return self.coerce(self.new_cell(ListCell(items=v)), t)
        if isinstance(t, TInt) and is_bool(v):
            return zi(v)
        if isinstance(t, TReal) and (is_int(v) or is_bool(v)):
            return zr(v)
        if isinstance(t, (TInt, TBool, TStr, TReal)):
            self.leaves(v, t)
        return v

    def force(self, v):
        if isinstance(v, OptVal):
            if self.decide(v.isnone):
                return None
            return self.unpack(v.t, v.leaves, v.ref)
        return v

    def store_value(self, v, t, where):
        """leaves of v for storing under path `where`; moves fresh objects"""
        v = self.force(v) if isinstance(v, OptVal) and not isinstance(t, TOpt) else v
        ls = self.leaves(v, t)
        tt = t.t if isinstance(t, TOpt) else t
        if tt.mutable and isinstance(v, Ref):
            root, path = self._norm(v, None)
            if path:
                raise Unsupported('the same object stored in two places')
            self.redirect[root] = where
            c = self.heap[root]
            if isinstance(c, ObjCell):
                # fields are copied by value: neither copy may change from here on
                for f, x in c.fields.items():
                    if isinstance(x, Ref):
                        self.frozen.add(self._norm(x, None)[0])
                        self.frozen_fields.add((c.cls, f))
        elif isinstance(tt, TTuple) and any(x.mutable for x in tt.ts):
            pass   # tuples are stored by value; their mutable parts are frozen copies
        return ls


class InlineCell:
    __slots__ = ('t', 'cell')

    def __init__(self, t, cell):
        self.t, self.cell = t, cell


class _Missing:
    pass


MISSING = _Missing()

from .interp import Interp  # noqa: E402


class Verifier(Interp, Engine):
    pass

