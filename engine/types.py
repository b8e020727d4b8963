"""Types of symbolic values and their flattening into z3 leaves."""
import z3

SEQ = z3.SeqSort(z3.IntSort())


class T:
    mutable = False

    def __eq__(self, o):
        return type(self) is type(o) and self._k() == o._k()

    def __hash__(self):
        return hash((type(self).__name__, self._k()))

    def _k(self):
        return ()

    def __repr__(self):
        return type(self).__name__[1:]


class TInt(T):
    sorts = property(lambda s: [z3.IntSort()])


class TBool(T):
    sorts = property(lambda s: [z3.BoolSort()])


class TReal(T):
    sorts = property(lambda s: [z3.RealSort()])


class TStr(T):
    sorts = property(lambda s: [SEQ])


class TNone(T):
    sorts = property(lambda s: [])


class TUnknown(T):
    """element type of an empty list whose elements are not known yet"""
    sorts = property(lambda s: [])


class TOpaque(T):
    def __init__(self, name):
        self.name = name
        self.sort = z3.DeclareSort(name)
    sorts = property(lambda s: [s.sort])

    def _k(self):
        return (self.name,)

    def __repr__(self):
        return self.name


class TRaw(T):
    """a ghost value of any z3 sort"""
    def __init__(self, sort):
        self.sort = sort
    sorts = property(lambda s: [s.sort])

    def _k(self):
        return str(self.sort)


def unz(t):
    return TList(t.t) if isinstance(t, TList) and t.z else t


class TTuple(T):
    def __init__(self, *ts):
        self.ts = tuple(ts)
    sorts = property(lambda s: [x for t in s.ts for x in t.sorts])

    def _k(self):
        return self.ts

    def __repr__(self):
        return 'Tuple%r' % (self.ts,)


class TOpt(T):
    def __init__(self, t):
        self.t = t
        self.mutable = t.mutable
    sorts = property(lambda s: [z3.BoolSort()] + s.t.sorts)

    def _k(self):
        return self.t

    def __repr__(self):
        return 'Opt(%r)' % self.t


class TList(T):
    mutable = True

    def __init__(self, t, z=False):
        self.t = unz(t)
        self.z = z      # first index is (represented as) 0
    sorts = property(lambda s: [z3.IntSort(), z3.IntSort()] + [z3.ArraySort(z3.IntSort(), x) for x in s.t.sorts])

    def _k(self):
        return (self.t, self.z)

    def __repr__(self):
        return 'List(%r)' % self.t


_kd = {}


def keysort(t):
    """One z3 sort for a (flat, immutable) key type."""
    ss = t.sorts
    if len(ss) == 1:
        return ss[0]
    k = tuple(str(s) for s in ss)
    if k not in _kd:
        d = z3.Datatype('Key%d' % len(_kd))
        d.declare('mk', *[('f%d' % i, s) for i, s in enumerate(ss)])
        _kd[k] = d.create()
    return _kd[k]


def mkkey(t, leaves):
    s = keysort(t)
    return leaves[0] if len(leaves) == 1 else s.mk(*leaves)


def unkey(t, k):
    s = keysort(t)
    n = len(t.sorts)
    return [k] if n == 1 else [s.accessor(0, i)(k) for i in range(n)]


class TDict(T):
    mutable = True

    def __init__(self, k, v, default=None):
        self.k = k
        self.v = v
        self.default = default   # name of default factory: 'list', 'int', 'dict'
    sorts = property(lambda s: [z3.ArraySort(keysort(s.k), z3.BoolSort())] +
                     [z3.ArraySort(keysort(s.k), x) for x in s.v.sorts])

    def _k(self):
        return (self.k, self.v, self.default)

    def __repr__(self):
        return 'Dict(%r,%r)' % (self.k, self.v)


class TSet(T):
    mutable = True

    def __init__(self, k):
        self.k = k
    sorts = property(lambda s: [z3.ArraySort(keysort(s.k), z3.BoolSort())])

    def _k(self):
        return self.k

    def __repr__(self):
        return 'Set(%r)' % self.k


class TObj(T):
    mutable = True

    def __init__(self, cls, fields, ghost=None):
        self.cls = cls              # 'module.py::Class'
        self.fields = dict(fields)
        self.order = sorted(self.fields)
    sorts = property(lambda s: [x for f in s.order for x in s.fields[f].sorts])

    def _k(self):
        return (self.cls, tuple((f, self.fields[f]) for f in self.order))

    def __repr__(self):
        return 'Obj(%s)' % self.cls

    def slot(self, f):
        """(offset, type) of a field in the leaf vector"""
        o = 0
        for g in self.order:
            if g == f:
                return o, self.fields[g]
            o += len(self.fields[g].sorts)
        raise KeyError(f)


def TRec(**fields):
    """a dictionary with exactly these (string) keys, values of different types"""
    return TObj('<rec>', fields)


INT, BOOL, STR, NONE, REAL = TInt(), TBool(), TStr(), TNone(), TReal()


def default_leaf(s):
    if s == z3.IntSort():
        return z3.IntVal(0)
    if s == z3.BoolSort():
        return z3.BoolVal(False)
    if s == z3.RealSort():
        return z3.RealVal(0)
    if s.kind() == z3.Z3_ARRAY_SORT:
        d = [s.domain_n(i) for i in range(s.arity())] if hasattr(s, 'arity') else [s.domain()]
        return z3.K(s.domain(), default_leaf(s.range()))
    if s.kind() == z3.Z3_SEQ_SORT:
        return z3.Empty(s)
    return z3.Const('dflt_%s' % s, s)
