"""Symbolic interpreter for the Python subset (statements, expressions, builtins)."""
import ast
import z3
from .types import *


def _late():
    from . import symex
    g = globals()
    for k, v in vars(symex).items():
        if not k.startswith('__') and k not in g:
            g[k] = v


_late()


from .speclib import SPLIT_N, SPLIT_A, FA, ASCII



def mentions(e, v):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        todo.extend(x.children())
    return False


class Interp:
    # ================================================================ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, n):
        self.line = getattr(n, 'lineno', self.line)
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s (line %d)' % (type(n).__name__, self.line))
        m(n)

    def s_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value)

    def s_Pass(self, n):
        pass

    def s_Import(self, n):
        for a in n.names:
            self.setvar((a.asname or a.name).split('.')[0], self.import_module(self.frame.fv.mod, a.name))

    def s_ImportFrom(self, n):
        for a in n.names:
            self.setvar(a.asname or a.name, self.import_from(self.frame.fv.mod, n, a.name))

    def s_Global(self, n):
        raise Unsupported('global statement')

    def s_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets:
            self.assign(t, v)

    def s_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value))

    def s_AugAssign(self, n):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t))
            v = self.augop(n.op, old, self.ev(n.value))
            if v is not None:
                self.setvar(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.force(self.ev(t.value))
            old = self.getattr(o, t.attr)
            v = self.augop(n.op, old, self.ev(n.value))
            if v is not None:
                self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.ev(t.value))
            k = self.ev_index(t.slice)
            old = self.getitem(o, k)
            v = self.augop(n.op, old, self.ev(n.value))
            if v is not None:
                self.setitem(o, k, v)
        else:
            raise Unsupported('augmented target')

    def augop(self, op, old, rhs):
        old = self.force(old)
        if isinstance(old, Ref) and isinstance(op, ast.Add) and isinstance(self.cell(old), ListCell):
            self.m_list_extend(old, rhs)
            return None
        if isinstance(old, Ref) and isinstance(op, ast.BitOr) and isinstance(self.cell(old), SetCell):
            self.set_update(old, rhs)
            return None
        return self.binop(op, old, rhs)

    def s_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                o = self.force(self.ev(t.value))
                if isinstance(t.slice, ast.Slice):
                    self.del_slice(o, t.slice)
                    continue
                self.delitem(o, self.ev_index(t.slice))
            elif isinstance(t, ast.Name):
                self._logvar(t.id)
                self.frame.env.pop(t.id, None)
            else:
                raise Unsupported('del target')

    def s_If(self, n):
        if self.truth_fork(n.test):
            self.block(n.body)
        else:
            self.block(n.orelse)

    def s_Return(self, n):
        raise _Return(self.ev(n.value) if n.value is not None else None)

    def s_Break(self, n):
        raise _Break()

    def s_Continue(self, n):
        raise _Continue()

    def s_FunctionDef(self, n):
        self.setvar(n.name, FuncVal(self.frame.fv.mod, self.frame.fv.qual + '.' + n.name, n, env=self.frame))

    def s_Assert(self, n):
        if not self.truth_fork(n.test):
            raise PyRaise('AssertionError', n.lineno)

    def s_Raise(self, n):
        if n.exc is None:
            if getattr(self, 'cur_exc', None) is not None:
                raise self.cur_exc
            raise PyRaise('RuntimeError', n.lineno)
        e = n.exc
        name = None
        if isinstance(e, ast.Call):
            f = self.ev(e.func)
            for a in e.args:
                try:
                    self.ev(a)
                except Unsupported:
                    pass
        else:
            f = self.ev(e)
        name = self.excname(f)
        raise PyRaise(name, n.lineno)

    def excname(self, f):
        if isinstance(f, ClassVal):
            return f.name
        if isinstance(f, BuiltinVal):
            return f.name
        if isinstance(f, ExcVal):
            return f.name
        if isinstance(f, str):
            return 'TypeError'
        raise Unsupported('raise of %r' % (f,))

    def s_Try(self, n):
        if n.finalbody:
            try:
                self._try(n)
            except (PyRaise, _Return, _Break, _Continue):
                self.block(n.finalbody)
                raise
            self.block(n.finalbody)
        else:
            self._try(n)

    def _try(self, n):
        depth = len(self.loopstack)
        fr = self.frame
        try:
            self.block(n.body)
        except PyRaise as x:
            for h in n.handlers:
                if self.exc_match(x.name, h.type):
                    self.frame = fr
                    if h.name:
                        self.setvar(h.name, ExcVal(x.name))
                    old = getattr(self, 'cur_exc', None)
                    self.cur_exc = x
                    self.block(h.body)
                    self.cur_exc = old
                    return
            raise
        self.block(n.orelse)

    def exc_match(self, name, t):
        if t is None:
            return True
        if isinstance(t, ast.Tuple):
            return any(self.exc_match(name, x) for x in t.elts)
        tn = self.excname(self.ev(t))
        return tn == name or tn in EXC_BASES.get(name, ['Exception', 'BaseException'])

    def s_With(self, n):
        raise Unsupported('with')

    # ---------------------------------------------------------------- loops
    def loop_spec(self, n):
        fv = self.frame.fv
        ls = self.loopspecs.get(fv.key)
        if ls:
            allp = loops_in(fv.node)
            k = allp.index(n)
            if k in ls:
                return ls[k]
            if '*' in ls:
                return ls['*']
        return None

    def s_For(self, n):
        it = self.ev(n.iter)
        seq = self.to_seq(it)
        spec = self.loop_spec(n)
        if seq.conc is not None and (spec is None or spec.unroll is not False):
            items = seq.conc() if callable(seq.conc) else seq.conc
            for x in items:
                self.assign(n.target, x)
                try:
                    self.block(n.body)
                except _Continue:
                    continue
                except _Break:
                    return
            self.block(n.orelse)
            return
        self.inv_loop(n, spec or Loop(), seq)

    def s_While(self, n):
        spec = self.loop_spec(n)
        if spec is None or spec.unroll:
            # unroll while the condition is decided on this path
            k = 0
            lim = spec.unroll if spec is not None and spec.unroll is not True and spec.unroll else 400
            while True:
                if spec is None:
                    t = self.truth(self.ev_pure_test(n.test))
                    kb = const_bool(t) if not isinstance(t, bool) else t
                    if kb is None:
                        if self.entails(t):
                            kb = True
                        elif self.entails(z3.Not(t)):
                            kb = False
                    if kb is None:
                        self.notes.add('loop at line %d has no invariant (verified with invariant true)' % n.lineno)
                        return self.inv_loop(n, Loop(), None)
                else:
                    kb = self.truth_fork(n.test)
                if not kb:
                    break
                k += 1
                if k > lim:
                    raise Unsupported('loop at line %d not bounded by %d' % (n.lineno, lim))
                try:
                    self.block(n.body)
                except _Continue:
                    continue
                except _Break:
                    return
            self.block(n.orelse)
            return
        self.inv_loop(n, spec, None)

    def ev_pure_test(self, t):
        return self.ev(t)

    def inv_loop(self, n, spec, seq):
        fr = self.frame
        key = (id(n), tuple(self.trace))
        mods = self.modsets.setdefault(key, {'vars': {}, 'locs': {}})
        for v, t in spec.types.items():
            if isinstance(fr.env.get(v), Ref):
                fr.env[v] = self.coerce(fr.env[v], t)
        entry = (dict(fr.env), self.snap())
        lname = 'loop@%d' % n.lineno
        names_assigned = set()
        N = seq.n if seq is not None else None
        c = Ctx(self, fr, None, entry, i=z3.IntVal(0), it=seq, n=N, holes=getattr(spec, 'holes', None))
        for nm, e in self.named(spec.inv(c)):
            self.oblige('%s invariant-entry %s' % (lname, nm), e, n.lineno)
        # havoc
        run = LoopRun(key, fr, set(self.heap))
        for v, t in sorted(mods['vars'].items()):
            self._logvar(v)
            if v not in fr.env or t is POISON:
                fr.env[v] = POISON
            else:
                fr.env[v] = self.fresh_value(t, v)
        for (root, field), t in sorted(mods['locs'].items(), key=lambda x: (x[0][0], str(x[0][1]))):
            if root in self.redirect:
                continue
            self._log(root, field)
            cell = self.heap[root]
            if isinstance(cell, ObjCell):
                f = dict(cell.fields)
                f[field] = self.fresh_value(t, field)
                self.heap[root] = ObjCell(cell.cls, f, cell.T)
            else:
                ls = [self.fresh('h', s) for s in t.sorts]
                if isinstance(t, TList) and t.z:
                    ls[0] = z3.IntVal(0)
                self.wf_assume(t, ls)
                self.heap[root] = self.cell_of(t, ls)
        i = None
        if seq is not None:
            # the list iterated over keeps its extent (an obligation at the back edge), its items may change
            for v, lo, hi in seq.srcs:
                cl = self.cell(v)
                if isinstance(cl, ListCell) and cl.items is None and not (zi(cl.lo).eq(zi(lo)) and zi(cl.hi).eq(zi(hi))):
                    self.set_cell(v, ListCell(t=cl.t, lo=lo, hi=hi, arrs=cl.arrs))
            i = self.fresh('i', z3.IntSort())
            self.assume(i >= 0)
            self.assume(i <= N)
        c = Ctx(self, fr, None, entry, i=i, it=seq, n=N, holes=getattr(spec, 'holes', None))
        for e in self.flat(spec.inv(c)):
            self.assume(e)
        if spec.hints:
            self.add_hints(spec.hints(c))
        dec0 = spec.dec(c) if spec.dec else None
        self.loopstack.append(run)
        try:
            if seq is not None:
                go = self.decide(i < N)
            else:
                go = self.truth_fork(n.test)
            if not go:
                self.loopstack.pop()
                run = None
                self.block(n.orelse)
                return
            if seq is not None:
                for nm in self.target_names(n.target):
                    run.vars.add(nm)
                self.assign(n.target, seq.item(i))
            try:
                self.block(n.body)
            except _Continue:
                pass
            except _Break:
                return
            if self.frame is not fr:
                raise Unsupported('frame confusion')
            # back edge
            c = Ctx(self, fr, None, entry, i=(i + 1) if i is not None else None, it=seq, n=N,
                    holes=getattr(spec, 'holes', None))
            self._alias_check(run, mods)
            self._merge(run, mods, entry)
            for v, lo, hi in (seq.srcs if seq is not None else ()):
                cl = self.cell(v)
                if not isinstance(cl, ListCell) or cl.items is not None:
                    raise Unsupported('list replaced while iterated')
                if not (zi(cl.lo).eq(zi(lo)) and zi(cl.hi).eq(zi(hi))):
                    self.oblige('%s the list iterated over keeps its extent' % lname, z3.And(cl.lo == lo, cl.hi == hi), n.lineno)
            if spec.final:
                self.add_hints(spec.final(c))
            for nm, e in self.named(spec.inv(c)):
                self.oblige('%s invariant-preserved %s' % (lname, nm), e, n.lineno)
            if dec0 is not None:
                d1 = spec.dec(c)
                if not isinstance(dec0, tuple):
                    dec0, d1 = (dec0,), (d1,)
                lt = z3.BoolVal(False)
                for a, b in reversed(list(zip(dec0, d1))):
                    lt = z3.Or(z3.And(a >= 0, b < a), z3.And(b == a, lt))
                self.oblige('%s decreases' % lname, lt, n.lineno)
            elif seq is None:
                self.unterminated.add('%s line %d' % (self.frame.fv.key, n.lineno))
            raise PathEnd()
        finally:
            if run is not None:
                if run in self.loopstack:
                    self.loopstack.remove(run)
                self._merge(run, mods, entry)

    def target_names(self, t):
        return [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]

    def _alias_check(self, run, mods):
        """two modified variables must not name one mutable object across the back edge"""
        seen = {}
        for v in sorted(run.vars):
            x = run.frame.env.get(v)
            if isinstance(x, Ref) and mods['vars'].get(v) is not POISON:
                r = self._norm(x, None)[0]
                if r in seen or (r in run.cells and not x.path):
                    # alias with another loop variable or with an object that lives outside the loop
                    w = seen.get(r)
                    cand = [y for y in (v, w) if y is not None and self.assigned_first(run, y)]
                    if not cand:
                        raise Unsupported('aliasing across loop iterations: %s' % v)
                    mods['vars'][cand[0]] = POISON
                    raise Restart()
                seen[r] = v

    def assigned_first(self, run, name):
        for nd in loops_in(run.frame.fv.node):
            if id(nd) == run.key[0]:
                body = list(nd.body)
                if isinstance(nd, ast.For) and name in self.target_names(nd.target):
                    return True
                if isinstance(nd, ast.While) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(nd.test)):
                    return False
                for s in body:
                    if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                        return not any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s.value))
                    if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s)):
                        return False
        return False

    def _merge(self, run, mods, entry):
        ch = False
        env0, snap0 = entry
        if any(root in self.frozen for root, _ in run.locs):
            raise Unsupported('change of an object that is also stored elsewhere, in a loop')
        for v in run.vars:
            if mods['vars'].get(v) is POISON:
                continue
            if v not in env0 or env0[v] is POISON:
                if v not in mods['vars']:
                    mods['vars'][v] = POISON
                    ch = True
                continue
            x = run.frame.env.get(v, POISON)
            if x is POISON:
                continue
            try:
                t = self.join(self.typeof(env0[v], snap0), self.typeof(x))
            except Unsupported:
                t = POISON
            old = mods['vars'].get(v)
            t2 = t if old is None or t is POISON else self.join(old, t)
            if t2 != old:
                mods['vars'][v] = t2
                ch = True
        for (root, field) in run.locs:
            if root not in snap0.heap:
                continue
            if root in self.redirect and root not in snap0.redirect:
                raise Unsupported('object moved into a container inside a loop')
            c0, c1 = snap0.heap[root], self.heap[root]
            if isinstance(c0, ObjCell):
                fs = [field] if field is not None else list(set(c0.fields) | set(c1.fields))
                for f in fs:
                    if f not in c1.fields:
                        continue
                    a, b = c0.fields.get(f, MISSING), c1.fields[f]
                    if a is MISSING:
                        t = self.typeof(b)
                    else:
                        t = self.join(self.typeof(a, snap0), self.typeof(b))
                    old = mods['locs'].get((root, f))
                    t2 = t if old is None else self.join(old, t)
                    if t2 != old:
                        mods['locs'][(root, f)] = t2
                        ch = True
            else:
                t = self.join(self.typeof_cell(c0, snap0), self.typeof_cell(c1))
                old = mods['locs'].get((root, None))
                t2 = t if old is None else self.join(old, t)
                if t2 != old:
                    mods['locs'][(root, None)] = t2
                    ch = True
        if ch:
            raise Restart()

    # ================================================================ variables
    def setvar(self, name, v):
        self._logvar(name)
        self.frame.env[name] = v

    def lookup(self, name):
        fr = self.frame
        while fr is not None:
            if name in fr.env:
                v = fr.env[name]
                if v is POISON:
                    raise Unsupported('local %s used after a loop that may not define it' % name)
                return v
            fr = fr.fv.env
        return self.module_global(self.frame.fv.mod, name)

    def module_global(self, mod, name):
        k = (mod.rel, name)
        if k in self.modglobals:
            return self.modglobals[k]
        if k in self.globals_:
            v = self.globals_[k]
            v = v(self) if callable(v) else v
            self.modglobals[k] = v
            return v
        d = mod.defs.get(name)
        if d is None:
            if name in _BUILTINS or name in _EXCS:
                return BuiltinVal(name)
            if name == '__name__':
                return 'module'
            raise Unsupported('name %s' % name)
        if isinstance(d, ast.FunctionDef):
            v = FuncVal(mod, name, d)
        elif isinstance(d, ast.ClassDef):
            v = ClassVal(mod, name, d)
        elif isinstance(d, ast.Import):
            v = None
            for a in d.names:
                if (a.asname or a.name).split('.')[0] == name:
                    v = self.import_module(mod, a.name)
        elif isinstance(d, ast.ImportFrom):
            v = None
            for a in d.names:
                if (a.asname or a.name) == name:
                    v = self.import_from(mod, d, a.name)
        elif isinstance(d, ast.Assign):
            before = set(self.heap)
            val = self.eval_in_module(mod, d.value)
            fr = self.frame
            self.frame = Frame(self, FuncVal(mod, '<module>', mod.tree), 0)
            for t in d.targets:
                self.assign(t, val)
            env = self.frame.env
            self.frame = fr
            for n2, x in env.items():
                self.modglobals[(mod.rel, n2)] = x
            if k not in self.modglobals:
                raise Unsupported('module global ' + name)
            return self.modglobals[k]
        else:
            raise Unsupported('module global ' + name)
        self.modglobals[k] = v
        return v

    def eval_in_module(self, mod, node):
        fr = self.frame
        ls, self.loopstack = self.loopstack, []
        self.frame = Frame(self, FuncVal(mod, '<module>', mod.tree), 0)
        try:
            return self.ev(node)
        finally:
            self.frame = fr
            self.loopstack = ls

    def import_module(self, mod, name):
        m = self.prog.resolve_module(mod, name)
        if m is not None:
            return m
        return BuiltinVal('mod:' + name)

    def import_from(self, mod, node, name):
        if node.level == 0 and node.module in ('struct', 're', 'zlib', 'collections', 'itertools', 'math', 'sys', 'os',
                                               'string', 'operator', 'functools', 'copy', 'heapq', 'array', 'urllib.parse', 'urlparse', 'json', 'locale'):
            return BuiltinVal('mod:' + node.module + '.' + name) if False else BuiltinVal(node.module + '.' + name)
        m = self.prog.resolve_module(mod, node.module or '', node.level)
        if m is not None:
            if name in m.defs:
                return self.module_global(m, name)
            sub = self.prog.resolve_module(mod, (node.module + '.' if node.module else '') + name, node.level)
            if sub is not None:
                return sub
            raise Unsupported('import of %s from %s' % (name, m.rel))
        return BuiltinVal((node.module or '') + '.' + name)

    # ================================================================ assignment
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack_iter(v, len(t.elts))
            for a, b in zip(t.elts, vs):
                self.assign(a, b)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.force(self.ev(t.value)), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.ev(t.value))
            if isinstance(t.slice, ast.Slice):
                self.set_slice(o, t.slice, v)
            else:
                self.setitem(o, self.ev_index(t.slice), v)
        else:
            raise Unsupported('assignment target')

    def unpack_iter(self, v, n):
        v = self.force(v)
        if isinstance(v, OpaqueVal) and (str(v.term.sort()), 'unpack') in self.opaque_items:
            v = self.opaque_items[(str(v.term.sort()), 'unpack')](self, v)
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyRaise('ValueError', self.line)
            return v
        seq = self.to_seq(v)
        if seq.conc is not None:
            xs = list(seq.conc() if callable(seq.conc) else seq.conc)
            if len(xs) != n:
                raise PyRaise('ValueError', self.line)
            return xs
        if not self.check(seq.n == n):
            raise PyRaise('ValueError', self.line)
        return [seq.item(z3.IntVal(k)) for k in range(n)]

    def check(self, cond):
        """True when the condition holds on this path; forks if undecided"""
        k = const_bool(cond)
        if k is not None:
            return k
        if self.elem:
            # the generic element of a comprehension: nothing may fork, so nothing is recorded
            if self.entails(cond):
                return True
            if self.entails(z3.Not(cond)):
                return False
            raise Unsupported('comprehension element forks')
        if self.replaying_next():
            return self.decide(cond)
        if self.entails(cond):
            return self.decide_known(cond)
        return self.decide(cond)

    def replaying_next(self):
        return self.pos < len(self.prefix)

    def decide_known(self, cond):
        # keep the trace aligned: this decision is recorded so that replays take it without re-proving
        return self.choose_forced([cond, z3.Not(cond)], 0)

    def choose_forced(self, conds, k):
        self.prefix = self.trace + [k]
        self.pos = len(self.prefix)
        self.trace.append(k)
        self.assume(conds[k])
        return k == 0

    # ================================================================ truth
    def truth(self, v):
        """python truthiness as bool or z3 Bool"""
        v = v if not isinstance(v, OptVal) else self.force(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, z3.BoolRef):
            return v
        if v is None:
            return False
        if isinstance(v, int) or isinstance(v, float):
            return bool(v)
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, (str, bytes, tuple)):
            return len(v) > 0
        if isinstance(v, z3.SeqRef):
            return z3.Length(v) > 0
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListCell):
                if c.items is not None:
                    return len(c.items) > 0
                return c.hi > c.lo
            if isinstance(c, (DictCell, SetCell)):
                if c.items is not None:
                    return len(c.items) > 0
                k = z3.Const('kx', keysort(c.k))
                return z3.Exists([k], z3.Select(c.has, k))
            if isinstance(c, ObjCell):
                m = self.find_method(c.cls, '__len__')
                if m is not None:
                    r = self.call(FuncVal(m.mod, m.qual, m.node, bound=v), [], {})
                    return self.truth(r)
            return True
        if isinstance(v, OpaqueVal) and (str(v.term.sort()), 'bool') in self.opaque_items:
            return self.opaque_items[(str(v.term.sort()), 'bool')](self, v)
        if isinstance(v, (FuncVal, ClassVal, BuiltinVal, OpaqueVal, BoundMethod, Module)):
            return True
        raise Unsupported('truth of %r' % (v,))

    def truth_fork(self, node):
        """evaluate a condition and decide it on this path"""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return not self.truth_fork(node.operand)
        if isinstance(node, ast.BoolOp):
            if self.simple(node):
                t = self.truth(self.ev(node))
                return t if isinstance(t, bool) else self.decide(t)
            isand = isinstance(node.op, ast.And)
            for x in node.values:
                r = self.truth_fork(x)
                if isand and not r:
                    return False
                if not isand and r:
                    return True
            return isand
        t = self.truth(self.ev(node))
        return t if isinstance(t, bool) else self.decide(t)

    def simple(self, n):
        """cannot raise, fork or have effects: names, self-fields, constants, comparisons, arithmetic without division"""
        if isinstance(n, ast.BoolOp):
            return all(self.simple(x) for x in n.values)
        if isinstance(n, ast.UnaryOp):
            return self.simple(n.operand)
        if isinstance(n, ast.Compare):
            if any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
                return False
            return all(self.simple(x) for x in [n.left] + n.comparators)
        if isinstance(n, ast.BinOp):
            if not (isinstance(n.op, (ast.Add, ast.Sub)) or
                    isinstance(n.op, (ast.Mult, ast.Mod, ast.BitAnd)) and isinstance(n.right, ast.Constant) and isinstance(n.right.value, int) and n.right.value > 0):
                return False
            if not (self.simple(n.left) and self.simple(n.right)):
                return False
            return all(is_int(self.peek(x)) for x in (n.left, n.right))
        if isinstance(n, ast.Constant):
            return True
        if isinstance(n, ast.Name) or isinstance(n, ast.Attribute):
            v = self.peek(n)
            return v is not None and (is_int(v) or is_bool(v) or is_str(v)) or isinstance(v, Ref) and isinstance(self.cell(v), ListCell)
        if isinstance(n, ast.Call):
            return isinstance(n.func, ast.Name) and n.func.id == 'len' and len(n.args) == 1 and n.func.id not in self.frame.env \
                and self.simple(n.args[0]) and (is_str(self.peek(n.args[0])) or isinstance(self.peek(n.args[0]), Ref))
        return False

    def peek(self, n):
        try:
            if isinstance(n, ast.Constant):
                return n.value
            if isinstance(n, ast.Name):
                v = self.frame.env.get(n.id)
                return None if v is POISON else v
            if isinstance(n, ast.Attribute):
                o = self.peek(n.value)
                if isinstance(o, Ref):
                    v = self.get_field(o, n.attr)
                    return None if v is MISSING else v
            if isinstance(n, ast.BinOp):
                return 0
            if isinstance(n, ast.Call):
                return 0
        except Unsupported:
            pass
        return None

    # ================================================================ expressions
    def ev(self, n):
        self.line = getattr(n, 'lineno', self.line)
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        if isinstance(n.value, complex) or n.value is Ellipsis:
            raise Unsupported('constant')
        return n.value

    def e_Name(self, n):
        return self.lookup(n.id)

    def e_Tuple(self, n):
        return tuple(self.elts(n.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                s = self.to_seq(self.ev(x.value))
                if s.conc is None:
                    raise Unsupported('star of a symbolic sequence')
                out += list(s.conc() if callable(s.conc) else s.conc)
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, n):
        return self.new_cell(ListCell(items=tuple(self.elts(n.elts))))

    def e_Set(self, n):
        return self.mkset(self.elts(n.elts))

    def e_Dict(self, n):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Unsupported('dict **')
            items.append((self.ev(k), self.ev(v)))
        return self.mkdict(items)

    def mkdict(self, items):
        d = {}
        symb = False
        for k, v in items:
            if not self.is_const(k):
                symb = True
                break
            d[k] = v
        if not symb:
            return self.new_cell(DictCell(items=tuple(d.items())))
        r = self.new_cell(DictCell(items=()))
        for k, v in items:
            self.setitem(r, k, v)
        return r

    def mkset(self, items):
        if all(self.is_const(x) for x in items):
            return self.new_cell(SetCell(items=tuple(dict.fromkeys(items))))
        r = self.new_cell(SetCell(items=()))
        for x in items:
            self.set_add(r, x)
        return r

    def is_const(self, v):
        if isinstance(v, tuple):
            return all(self.is_const(x) for x in v)
        return v is None or isinstance(v, (bool, int, float, str, bytes)) or isinstance(v, (ClassVal, FuncVal, BuiltinVal))

    def e_Attribute(self, n):
        return self.getattr(self.force(self.ev(n.value)), n.attr)

    def e_Subscript(self, n):
        o = self.force(self.ev(n.value))
        if isinstance(n.slice, ast.Slice):
            return self.getslice(o, n.slice)
        return self.getitem(o, self.ev_index(n.slice))

    def ev_index(self, n):
        return self.force(self.ev(n))

    def e_BoolOp(self, n):
        if self.simple(n):
            vs = [self.ev(x) for x in n.values]
            ts = [self.truth(v) for v in vs]
            if all(is_bool(v) for v in vs):
                if any(isinstance(t, z3.BoolRef) for t in ts):
                    return (z3.And if isinstance(n.op, ast.And) else z3.Or)([zb(t) for t in ts])
                return all(ts) if isinstance(n.op, ast.And) else any(ts)
        isand = isinstance(n.op, ast.And)
        v = None
        for k, x in enumerate(n.values):
            v = self.ev(x)
            if k == len(n.values) - 1:
                return v
            t = self.truth(v)
            b = t if isinstance(t, bool) else self.decide(t)
            if isand and not b:
                return v if not is_bool(v) else False
            if not isand and b:
                return v if not is_bool(v) else True
        return v

    def e_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            t = self.truth(self.ev(n.operand))
            return (not t) if isinstance(t, bool) else z3.Not(t)
        v = self.force(self.ev(n.operand))
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return {ast.USub: lambda a: -a, ast.UAdd: lambda a: a, ast.Invert: lambda a: ~a}[type(n.op)](v)
        if is_bool(v):
            v = zi(v)
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.Invert):
            return -v - 1
        return v

    def e_IfExp(self, n):
        return self.ev(n.body) if self.truth_fork(n.test) else self.ev(n.orelse)

    def e_Lambda(self, n):
        return FuncVal(self.frame.fv.mod, self.frame.fv.qual + '.<lambda>', n, env=self.frame)

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(n.op, a, b)

    def e_Compare(self, n):
        a = self.ev(n.left)
        res = None
        for k, (op, x) in enumerate(zip(n.ops, n.comparators)):
            b = self.ev(x)
            r = self.compare(op, a, b)
            res = r if res is None else self.b_and(res, r)
            if k < len(n.ops) - 1:
                t = res if isinstance(res, bool) else None
                if t is False:
                    return False
            a = b
        return res

    def b_and(self, a, b):
        if a is True:
            return b
        if b is True:
            return a
        if a is False or b is False:
            return False
        return z3.And(zb(a), zb(b))

    # ---------------------------------------------------------------- operators
    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        o = type(op)
        if is_bool(a) and (is_int(b) or is_bool(b) or is_real(b)):
            a = int(a) if isinstance(a, bool) else zi(a)
        if is_bool(b) and (is_int(a) or is_real(a)):
            b = int(b) if isinstance(b, bool) else zi(b)
        if is_int(a) and is_int(b):
            return self.intop(o, a, b)
        if (is_int(a) or is_real(a)) and (is_int(b) or is_real(b)):
            return self.realop(o, a, b)
        if is_str(a) and o is ast.Mod:
            return self.strformat(a, b)
        if is_str(a) and is_str(b) and o is ast.Add:
            if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
                if type(a) is not type(b):
                    raise PyRaise('TypeError', self.line)
                return a + b
            return cat(a, b)
        if is_str(a) and is_int(b) and o is ast.Mult:
            k = const_int(b)
            if k is not None:
                if isinstance(a, (str, bytes)):
                    return a * k
                return cat(*([a] * k))
            raise Unsupported('string repetition')
        if isinstance(a, tuple) and isinstance(b, tuple) and o is ast.Add:
            return a + b
        if isinstance(a, Ref):
            c = self.cell(a)
            if isinstance(c, ListCell):
                if o is ast.Add:
                    return self.list_concat(a, b)
                if o is ast.Mult:
                    return self.list_repeat(a, b)
            if isinstance(c, SetCell):
                return self.setop(o, a, b)
            if isinstance(c, ObjCell):
                nm = {ast.Add: '__add__', ast.Sub: '__sub__'}.get(o)
                m = nm and self.find_method(c.cls, nm)
                if m:
                    return self.call(FuncVal(m.mod, m.qual, m.node, bound=a), [b], {})
        if isinstance(b, Ref) and isinstance(self.cell(b), ListCell) and o is ast.Mult and is_int(a):
            return self.list_repeat(b, a)
        if isinstance(b, Ref) and isinstance(self.cell(b), ObjCell):
            nm = {ast.Add: '__radd__'}.get(o)
            m = nm and self.find_method(self.cell(b).cls, nm)
            if m:
                return self.call(FuncVal(m.mod, m.qual, m.node, bound=b), [a], {})
        if o in (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.FloorDiv) and (self.plain(a) and self.plain(b)):
            raise PyRaise('TypeError', self.line)
        raise Unsupported('operator %s on %r, %r' % (o.__name__, a, b))

    def plain(self, v):
        return v is None or is_int(v) or is_str(v) or is_bool(v) or isinstance(v, (tuple,)) or \
            isinstance(v, Ref) and not isinstance(self.cell(v), ObjCell)

    def intop(self, o, a, b):
        if isinstance(a, int) and isinstance(b, int):
            try:
                if o is ast.Add: return a + b
                if o is ast.Sub: return a - b
                if o is ast.Mult: return a * b
                if o is ast.FloorDiv or o is ast.Div and self.py == 2: return a // b
                if o is ast.Div: return a / b
                if o is ast.Mod: return a % b
                if o is ast.BitAnd: return a & b
                if o is ast.BitOr: return a | b
                if o is ast.BitXor: return a ^ b
                if o is ast.LShift: return a << b
                if o is ast.RShift: return a >> b
                if o is ast.Pow: return a ** b
            except ZeroDivisionError:
                raise PyRaise('ZeroDivisionError', self.line)
            except ValueError:
                raise PyRaise('ValueError', self.line)
        ca, cb = const_int(a), const_int(b)
        a = a if ca is None else ca
        b = b if cb is None else cb
        if ca is not None and cb is not None:
            return self.intop(o, ca, cb)
        if o is ast.Add: return a + b
        if o is ast.Sub: return a - b
        if o is ast.Mult: return a * b
        if o is ast.Div and self.py == 3:
            return self.realop(o, a, b)
        if o in (ast.FloorDiv, ast.Div, ast.Mod):
            if cb is None:
                if not self.check(zi(b) != 0):
                    raise PyRaise('ZeroDivisionError', self.line)
                if not self.check(zi(b) > 0):
                    q = (-zi(a)) / (-zi(b))
                    return q if o is not ast.Mod else zi(a) - q * zi(b)
                return zi(a) / zi(b) if o is not ast.Mod else zi(a) % zi(b)
            if cb == 0:
                raise PyRaise('ZeroDivisionError', self.line)
            if cb < 0:
                q = (-zi(a)) / z3.IntVal(-cb)
                return q if o is not ast.Mod else zi(a) - q * cb
            return mkdiv(zi(a), cb) if o is not ast.Mod else mkmod(zi(a), cb)
        if o in (ast.LShift, ast.RShift):
            if cb is None:
                k = self.concretize(b, 0, 64)
                if k is not None:
                    return self.intop(o, a, k)
                if not self.check(zi(b) >= 0):
                    raise PyRaise('ValueError', self.line)
                p = self.pow2(b)
                return zi(a) * p if o is ast.LShift else zi(a) / p
            if cb < 0:
                raise PyRaise('ValueError', self.line)
            return zi(a) * (2 ** cb) if o is ast.LShift else mkdiv(zi(a), 2 ** cb)
        if o is ast.Pow:
            if ca == 2:
                k = self.concretize(b, 0, 64)
                return 2 ** k if k is not None else self.pow2(b)
            if cb is not None and 0 <= cb <= 4:
                r = z3.IntVal(1)
                for _ in range(cb):
                    r = r * a
                return r
            raise Unsupported('power')
        if o is ast.BitAnd:
            if cb is not None and cb > 0 and cb & (cb + 1) == 0 and self.entails_qf(z3.And(zi(a) >= 0, zi(a) <= cb)):
                return zi(a)
            if ca is not None: a, b, cb = b, a, ca
            if cb is not None:
                return and_const(a, cb)
            return self.bits2(o, a, b)
        if o is ast.BitOr:
            if cb is not None: return a + cb - and_const(a, cb)
            if ca is not None: return b + ca - and_const(b, ca)
            return self.bits2(o, a, b)
        if o is ast.BitXor:
            if cb is not None: return a + cb - 2 * and_const(a, cb)
            if ca is not None: return b + ca - 2 * and_const(b, ca)
            return self.bits2(o, a, b)
        raise Unsupported('int operator ' + o.__name__)

    def concretize(self, x, lo, hi, maxn=17):
        """if x has few possible values on this path, fork on them and return the value"""
        k = const_int(x)
        if k is not None:
            return k
        if self.replaying():
            k = self.prefix[self.pos]
            if k >= 1000:
                self.pos += 1
                self.trace.append(k)
                if k == 1000:
                    return None
                self.assume(x == k - 1001)
                return k - 1001
            raise Unsupported('replay mismatch')
        vals = []
        s = z3.Solver()
        s.set('timeout', 1000)
        s.add(self.qf.assertions())
        while len(vals) <= maxn:
            r = s.check()
            if r == z3.unsat:
                break
            if r != z3.sat:
                vals = None
                break
            v = s.model().eval(x, model_completion=True)
            v = v.as_long()
            vals.append(v)
            s.add(x != v)
        if vals is None or len(vals) > maxn or any(v < lo or v > hi for v in vals):
            self.prefix = self.trace + [1000]
            self.pos = len(self.prefix)
            self.trace.append(1000)
            return None
        if not vals:
            raise PathEnd()
        vals.sort()
        for v in vals[1:]:
            self.work.append(self.trace + [1001 + v])
        v = vals[0]
        self.prefix = self.trace + [1001 + v]
        self.pos = len(self.prefix)
        self.trace.append(1001 + v)
        self.assume(x == v)
        return v

    def pow2(self, b):
        b = z3.simplify(zi(b))
        t = POW2(b)
        key = b.sexpr()
        if key not in self.pow2s:
            self.pow2s[key] = b
            self.assume(z3.Implies(b >= 0, t >= 1))
            self.assume(z3.Implies(b == 0, t == 1))
            # relate terms that differ by a constant
            for k2, b2 in list(self.pow2s.items()):
                d = const_int(z3.simplify(b - b2))
                if d is not None and 0 < d <= 64:
                    self.assume(z3.Implies(b2 >= 0, t == POW2(b2) * (2 ** d)))
                elif d is not None and -64 <= d < 0:
                    self.assume(z3.Implies(b >= 0, POW2(b2) == t * (2 ** -d)))
        return t

    def bits2(self, o, a, b):
        """bitwise operator on two symbolic ints"""
        a, b = zi(a), zi(b)
        for x, y in ((a, b), (b, a)):
            for k in (1, 2, 3, 4, 5, 6, 7, 8, 14, 16, 24):
                m = z3.IntVal(2 ** k)
                if self.entails_qf(z3.And(x % m == 0, y >= 0, y < m)):
                    return z3.IntVal(0) if o is ast.BitAnd else x + y
        for x, y in ((a, b), (b, a)):
            if self.entails(z3.And(y >= 0, y < 256)):
                for k in range(1, 9):
                    m = z3.IntVal(2 ** k)
                    if self.entails_qf(x % m == 0) and self.entails(z3.And(y < m)):
                        return z3.IntVal(0) if o is ast.BitAnd else x + y
                    if self.entails(z3.And(y < m, x % m == y)):
                        return y if o is ast.BitAnd else x if o is ast.BitOr else x - y
        w = None
        for k in (1, 4, 8, 16):
            m = 2 ** k
            if self.entails(z3.And(a >= 0, a < m, b >= 0, b < m)):
                w = k
                break
        if w is None:
            raise Unsupported('bitwise operator on unbounded integers')
        t = []
        for k in range(w):
            p, q = bit_of(a, k) == 1, bit_of(b, k) == 1
            r = {ast.BitAnd: z3.And(p, q), ast.BitOr: z3.Or(p, q), ast.BitXor: z3.Xor(p, q)}[o]
            t.append(z3.If(r, z3.IntVal(2 ** k), z3.IntVal(0)))
        return z3.Sum(t)

    def realop(self, o, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                if o is ast.Div and (self.py == 3 or isinstance(a, float) or isinstance(b, float)):
                    return float(a) / b
                if o is ast.Add: return a + b
                if o is ast.Sub: return a - b
                if o is ast.Mult: return a * b
            except ZeroDivisionError:
                raise PyRaise('ZeroDivisionError', self.line)
        x, y = zr(a), zr(b)
        if o is ast.Add: return x + y
        if o is ast.Sub: return x - y
        if o is ast.Mult: return x * y
        if o is ast.Div:
            if not self.check(y != 0):
                raise PyRaise('ZeroDivisionError', self.line)
            return x / y
        if o is ast.Pow:
            f = z3.Function('realpow', z3.RealSort(), z3.RealSort(), z3.RealSort())
            return f(x, y)
        raise Unsupported('real operator')

    # ---------------------------------------------------------------- comparison
    def compare(self, op, a, b):
        o = type(op)
        if o in (ast.Is, ast.IsNot):
            r = self.same(a, b)
            return r if o is ast.Is else self.b_not(r)
        if o in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return r if o is ast.In else self.b_not(r)
        a, b = self.optcmp(a), self.optcmp(b)
        if o in (ast.Eq, ast.NotEq):
            r = self.equal(a, b)
            return r if o is ast.Eq else self.b_not(r)
        a, b = self.force(a), self.force(b)
        if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
            if isinstance(a, int) and isinstance(b, int):
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[o]
            x, y = zi(a), zi(b)
        elif (is_real(a) or is_int(a)) and (is_real(b) or is_int(b)):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[o]
            x, y = zr(a), zr(b)
        elif isinstance(a, tuple) and isinstance(b, tuple):
            return self.tuple_less(o, a, b)
        elif isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[o]
        else:
            raise Unsupported('order comparison of %r and %r' % (a, b))
        return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[o]

    def tuple_less(self, o, a, b):
        strict = o in (ast.Lt, ast.Gt)
        if o in (ast.Gt, ast.GtE):
            a, b = b, a
        r = z3.BoolVal(not strict) if len(a) == len(b) else z3.BoolVal(len(a) < len(b))
        for x, y in reversed(list(zip(a, b))):
            lt = self.compare(ast.Lt(), x, y)
            eq = self.equal(x, y)
            r = z3.Or(zb(lt), z3.And(zb(eq), r))
        return r

    def optcmp(self, v):
        return v

    def b_not(self, r):
        return (not r) if isinstance(r, bool) else z3.Not(r)

    def same(self, a, b):
        if a is None and b is None:
            return True
        if isinstance(a, OptVal) and b is None:
            return a.isnone
        if isinstance(b, OptVal) and a is None:
            return b.isnone
        if a is None or b is None:
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a is b
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = self._norm(a, None), self._norm(b, None)
            if x == y:
                return True
            if x[0] != y[0]:
                return False
            if len(x[1]) == len(y[1]) == 1 and x[1][0][0] == 'i' and y[1][0][0] == 'i':
                return x[1][0][1] == y[1][0][1]
            raise Unsupported('is between paths')
        if is_bool(a) and is_bool(b):
            return zb(a) == zb(b)
        if isinstance(a, (ClassVal, BuiltinVal, FuncVal)) or isinstance(b, (ClassVal, BuiltinVal, FuncVal)):
            return self.fkey(a) == self.fkey(b)
        if is_int(a) and is_int(b):
            raise Unsupported('is between ints')
        return False

    def fkey(self, v):
        if isinstance(v, (ClassVal, FuncVal)):
            return v.key
        if isinstance(v, BuiltinVal):
            return v.name
        return v

    def equal(self, a, b):
        """== as bool / z3 Bool"""
        if isinstance(a, OptVal) or isinstance(b, OptVal):
            if isinstance(a, OptVal) and b is None:
                return a.isnone
            if isinstance(b, OptVal) and a is None:
                return b.isnone
            if isinstance(a, OptVal) and not isinstance(b, OptVal) and not a.t.mutable:
                try:
                    return z3.And(z3.Not(a.isnone), zb(self.equal(self.unpack(a.t, a.leaves), b)))
                except Unsupported:
                    pass
            if isinstance(b, OptVal) and not isinstance(a, OptVal):
                return self.equal(b, a)
            return self.equal(self.force(a), self.force(b))
        if a is None or b is None:
            return a is None and b is None
        if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            if is_bool(a) and is_bool(b):
                return zb(a) == zb(b)
            return zi(a) == zi(b)
        if (is_int(a) or is_real(a) or is_bool(a)) and (is_int(b) or is_real(b) or is_bool(b)):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a == b
            return zr(a) == zr(b)
        if is_str(a) and is_str(b):
            if not is_z3(a) and not is_z3(b):
                return a == b
            return zs(a) == zs(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = self.b_and(r, self.equal(x, y))
            return r
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = self.cell(a), self.cell(b)
            if isinstance(ca, ListCell) and isinstance(cb, ListCell):
                return self.list_equal(ca, cb)
            if isinstance(ca, ObjCell) and isinstance(cb, ObjCell):
                if self.find_method(ca.cls, '__eq__') or self.find_method(ca.cls, '__cmp__'):
                    raise Unsupported('__eq__')
                return self.same(a, b)
            if isinstance(ca, SetCell) and isinstance(cb, SetCell):
                if ca.items is not None and cb.items is not None and all(self.is_const(x) for x in ca.items + cb.items):
                    return set(ca.items) == set(cb.items)
                if ca.items == () and cb.items is None or cb.items == () and ca.items is None:
                    s = ca if ca.items is None else cb
                    return self.b_not(self.truth_cell(s))
                sa = self.sym_set(ca) if ca.items != () else self.sym_set(ca, TSet(cb.k))
                sb = self.sym_set(cb) if cb.items != () else self.sym_set(cb, TSet(sa.k))
                return sa.has == sb.has
            if isinstance(ca, DictCell) and isinstance(cb, DictCell):
                raise Unsupported('dict equality')
            return False
        if isinstance(a, (ClassVal, BuiltinVal, FuncVal)) or isinstance(b, (ClassVal, BuiltinVal, FuncVal)):
            return self.fkey(a) == self.fkey(b)
        if isinstance(a, OpaqueVal) and isinstance(b, OpaqueVal):
            return a.term == b.term
        if type(a) is type(b):
            raise Unsupported('equality of %r' % (a,))
        return False

    def truth_cell(self, s):
        k = z3.Const('kx', keysort(s.k))
        return z3.Exists([k], z3.Select(s.has, k))

    def list_equal(self, ca, cb):
        if ca.items is not None and cb.items is not None:
            if len(ca.items) != len(cb.items):
                return False
            r = True
            for x, y in zip(ca.items, cb.items):
                r = self.b_and(r, self.equal(x, y))
            return r
        if ca.items == () or cb.items == ():
            s = ca if ca.items is None else cb
            return s.hi == s.lo
        a = self.sym_list(ca, cb.t if ca.items is not None else None)
        b = self.sym_list(cb, ca.t if cb.items is not None else None)
        if a.t != b.t:
            raise Unsupported('list equality of different types')
        i = z3.Int('ieq')
        return z3.And(a.hi - a.lo == b.hi - b.lo,
                      z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.hi - a.lo),
                                                z3.And([z3.Select(x, a.lo + i) == z3.Select(y, b.lo + i) for x, y in zip(a.arrs, b.arrs)]))))

    def contains(self, o, x):
        o = self.force(o)
        if isinstance(o, (str, bytes)) and isinstance(x, (str, bytes)):
            return x in o
        if is_str(o):
            x = self.force(x)
            if not is_str(x):
                raise PyRaise('TypeError', self.line)
            return z3.Contains(zs(o), zs(x))
        if isinstance(o, tuple):
            r = False
            for y in o:
                e = self.equal(x, y)
                r = e if r is False else True if r is True or e is True else r if e is False else z3.Or(zb(r), zb(e))
            return r
        if isinstance(o, LazySeq):
            if o.conc is not None:
                return self.contains(tuple(o.conc() if callable(o.conc) else o.conc), x)
            if hasattr(o, 'keydict'):
                return self.contains(o.keydict, x)
            i = z3.Int('iin')
            raise Unsupported('in a lazy sequence')
        if isinstance(o, Ref):
            c = self.cell(o)
            if self.rec_of(o) is not None and isinstance(x, str):
                return x in c.fields
            if isinstance(c, ListCell):
                if c.items is not None:
                    return self.contains(c.items, x)
                i = z3.Int('iin')
                it = self.unpack(c.t, [z3.Select(a, i) for a in c.arrs], Ref(-1) if c.t.mutable else None)
                return z3.Exists([i], z3.And(c.lo <= i, i < c.hi, zb(self.equal(it, x))))
            if isinstance(c, DictCell):
                if c.items is not None:
                    return self.contains(tuple(k for k, v in c.items), x)
                if not self.keyable(x, c.k):
                    return False
                return z3.Select(c.has, self.key_of(self.force(x), c.k))
            if isinstance(c, SetCell):
                if c.items is not None:
                    return self.contains(c.items, x)
                return z3.Select(c.has, self.key_of(self.force(x), c.k))
        raise Unsupported('in %r' % (o,))

    def keyable(self, x, k):
        try:
            return self.typeof(x) == k or isinstance(k, TOpt) or is_z3(x)
        except Unsupported:
            return False

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, a):
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, ObjCell):
                v = self.get_field(o, a)
                if v is not MISSING:
                    return v
                if a == '__class__':
                    return self.class_by_key(c.cls)
                m = self.find_method(c.cls, a)
                if m is not None:
                    if isinstance(m, FuncVal):
                        decs = [d.id for d in m.node.decorator_list if isinstance(d, ast.Name)]
                        if 'staticmethod' in decs:
                            return m
                        if 'property' in decs:
                            return self.call(FuncVal(m.mod, m.qual, m.node, bound=o), [], {})
                        if 'classmethod' in decs:
                            return FuncVal(m.mod, m.qual, m.node, bound=self.class_by_key(c.cls))
                        return FuncVal(m.mod, m.qual, m.node, bound=o)
                    return m
                raise PyRaise('AttributeError', self.line)
            return BoundMethod(o, a)
        if isinstance(o, Module):
            if a in o.defs:
                return self.module_global(o, a)
            sub = self.prog.resolve_module(o, a)
            if sub:
                return sub
            raise Unsupported('attribute %s of module' % a)
        if isinstance(o, ClassVal):
            m = self.find_method(o.key, a)
            if m is None:
                raise PyRaise('AttributeError', self.line)
            if isinstance(m, FuncVal) and any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in m.node.decorator_list):
                return FuncVal(m.mod, m.qual, m.node, bound=o)
            return m
        if isinstance(o, BuiltinVal):
            if o.name.startswith('mod:'):
                n = o.name[4:] + '.' + a
                if n == 'struct.error':
                    return ExcVal('struct.error')
                return BuiltinVal(n)
            return BuiltinVal(o.name + '.' + a)
        if is_str(o) or isinstance(o, tuple) or isinstance(o, LazySeq):
            return BoundMethod(o, a)
        if o is None:
            raise PyRaise('AttributeError', self.line)
        if isinstance(o, OpaqueVal):
            f = OPAQUE_ATTRS.get((str(o.term.sort()), a))
            if f is not None:
                return self.unpack(f[1], [g(o.term) for g in (f[0] if isinstance(f[0], tuple) else (f[0],))])
            if (str(o.term.sort()), a) in OPAQUE_ANY:
                return self.fresh_value(OPAQUE_ANY[(str(o.term.sort()), a)], a)
            f = OPAQUE_METHODS.get((str(o.term.sort()), a))
            if f is not None:
                return lambda eng, args, kw: f(eng, o, args)
        if isinstance(o, FuncVal) and a in ('__name__',):
            return o.node.name
        raise Unsupported('attribute %s of %r' % (a, o))

    def class_by_key(self, key):
        m, q, n = self.prog.find(key)
        return ClassVal(m, q, n)

    def find_method(self, key, name):
        try:
            m, q, n = self.prog.find(key)
        except SpecMismatch:
            return None
        if not isinstance(n, ast.ClassDef):
            return None
        for st in n.body:
            if isinstance(st, ast.FunctionDef) and st.name == name:
                return FuncVal(m, q + '.' + name, st)
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        return self.eval_in_module(m, st.value)
        for b in n.bases:
            try:
                bv = self.eval_in_module(m, b)
            except Unsupported:
                continue
            if isinstance(bv, ClassVal):
                r = self.find_method(bv.key, name)
                if r is not None:
                    return r
        return None

    def setattr(self, o, a, v):
        if isinstance(o, Ref) and isinstance(self.cell(o), ObjCell):
            self.set_field(o, a, v)
            return
        if isinstance(o, OpaqueVal) and (str(o.term.sort()), a) in OPAQUE_ANY:
            if not self.fits(self.typeof(self.force(v)), OPAQUE_ANY[(str(o.term.sort()), a)]):
                raise Unsupported('type of attribute %s' % a)
            return
        raise Unsupported('attribute assignment on %r' % (o,))

    # ---------------------------------------------------------------- sequences
    def to_seq(self, v):
        v = self.force(v)
        if isinstance(v, LazySeq):
            return v
        if isinstance(v, tuple):
            return LazySeq(z3.IntVal(len(v)), None, conc=list(v))
        if isinstance(v, (str,)):
            return LazySeq(z3.IntVal(len(v)), None, conc=list(v))
        if isinstance(v, bytes):
            return LazySeq(z3.IntVal(len(v)), None, conc=list(v) if self.py == 3 else [v[i:i + 1] for i in range(len(v))])
        if isinstance(v, z3.SeqRef):
            return LazySeq(z3.Length(v), lambda i: self.str_item(v, i))
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListCell):
                if c.items is not None:
                    return LazySeq(z3.IntVal(len(c.items)), None, conc=lambda: list(self.cell(v).items) if self.cell(v).items is not None else self._unsup('list became symbolic'))
                lo, n0 = c.lo, c.hi - c.lo

                def item(i, v=v, lo=lo):
                    cc = self.cell(v)
                    if not (cc.lo is lo or zi(cc.lo).eq(zi(lo))):
                        raise Unsupported('list changed while iterated')
                    return self.list_at(v, simp(zi(lo) + zi(i)))
                s = LazySeq(n0, item)
                s.srcs = [(v, c.lo, c.hi)]
                if id(c) in self.listed:
                    of = self.listed[id(c)][1]
                    s.enum, s.pos, s.has = of.enum, of.pos, of.has
                return s
            if isinstance(c, DictCell):
                return self.dict_seq(v, 'keys')
            if isinstance(c, SetCell):
                return self.set_seq(v)
        raise Unsupported('iteration over %r' % (v,))

    def _unsup(self, m):
        raise Unsupported(m)

    def str_item(self, s, i):
        b = s[i]
        self.assume(z3.And(b >= 0, b < 256))
        return z3.Unit(b)

    def list_at(self, ref, ab):
        """element at absolute position ab of a symbolic list"""
        c = self.cell(ref)
        root, path = self._norm(ref, None)
        r = Ref(root, path + (('i', ab),)) if c.t.mutable else None
        ls = [z3.Select(a, ab) for a in c.arrs]
        for f in self.wf_facts(c.t, ls):
            self.assume(f)
        return self.unpack(c.t, ls, r)

    def length(self, v):
        v = self.force(v)
        if isinstance(v, (str, bytes, tuple)):
            return len(v)
        if isinstance(v, z3.SeqRef):
            return z3.Length(v)
        if isinstance(v, LazySeq):
            k = const_int(v.n)
            return k if k is not None else v.n
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListCell):
                if c.items is not None:
                    return len(c.items)
                return c.hi - c.lo
            if isinstance(c, DictCell):
                if c.items is not None:
                    return len(c.items)
                return self.dict_seq(v, 'keys').n
            if isinstance(c, SetCell):
                if c.items is not None and all(self.is_const(x) for x in c.items):
                    return len(c.items)
                return self.set_seq(v).n
            if isinstance(c, ObjCell):
                m = self.find_method(c.cls, '__len__')
                if m:
                    return self.call(FuncVal(m.mod, m.qual, m.node, bound=v), [], {})
        if v is None or is_int(v) or is_bool(v):
            raise PyRaise('TypeError', self.line)
        raise Unsupported('len of %r' % (v,))

    def norm_index(self, i, n):
        """python index -> in-range offset; raises IndexError path"""
        k = const_int(i)
        if k is not None and k < 0:
            off = n + k if not isinstance(n, int) else n + k
            if not self.check(zi(off) >= 0):
                raise PyRaise('IndexError', self.line)
            return off
        if not self.check(z3.And(zi(i) >= 0, zi(i) < zi(n))):
            if not self.check(z3.And(zi(i) < 0, zi(i) >= -zi(n))):
                raise PyRaise('IndexError', self.line)
            return zi(i) + zi(n)
        return i

    def rec_of(self, o):
        c = self.cell(o) if isinstance(o, Ref) else None
        return c if isinstance(c, ObjCell) and c.cls == '<rec>' else None

    def getitem(self, o, k):
        c = self.rec_of(o)
        if c is not None:
            if not isinstance(k, str):
                raise Unsupported('record key')
            if k not in c.fields:
                raise PyRaise('KeyError', self.line)
            return self.getattr(o, k)
        if isinstance(o, OpaqueVal) and isinstance(k, str):
            # field of an opaque record: a function of the record
            f = self.opaque_items.get((str(o.term.sort()), k))
            if f is None:
                raise Unsupported('item %r of an opaque value' % k)
            return self.unpack(f[1], [g(o.term) for g in (f[0] if isinstance(f[0], tuple) else (f[0],))])
        if isinstance(o, OpaqueVal):
            # item of an opaque sequence: what the registry says it is
            f = self.opaque_items.get((str(o.term.sort()), k if isinstance(k, int) else '[]')) or self.opaque_items.get((str(o.term.sort()), '[]'))
            if f is None:
                raise Unsupported('item %r of an opaque value' % (k,))
            return f(self, o, k)
        if isinstance(o, (tuple, str, bytes)) and isinstance(k, int):
            try:
                r = o[k]
            except IndexError:
                raise PyRaise('IndexError', self.line)
            if isinstance(o, bytes) and self.py == 2:
                return bytes([r])
            return r
        if isinstance(o, tuple) and is_int(k):
            j = self.concretize(k, 0, len(o) - 1, 300)
            if j is None:
                raise Unsupported('symbolic tuple index')
            return self.getitem(o, j)
        if is_str(o):
            if not is_int(k):
                raise PyRaise('TypeError', self.line)
            s = zs(o)
            i = self.norm_index(k, z3.Length(s))
            b = s[zi(i)]
            self.assume(z3.And(b >= 0, b < (256 if self.frame.fv.mod.py == 2 else 0x110000)))
            return z3.Unit(b)
        if isinstance(o, LazySeq):
            if o.conc is not None:
                return self.getitem(tuple(o.conc() if callable(o.conc) else o.conc), k)
            i = self.norm_index(k, o.n)
            return o.item(zi(i))
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, ListCell):
                if c.items is not None:
                    if isinstance(k, bool):
                        k = int(k)
                    if isinstance(k, int):
                        try:
                            return c.items[k]
                        except IndexError:
                            raise PyRaise('IndexError', self.line)
                    if not is_int(k):
                        raise PyRaise('TypeError', self.line)
                    j = self.concretize(k, -len(c.items), len(c.items) - 1, 40)
                    if j is not None:
                        return self.getitem(o, j)
                    t = self.typeof_cell(c).t
                    if t.mutable or isinstance(t, TUnknown):
                        raise Unsupported('symbolic index into a concrete list')
                    i = self.norm_index(k, len(c.items))
                    sc = self.sym_list(c)
                    return self.unpack(sc.t, [z3.Select(a, zi(i)) for a in sc.arrs])
                if not (is_int(k) or is_bool(k)):
                    raise PyRaise('TypeError', self.line)
                i = self.norm_index(zi(k) if is_z3(k) else k, c.hi - c.lo)
                return self.list_at(o, simp(c.lo + zi(i)))
            if isinstance(c, DictCell):
                return self.dict_get(o, k)
            if isinstance(c, ObjCell):
                m = self.find_method(c.cls, '__getitem__')
                if m:
                    return self.call(FuncVal(m.mod, m.qual, m.node, bound=o), [k], {})
        if o is None:
            raise PyRaise('TypeError', self.line)
        raise Unsupported('subscript of %r' % (o,))

    def slice_bounds(self, sl, n):
        """(lo, hi) offsets with Python clamping, step must be None"""
        if sl.step is not None:
            st = const_int(self.ev(sl.step))
            if st != 1:
                raise Unsupported('slice step')
        lo = self.force(self.ev(sl.lower)) if sl.lower is not None else None
        hi = self.force(self.ev(sl.upper)) if sl.upper is not None else None

        def norm(x, dflt):
            if x is None:
                return dflt
            if isinstance(x, int) and isinstance(n, int):
                return max(0, n + x) if x < 0 else min(x, n)
            x = zi(x)
            if self.entails(z3.And(x >= 0, x <= zi(n))):
                return x
            return z3.If(x < 0, z3.If(x + zi(n) < 0, z3.IntVal(0), x + zi(n)), z3.If(x > zi(n), zi(n), x))
        l, h = norm(lo, 0), norm(hi, n)
        if isinstance(l, int) and isinstance(h, int):
            return l, max(l, h)
        if self.entails(zi(l) <= zi(h)):
            return l, h
        return l, z3.If(zi(h) < zi(l), zi(l), zi(h))

    def getslice(self, o, sl):
        if sl.step is not None:
            st = const_int(self.ev(sl.step))
            if st == -1 and sl.lower is None and sl.upper is None:
                if isinstance(o, (str, bytes, tuple)):
                    return o[::-1]
                if isinstance(o, Ref):
                    return self.reversed_copy(o)
        if isinstance(o, (str, bytes, tuple)):
            l, h = self.slice_bounds(sl, len(o))
            if isinstance(l, int) and isinstance(h, int):
                return o[l:h]
            if isinstance(o, tuple):
                raise Unsupported('symbolic tuple slice')
            return z3.SubSeq(zs(o), zi(l), zi(h) - zi(l))
        if isinstance(o, z3.SeqRef):
            l, h = self.slice_bounds(sl, z3.Length(o))
            return z3.SubSeq(o, zi(l), simp(zi(h) - zi(l)))
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, ListCell):
                if c.items is not None:
                    l, h = self.slice_bounds(sl, len(c.items))
                    if isinstance(l, int) and isinstance(h, int):
                        return self.new_cell(ListCell(items=c.items[l:h]))
                    c = self.sym_list(c)
                    if c.t.mutable:
                        raise Unsupported('slice of a list of objects')
                    return self.new_cell(ListCell(t=c.t, lo=c.lo + zi(l), hi=c.lo + zi(h), arrs=c.arrs))
                if c.t.mutable:
                    raise Unsupported('slice of a list of objects')
                l, h = self.slice_bounds(sl, c.hi - c.lo)
                return self.new_cell(ListCell(t=c.t, lo=simp(c.lo + zi(l)), hi=simp(c.lo + zi(h)), arrs=c.arrs))
        raise Unsupported('slice of %r' % (o,))

    def set_slice(self, o, sl, v):
        if isinstance(o, Ref) and isinstance(self.cell(o), ListCell) and sl.lower is None and sl.upper is None:
            c = self.cell(v) if isinstance(v, Ref) else None
            if isinstance(c, ListCell):
                self.set_cell(o, c)
                return
        raise Unsupported('slice assignment')

    def del_slice(self, o, sl):
        if isinstance(o, Ref) and isinstance(self.cell(o), ListCell):
            c = self.cell(o)
            if c.items is not None:
                l, h = self.slice_bounds(sl, len(c.items))
                if isinstance(l, int) and isinstance(h, int):
                    self.set_cell(o, ListCell(items=c.items[:l] + c.items[h:]))
                    return
            else:
                l, h = self.slice_bounds(sl, c.hi - c.lo)
                if sl.lower is None:
                    self.set_cell(o, ListCell(t=c.t, lo=simp(c.lo + zi(h)), hi=c.hi, arrs=c.arrs))
                    return
                if sl.upper is None:
                    self.set_cell(o, ListCell(t=c.t, lo=c.lo, hi=simp(c.lo + zi(l)), arrs=c.arrs))
                    return
        raise Unsupported('del slice')

    def setitem(self, o, k, v):
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, ListCell):
                if c.items is not None:
                    j = const_int(k)
                    if j is None and is_int(k):
                        j = self.concretize(k, -len(c.items), len(c.items) - 1, 40)
                    if j is None:
                        if not c.items:
                            raise PyRaise('IndexError', self.line)
                        t = self.join(self.typeof_cell(c).t, self.typeof(v))
                        self.coerce(o, TList(t))
                        return self.setitem(o, k, v)
                    if not -len(c.items) <= j < len(c.items):
                        raise PyRaise('IndexError', self.line)
                    it = list(c.items)
                    it[j] = v
                    self.set_cell(o, ListCell(items=tuple(it)))
                    return
                i = self.norm_index(zi(k) if is_z3(k) else k, c.hi - c.lo)
                ab = simp(c.lo + zi(i))
                root, path = self._norm(o, None)
                tv = self.typeof(self.force(v) if isinstance(v, OptVal) and not isinstance(c.t, TOpt) else v)
                t = c.t if self.fits(tv, c.t) else self.join(c.t, tv)
                if t != c.t:
                    c = self.sym_list(c, t)
                ls = self.store_value(v, c.t, Ref(root, path + (('i', ab),)))
                self.set_cell(o, ListCell(t=c.t, lo=c.lo, hi=c.hi, arrs=tuple(z3.Store(a, ab, l) for a, l in zip(c.arrs, ls))))
                return
            if isinstance(c, DictCell):
                return self.dict_set(o, k, v)
        raise Unsupported('item assignment on %r' % (o,))

    def fits(self, tv, t):
        if tv == t:
            return True
        try:
            return self.join(tv, t) == t
        except Unsupported:
            return False

    def delitem(self, o, k):
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, ListCell):
                self.m_list_pop(o, k)
                return
            if isinstance(c, DictCell):
                self.dict_del(o, k)
                return
        raise Unsupported('del item')

    # ---------------------------------------------------------------- list methods
    def m_list_append(self, o, v):
        c = self.cell(o)
        if c.items is not None:
            self.set_cell(o, ListCell(items=c.items + (v,)))
            return None
        v = self.force(v) if isinstance(v, OptVal) and not isinstance(c.t, TOpt) else v
        tv = self.typeof(v)
        if not self.fits(tv, c.t):
            c = self.sym_list(c, self.join(c.t, tv))
        root, path = self._norm(o, None)
        ls = self.store_value(v, c.t, Ref(root, path + (('i', simp(c.hi)),)))
        self.set_cell(o, ListCell(t=c.t, lo=c.lo, hi=simp(c.hi + 1), arrs=tuple(z3.Store(a, simp(c.hi), l) for a, l in zip(c.arrs, ls))))
        return None

    def m_list_extend(self, o, v):
        seq = self.to_seq(v)
        if seq.conc is not None:
            for x in (seq.conc() if callable(seq.conc) else list(seq.conc)):
                self.m_list_append(o, x)
            return None
        r = self.list_concat_seq(o, seq)
        self.set_cell(o, r)
        return None

    def list_concat_seq(self, o, seq):
        """cell for list o followed by the (pure) lazy sequence seq"""
        c = self.cell(o) if o is not None else ListCell(items=())
        i = self.fresh('ci', z3.IntSort())
        mark = len(self.pc)
        tr, ctr = len(self.trace), self.ctr
        item = seq.item(i)
        if self.ctr != ctr:
            raise Unsupported('element that makes new values')
        item = self.force(item) if isinstance(item, OptVal) else item
        t = self.typeof(item)
        if t.mutable:
            raise Unsupported('concatenation of lists of objects')
        if len(self.trace) != tr:
            raise Unsupported('forking element')
        extra = self.pc[mark:]
        ls = self.leaves(item, t)
        t2 = t if c.items == () or isinstance(c.t, TUnknown) else self.join(t, self.typeof_cell(c).t)
        if t2 != t:
            ls = self.leaves(item, t2)
        c = self.sym_list(c, t2)
        arrs = []
        for a, l in zip(c.arrs, ls):
            b = self.fresh('cat', a.sort())
            j = z3.Int('jc')
            self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= c.lo, j < c.hi), z3.Select(b, j) == z3.Select(a, j)), patterns=[z3.Select(b, j)]))
            self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= c.hi, j < c.hi + seq.n),
                                                  z3.Select(b, j) == z3.substitute(l, (i, j - c.hi))), patterns=[z3.Select(b, j)]))
            if a.sort().range() != z3.IntSort():
                self.assume(FA([j], z3.Implies(z3.And(j >= 0, j < seq.n), z3.Select(b, simp(j + c.hi)) == z3.substitute(l, (i, j))), z3.substitute(l, (i, j))))
            lo, hi = const_int(c.lo), const_int(c.hi)
            if lo is not None and hi is not None and hi - lo <= 16:
                for q in range(lo, hi):
                    self.assume(z3.Select(b, q) == simp(z3.Select(a, q)))
            arrs.append(b)
        return ListCell(t=t2, lo=c.lo, hi=simp(c.hi + seq.n), arrs=tuple(arrs))

    def list_concat(self, a, b):
        ca = self.cell(a)
        cb = self.cell(b) if isinstance(b, Ref) else None
        if not isinstance(cb, ListCell):
            raise PyRaise('TypeError', self.line)
        if ca.items is not None and cb.items is not None:
            return self.new_cell(ListCell(items=ca.items + cb.items))
        n = self.new_cell(ListCell(items=ca.items) if ca.items is not None else ListCell(t=ca.t, lo=ca.lo, hi=ca.hi, arrs=ca.arrs))
        if cb.items is not None:
            for x in cb.items:
                self.m_list_append(n, x)
            return n
        self.heap[n.root] = self.list_concat_seq(n, self.to_seq(b))
        return n

    def list_repeat(self, a, b):
        c = self.cell(a)
        k = const_int(b)
        if c.items is not None and k is not None:
            return self.new_cell(ListCell(items=c.items * k))
        if c.items is not None and len(c.items) == 1:
            t = self.typeof(c.items[0])
            ls = self.leaves(c.items[0], t)
            n = z3.If(zi(b) > 0, zi(b), z3.IntVal(0))
            return self.new_cell(ListCell(t=t, lo=z3.IntVal(0), hi=n, arrs=tuple(z3.K(z3.IntSort(), l) for l in ls)))
        raise Unsupported('list repetition')

    def m_list_pop(self, o, k=None):
        c = self.cell(o)
        if c.items is not None:
            if not c.items:
                raise PyRaise('IndexError', self.line)
            j = -1 if k is None else const_int(k)
            if j is None:
                raise Unsupported('pop at symbolic index of a concrete list')
            if not -len(c.items) <= j < len(c.items):
                raise PyRaise('IndexError', self.line)
            it = list(c.items)
            v = it.pop(j)
            self.set_cell(o, ListCell(items=tuple(it)))
            return v
        if not self.check(c.hi > c.lo):
            raise PyRaise('IndexError', self.line)
        j = const_int(k) if k is not None else -1
        if j == -1 or j == 0:
            ab = simp(c.hi - 1) if j == -1 else c.lo
            v = self.unpack(c.t, [z3.Select(a, ab) for a in c.arrs])
            if isinstance(v, OptVal) and v.t.mutable:
                v = self.force(v)
            self.set_cell(o, ListCell(t=c.t, lo=c.lo if j == -1 else simp(c.lo + 1), hi=simp(c.hi - 1) if j == -1 else c.hi, arrs=c.arrs))
            return v
        i = self.norm_index(k, c.hi - c.lo)
        ab = c.lo + zi(i)
        v = self.unpack(c.t, [z3.Select(a, ab) for a in c.arrs])
        arrs = []
        jj = z3.Int('jp')
        for a in c.arrs:
            b = self.fresh('pop', a.sort())
            self.assume(z3.ForAll([jj], z3.Select(b, jj) == z3.If(jj < ab, z3.Select(a, jj), z3.Select(a, jj + 1)), patterns=[z3.Select(b, jj)]))
            arrs.append(b)
        self.set_cell(o, ListCell(t=c.t, lo=c.lo, hi=simp(c.hi - 1), arrs=tuple(arrs)))
        return v

    def m_list_insert(self, o, k, v):
        c = self.cell(o)
        j = const_int(k)
        if c.items is not None and j is not None:
            it = list(c.items)
            it.insert(j, v)
            self.set_cell(o, ListCell(items=tuple(it)))
            return None
        c = self.sym_list(c, self.typeof(v) if c.items == () else None)
        root, path = self._norm(o, None)
        if j == 0:
            ab = simp(c.lo - 1)
            ls = self.store_value(v, c.t, Ref(root, path + (('i', ab),)))
            self.set_cell(o, ListCell(t=c.t, lo=ab, hi=c.hi, arrs=tuple(z3.Store(a, ab, l) for a, l in zip(c.arrs, ls))))
            return None
        n = c.hi - c.lo
        i = zi(k)
        off = z3.If(i < 0, z3.If(i + n < 0, z3.IntVal(0), i + n), z3.If(i > n, n, i))
        ab = self.fresh('ins', z3.IntSort())
        self.assume(ab == c.lo + off)
        ls = self.store_value(v, c.t, Ref(root, path + (('i', ab),)))
        arrs = []
        jj = z3.Int('jp')
        for a, l in zip(c.arrs, ls):
            b = self.fresh('ins', a.sort())
            self.assume(z3.ForAll([jj], z3.Select(b, jj) == z3.If(jj < ab, z3.Select(a, jj), z3.If(jj == ab, l, z3.Select(a, jj - 1))), patterns=[z3.Select(b, jj)]))
            arrs.append(b)
        self.set_cell(o, ListCell(t=c.t, lo=c.lo, hi=simp(c.hi + 1), arrs=tuple(arrs)))
        return None

    def m_list_index(self, o, x):
        c = self.cell(o)
        if c.items is not None:
            for k, y in enumerate(c.items):
                e = self.equal(y, x)
                if e if isinstance(e, bool) else self.decide(e):
                    return k
            raise PyRaise('ValueError', self.line)
        i = self.fresh('idx', z3.IntSort())
        j = z3.Int('jx')
        at = lambda q: zb(self.equal(self.unpack(c.t, [z3.Select(a, c.lo + q) for a in c.arrs]), x))
        if not self.decide(z3.Exists([j], z3.And(j >= 0, j < c.hi - c.lo, at(j)))):
            raise PyRaise('ValueError', self.line)
        self.assume(z3.And(i >= 0, i < c.hi - c.lo, at(i)))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), z3.Not(at(j)))))
        return i

    def m_list_remove(self, o, x):
        k = self.m_list_index(o, x)
        self.m_list_pop(o, k)

    def m_list_reverse(self, o):
        c = self.cell(o)
        if c.items is not None:
            self.set_cell(o, ListCell(items=c.items[::-1]))
            return
        self.set_cell(o, self._reversed_cell(c))

    def _reversed_cell(self, c):
        arrs = []
        jj = z3.Int('jp')
        for a in c.arrs:
            b = self.fresh('rev', a.sort())
            self.assume(z3.ForAll([jj], z3.Select(b, jj) == z3.Select(a, c.hi - 1 - (jj - c.lo)), patterns=[z3.Select(b, jj)]))
            arrs.append(b)
        return ListCell(t=c.t, lo=c.lo, hi=c.hi, arrs=tuple(arrs))

    def reversed_copy(self, o):
        c = self.cell(o)
        if c.items is not None:
            return self.new_cell(ListCell(items=c.items[::-1]))
        if c.t.mutable:
            raise Unsupported('reversed objects')
        return self.new_cell(self._reversed_cell(c))

    def list_copy(self, v):
        seq = self.to_seq(v)
        if seq.conc is not None:
            return self.new_cell(ListCell(items=tuple(seq.conc() if callable(seq.conc) else seq.conc)))
        if isinstance(v, Ref) and isinstance(self.cell(v), ListCell):
            c = self.cell(v)
            if c.t.mutable:
                raise Unsupported('copy of a list of objects')
            return self.new_cell(ListCell(t=c.t, lo=c.lo, hi=c.hi, arrs=c.arrs))
        c = self.list_concat_seq(None, seq)
        if getattr(seq, 'enum', None) is not None:
            # the list of a set or dict: still known as the listing of that collection
            self.listed[id(c)] = (c, seq)
        return self.new_cell(c)

    def sort_list(self, cell, key=None, reverse=False):
        """cell of a sorted permutation (keys must be ints, or omitted with int elements)"""
        if cell.items is not None and all(self.is_const(x) for x in cell.items) and key is None:
            return ListCell(items=tuple(sorted(cell.items, reverse=reverse)))
        if cell.items is not None:
            if len(cell.items) <= 1:
                return cell
            cell = self.sym_list(cell)
        c = cell
        if c.t.mutable:
            raise Unsupported('sorting objects')
        n = c.hi - c.lo
        p = self.fresh('perm', z3.ArraySort(z3.IntSort(), z3.IntSort()))
        q = self.fresh('permi', z3.ArraySort(z3.IntSort(), z3.IntSort()))
        j, k = z3.Ints('js ks')
        inr = lambda x: z3.And(x >= 0, x < n)
        self.assume(z3.ForAll([j], z3.Implies(inr(j), z3.And(inr(p[j]), q[p[j]] == j)), patterns=[p[j]]))
        self.assume(z3.ForAll([j], z3.Implies(inr(j), z3.And(inr(q[j]), p[q[j]] == j)), patterns=[q[j]]))
        arrs = []
        for a in c.arrs:
            b = self.fresh('sorted', a.sort())
            self.assume(z3.ForAll([j], z3.Implies(inr(j), b[j] == z3.Select(a, c.lo + p[j])), patterns=[b[j]]))
            arrs.append(b)
        res = ListCell(t=c.t, lo=z3.IntVal(0), hi=n, arrs=tuple(arrs))
        # forward direction, for elements named in the original list
        for a, b in zip(c.arrs, arrs):
            self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= c.lo, j < c.hi), z3.Select(a, j) == b[q[j - c.lo]]), patterns=[z3.Select(a, j)]))

        def keyof(x):
            v = self.unpack(c.t, [b[x] for b in arrs])
            if key is not None:
                tr, mk = len(self.trace), len(self.pc)
                v = self.call(key, [v], {})
                if len(self.trace) != tr or len(self.pc) != mk:
                    raise Unsupported('sort key')
            return v
        kt = keyof(j)
        le = None
        if is_int(kt) or isinstance(kt, tuple) and all(is_int(x) for x in kt):
            a, b = keyof(j), keyof(k)
            le = self.compare(ast.LtE(), a, b) if not reverse else self.compare(ast.GtE(), a, b)
            self.assume(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j <= k, k < n), zb(le))))
        return res

    # ---------------------------------------------------------------- dicts
    def dict_find_const(self, c, k):
        for a, b in c.items:
            if a == k and type(a) == type(k):
                return b
        return MISSING

    def dict_get(self, o, k, dflt=MISSING):
        c = self.cell(o)
        k = self.force(k)
        if c.items is not None:
            if self.is_const(k):
                v = MISSING
                unk = False
                for a, b in c.items:
                    if self.is_const(a):
                        if a == k:
                            v = b
                    else:
                        unk = True
                if v is not MISSING:
                    return v
                if not unk:
                    return self.dict_missing(o, k, dflt)
            for a, b in c.items:
                e = self.equal(a, k)
                if e if isinstance(e, bool) else self.decide(e):
                    return b
            return self.dict_missing(o, k, dflt)
        kk = self.key_of(k, c.k)
        if c.v == STR and is_str(dflt) and self.con is not None and self.con.merge_get:
            # one value for both cases instead of two paths
            return z3.If(z3.Select(c.has, kk), mksel(c.arrs[0], kk), zs(dflt))
        if not self.check(z3.Select(c.has, kk)):
            return self.dict_missing(o, k, dflt)
        return self.dict_at(o, kk)

    def dict_at(self, o, kk):
        c = self.cell(o)
        root, path = self._norm(o, None)
        r = Ref(root, path + (('k', kk),)) if c.v.mutable else None
        ls = [mksel(a, kk) for a in c.arrs]
        for f in self.wf_facts(c.v, ls):
            self.assume(f)
        return self.unpack(c.v, ls, r)

    def dict_missing(self, o, k, dflt):
        if dflt is not MISSING:
            return dflt
        c = self.cell(o)
        if c.default is None:
            raise PyRaise('KeyError', self.line)
        v = self.default_value(c.default)
        if isinstance(c.default, str) and c.v is not None and c.items is None:
            v = self.coerce(v, c.v)
        self.dict_set(o, k, v)
        c = self.cell(o)
        if c.items is not None:
            return self.dict_find_const(c, k)
        return self.dict_at(o, self.key_of(k, c.k))

    def default_value(self, d):
        if d == 'list':
            return self.new_cell(ListCell(items=()))
        if d == 'int':
            return 0
        if d == 'dict':
            return self.new_cell(DictCell(items=()))
        if d == 'set':
            return self.new_cell(SetCell(items=()))
        if isinstance(d, FuncVal) or isinstance(d, ClassVal):
            return self.call(d, [], {})
        raise Unsupported('default factory')

    def dict_set(self, o, k, v):
        c = self.cell(o)
        k = self.force(k)
        if c.items is not None and self.is_const(k) and all(self.is_const(a) for a, b in c.items):
            d = dict(c.items)
            d[k] = v
            self.set_cell(o, DictCell(items=tuple(d.items()), default=c.default))
            return
        if c.items is not None:
            kt, vt = self.typeof(k), self.typeof(v)
            t = self.typeof_cell(c)
            t = TDict(self.join(t.k, kt), self.join(t.v, vt), c.default)
            for _, x in c.items:
                if isinstance(x, Ref):
                    raise Unsupported('dict of objects becoming symbolic')
            c = self.sym_dict(c, None, t)
        lit = isinstance(c.v, TObj) and c.v.cls == '<rec>' and isinstance(v, Ref) and isinstance(self.cell(v), DictCell)
        vt = c.v if lit else self.typeof(self.force(v) if isinstance(v, OptVal) and not isinstance(c.v, TOpt) else v)
        if not self.fits(vt, c.v):
            t2 = self.join(c.v, vt)
            if isinstance(c.v, TUnknown) or not c.arrs:
                c = DictCell(k=c.k, v=t2, has=c.has, arrs=tuple(z3.K(keysort(c.k), default_leaf(x)) for x in t2.sorts), default=c.default)
            elif t2 == TOpt(c.v):
                c = DictCell(k=c.k, v=t2, has=c.has, arrs=(z3.K(keysort(c.k), z3.BoolVal(False)),) + c.arrs, default=c.default)
            else:
                raise Unsupported('dict value of type %r in a dict of %r' % (vt, c.v))
        root, path = self._norm(o, None)
        kk = self.key_of(k, c.k)
        ls = self.store_value(v, c.v, Ref(root, path + (('k', kk),)))
        self.set_cell(o, DictCell(k=c.k, v=c.v, has=mkst(c.has, kk, z3.BoolVal(True)),
                                  arrs=tuple(mkst(a, kk, l) for a, l in zip(c.arrs, ls)), default=c.default))

    def dict_del(self, o, k):
        c = self.cell(o)
        if c.items is not None:
            if self.is_const(k) and all(self.is_const(a) for a, b in c.items):
                d = dict(c.items)
                if k not in d:
                    raise PyRaise('KeyError', self.line)
                del d[k]
                self.set_cell(o, DictCell(items=tuple(d.items()), default=c.default))
                return
            c = self.sym_dict(c)
        kk = self.key_of(self.force(k), c.k)
        if not self.check(z3.Select(c.has, kk)):
            raise PyRaise('KeyError', self.line)
        self.set_cell(o, DictCell(k=c.k, v=c.v, has=z3.Store(c.has, kk, False), arrs=c.arrs, default=c.default))

    def enum_facts(self, has, ks):
        """a list of the distinct members of a set or dict, in some order; the same collection is always listed in the same order"""
        kid = has.get_id()
        if kid in self.enums:
            return self.enums[kid][1]
        has0 = has
        n = self.fresh('n', z3.IntSort())
        if not (z3.is_const(has) and has.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            h = self.fresh('keys', has.sort())
            self.assume(h == has)
            has = h
        e = self.fresh('enum', z3.ArraySort(z3.IntSort(), ks))
        pos = self.fresh('pos', z3.ArraySort(ks, z3.IntSort()))
        i = z3.Int('ie')
        k = z3.Const('ke', ks)
        self.assume(n >= 0)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(has, e[i]), pos[e[i]] == i)), patterns=[e[i]]))
        self.assume(z3.ForAll([k], z3.Implies(z3.Select(has, k), z3.And(pos[k] >= 0, pos[k] < n, e[pos[k]] == k)), patterns=([] if self.con is not None and self.con.lean else [pos[k]]) + [z3.Select(has, k)]))
        self.enums[kid] = (has0, (n, e, pos, has))
        return n, e, pos, has

    def dict_seq(self, o, kind):
        c = self.cell(o)
        if c.items is not None:
            if kind == 'keys':
                xs = [k for k, v in c.items]
            elif kind == 'values':
                xs = [v for k, v in c.items]
            else:
                xs = [(k, v) for k, v in c.items]
            return LazySeq(z3.IntVal(len(xs)), None, conc=xs)
        n, e, pos, has = self.enum_facts(c.has, keysort(c.k))

        def item(i):
            kk = e[i]
            key = self.unpack(c.k, unkey(c.k, kk))
            if kind == 'keys':
                return key
            v = self.dict_at(o, kk)
            return v if kind == 'values' else (key, v)
        s = LazySeq(n, item)
        s.keydict = o
        s.enum, s.pos, s.has = e, pos, has
        if kind == 'keys':
            s.members = c.k
        return s

    def set_seq(self, o):
        c = self.cell(o)
        if c.items is not None:
            return LazySeq(z3.IntVal(len(c.items)), None, conc=list(c.items))
        n, e, pos, has = self.enum_facts(c.has, keysort(c.k))
        s = LazySeq(n, lambda i: self.unpack(c.k, unkey(c.k, e[i])))
        s.enum, s.pos, s.has = e, pos, has
        s.members = c.k
        return s

    # ---------------------------------------------------------------- sets
    def set_add(self, o, x):
        c = self.cell(o)
        x = self.force(x)
        if c.items is not None and self.is_const(x) and all(self.is_const(y) for y in c.items):
            if x not in c.items:
                self.set_cell(o, SetCell(items=c.items + (x,)))
            return
        c = self.sym_set(c, TSet(self.typeof(x)) if c.items == () else None)
        self.set_cell(o, SetCell(k=c.k, has=z3.Store(c.has, self.key_of(x, c.k), True)))

    def set_update(self, o, v):
        seq = self.to_seq(v)
        if seq.conc is not None:
            for x in (seq.conc() if callable(seq.conc) else list(seq.conc)):
                self.set_add(o, x)
            return
        r = self.make_set(seq)
        n = self.setop(ast.BitOr, o, r)
        self.set_cell(o, self.cell(n))

    def make_set(self, seq):
        if seq.conc is not None:
            return self.mkset(list(seq.conc() if callable(seq.conc) else seq.conc))
        if getattr(seq, 'members', None) is not None:
            return self.new_cell(SetCell(k=seq.members, has=seq.has))
        i = self.fresh('si', z3.IntSort())
        tr, ctr = len(self.trace), self.ctr
        x = seq.item(i)
        t = self.typeof(x)
        if len(self.trace) != tr:
            raise Unsupported('forking element')
        if self.ctr != ctr:
            raise Unsupported('element that makes new values')
        kx = self.key_of(x, t)
        has = self.fresh('set', z3.ArraySort(keysort(t), z3.BoolSort()))
        w = self.fresh('wit', z3.ArraySort(keysort(t), z3.IntSort()))
        k = z3.Const('kset', keysort(t))
        j = z3.Int('jset')
        self.assume(FA([j], z3.Implies(z3.And(j >= 0, j < seq.n), z3.Select(has, z3.substitute(kx, (i, j)))), z3.substitute(kx, (i, j))))
        self.assume(z3.ForAll([k], z3.Implies(has[k], z3.And(w[k] >= 0, w[k] < seq.n, z3.substitute(kx, (i, w[k])) == k)), patterns=[has[k]]))
        return self.new_cell(SetCell(k=t, has=has))

    def setop(self, o, a, b):
        ca = self.cell(a)
        cb = self.cell(b) if isinstance(b, Ref) else None
        if not isinstance(cb, SetCell):
            b = self.make_set(self.to_seq(b))
            cb = self.cell(b)
        if ca.items is not None and cb.items is not None and all(self.is_const(x) for x in ca.items + cb.items):
            s, t = set(ca.items), set(cb.items)
            r = {ast.BitOr: s | t, ast.BitAnd: s & t, ast.Sub: s - t, ast.BitXor: s ^ t}[o]
            return self.new_cell(SetCell(items=tuple(sorted(r, key=repr))))
        if ca.items == ():
            return self.new_cell(cb) if o in (ast.BitOr, ast.BitXor) else self.new_cell(SetCell(items=()))
        if cb.items == ():
            return self.new_cell(ca) if o in (ast.BitOr, ast.BitXor, ast.Sub) else self.new_cell(SetCell(items=()))
        x, y = self.sym_set(ca), self.sym_set(cb)
        k = z3.Const('ks', keysort(x.k))
        p, q = z3.Select(x.has, k), z3.Select(y.has, k)
        e = {ast.BitOr: z3.Or(p, q), ast.BitAnd: z3.And(p, q), ast.Sub: z3.And(p, z3.Not(q)), ast.BitXor: z3.Xor(p, q)}[o]
        h = self.fresh('setop', x.has.sort())
        self.assume(FA([k], z3.Select(h, k) == e, z3.Select(h, k), *([z3.MultiPattern(p, q)] if o is ast.BitAnd else [])))
        return self.new_cell(SetCell(k=x.k, has=h))

    # ---------------------------------------------------------------- comprehensions
    def e_ListComp(self, n):
        return self.comp(n)

    def e_GeneratorExp(self, n):
        return self.comp(n)

    def e_SetComp(self, n):
        r = self.comp(n)
        return self.make_set(self.to_seq(r))

    def e_DictComp(self, n):
        tup = ast.copy_location(ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), n)
        lc = ast.copy_location(ast.ListComp(elt=tup, generators=n.generators), n)
        r = self.comp(lc)
        return self.make_dict(self.to_seq(r))

    def make_dict(self, seq):
        if seq.conc is not None:
            out = self.new_cell(DictCell(items=()))
            for x in (seq.conc() if callable(seq.conc) else seq.conc):
                k, v = self.unpack_iter(x, 2)
                self.dict_set(out, k, v)
            return out
        raise Unsupported('dict from a symbolic sequence')

    def comp(self, n):
        if len(n.generators) != 1:
            # nested generators: only concrete
            return self.comp_nested(n)
        g = n.generators[0]
        seq = self.to_seq(self.ev(g.iter))
        save = {nm: self.frame.env.get(nm, MISSING) for nm in self.target_names(g.target)}
        try:
            if seq.conc is not None:
                out = []
                for x in (seq.conc() if callable(seq.conc) else list(seq.conc)):
                    self.assign(g.target, x)
                    if all(self.truth_fork(f) for f in g.ifs):
                        out.append(self.ev(n.elt))
                return self.new_cell(ListCell(items=tuple(out)))
            i = self.fresh('li', z3.IntSort())
            mark, tr = len(self.pc), len(self.trace)
            nqf = None
            hyp = z3.And(i >= 0, i < seq.n)
            # facts about the generic element are assumed under the range hypothesis
            log, self.freshlog = self.freshlog, []
            self.push_hyp(hyp)
            self.elem += 1
            try:
                self.assign(g.target, seq.item(i))
                conds = []
                for f in g.ifs:
                    conds.append(zb(self.truth(self.ev(f))))
                heap0 = set(self.heap)
                x = self.ev(n.elt)
                if isinstance(x, OptVal):
                    pass
                t = self.typeof(x)
                ls = self.leaves(x, t)
            finally:
                self.elem -= 1
                facts = self.pop_hyp(hyp)
                made, self.freshlog = self.freshlog, log
                if log is not None:
                    log.extend(made)
            if len(self.trace) != tr:
                raise Unsupported('comprehension element forks')
            j = z3.Int('jl')
            # what was made for the generic element is a function of its index
            sk = self.skolems(made, i)
            facts, ls, conds = [z3.substitute(f, *sk) for f in facts], [z3.substitute(l, *sk) for l in ls], [z3.substitute(f, *sk) for f in conds]
            for f in facts:
                self.assume(self.forall_in(j, z3.And(j >= 0, j < seq.n), z3.substitute(f, (i, j))))
            arrs = []
            if not conds:
                for l in ls:
                    b = self.fresh('map', z3.ArraySort(z3.IntSort(), l.sort()))
                    pats = [b[j]] + ([seq.enum[j]] if getattr(seq, 'enum', None) is not None else [])
                    self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < seq.n), b[j] == z3.substitute(l, (i, j))), patterns=pats))
                    arrs.append(b)
                return self.new_cell(ListCell(t=t, lo=z3.IntVal(0), hi=simp(seq.n), arrs=tuple(arrs)))
            cond = z3.And(conds) if len(conds) > 1 else conds[0]
            m = self.fresh('m', z3.IntSort())
            ix = self.fresh('ix', z3.ArraySort(z3.IntSort(), z3.IntSort()))
            po = self.fresh('po', z3.ArraySort(z3.IntSort(), z3.IntSort()))
            sub = lambda e, q: z3.substitute(e, (i, q))
            self.assume(z3.And(m >= 0, m <= seq.n))
            self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m),
                                                  z3.And(ix[j] >= 0, ix[j] < seq.n, sub(cond, ix[j]), po[ix[j]] == j)), patterns=[ix[j]]))
            self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < seq.n, sub(cond, j)),
                                                  z3.And(po[j] >= 0, po[j] < m, ix[po[j]] == j)), patterns=[po[j]]))
            k = z3.Int('kl')
            self.assume(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < m), ix[j] < ix[k]), patterns=[z3.MultiPattern(ix[j], ix[k])]))
            for l in ls:
                b = self.fresh('filt', z3.ArraySort(z3.IntSort(), l.sort()))
                self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), b[j] == sub(l, ix[j])), patterns=[b[j]]))
                arrs.append(b)
            r = self.new_cell(ListCell(t=t, lo=z3.IntVal(0), hi=m, arrs=tuple(arrs)))
            self.last_filter = (r, ix, po)
            return r
        finally:
            for nm, v in save.items():
                if self.py == 3 or isinstance(n, ast.GeneratorExp):
                    if v is MISSING:
                        self.frame.env.pop(nm, None)
                    else:
                        self.frame.env[nm] = v
                else:
                    if v is MISSING and seq.conc is None:
                        self.frame.env[nm] = POISON

    def skolems(self, made, i):
        return [(c, z3.Function(str(c) + '_at', z3.IntSort(), c.sort())(i)) for c in made] or [(i, i)]

    def forall_in(self, j, rng, f):
        """for all j in the range: f, as one quantifier"""
        if z3.is_quantifier(f) and f.is_forall():
            vs = [z3.Const('%s_%d' % (f.var_name(k), self.ctr), f.var_sort(k)) for k in range(f.num_vars())]
            body = z3.substitute_vars(f.body(), *reversed(vs))
            ps = [z3.MultiPattern(*[z3.substitute_vars(q, *reversed(vs)) for q in f.pattern(k).children()]) for k in range(f.num_patterns())]
            self.ctr += 1
            ps = [p for p in ps if mentions(p, j) and all(mentions(p, v) for v in vs)]
            try:
                return z3.ForAll([j] + vs, z3.Implies(rng, body), patterns=ps)
            except z3.Z3Exception:
                return z3.ForAll([j] + vs, z3.Implies(rng, body))
        return z3.ForAll([j], z3.Implies(rng, f))

    def push_hyp(self, hyp):
        self._hyp = (len(self.pc),)
        self.full.push()
        self.qf.push()
        self.hypmark = len(self.pc)
        self.assume(hyp)

    def pop_hyp(self, hyp):
        facts = self.pc[self.hypmark + len(self.flat([x for x in (hyp.children() if z3.is_and(hyp) else [hyp])])):]
        del self.pc[self.hypmark:]
        self.full.pop()
        self.qf.pop()
        return facts

    def comp_nested(self, n):
        out = []

        def go(k):
            if k == len(n.generators):
                out.append(self.ev(n.elt))
                return
            g = n.generators[k]
            seq = self.to_seq(self.ev(g.iter))
            if seq.conc is None:
                raise Unsupported('nested symbolic comprehension')
            for x in (seq.conc() if callable(seq.conc) else list(seq.conc)):
                self.assign(g.target, x)
                if all(self.truth_fork(f) for f in g.ifs):
                    go(k + 1)
        go(0)
        return self.new_cell(ListCell(items=tuple(out)))

    def e_JoinedStr(self, n):
        return self.fresh('fstr', SEQ)

    # ---------------------------------------------------------------- calls
    def e_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == '__print__':
            # print: arguments are evaluated for their effects; formatting is not modelled
            for a in n.args:
                try:
                    self.ev(a)
                except Unsupported:
                    pass
            return None
        if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all') and n.func.id not in self.frame.env and len(n.args) == 1 \
                and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.quant_comp(n.func.id, n.args[0])
        f = self.force(self.ev(n.func))
        args = self.elts(n.args)
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                c = self.cell(v) if isinstance(v, Ref) else None
                if isinstance(c, DictCell) and c.items is not None:
                    kw.update({a: b for a, b in c.items})
                elif isinstance(c, DictCell) and isinstance(f, BuiltinVal) and f.name == 'dict' and len(n.keywords) == 1:
                    self.line = n.lineno
                    o = self.call(f, args, {})
                    self.m_dict_update(o, v)
                    return o
                else:
                    raise Unsupported('**kwargs %s %s' % (v, f))
            else:
                kw[k.arg] = v
        self.line = n.lineno
        return self.call(f, args, kw)

    def quant_comp(self, which, n):
        g = n.generators[0]
        seq = self.to_seq(self.ev(g.iter))
        if seq.conc is not None or len(n.generators) > 1:
            r = self.comp(n)
            ts = [self.truth(x) for x in self.cell(r).items]
            if all(isinstance(t, bool) for t in ts):
                return any(ts) if which == 'any' else all(ts)
            return (z3.Or if which == 'any' else z3.And)([zb(t) for t in ts])
        i = self.fresh('qi', z3.IntSort())
        tr = len(self.trace)
        save = {nm: self.frame.env.get(nm, MISSING) for nm in self.target_names(g.target)}
        hyp = z3.And(i >= 0, i < seq.n)
        self.push_hyp(hyp)
        self.elem += 1
        try:
            self.assign(g.target, seq.item(i))
            cs = [zb(self.truth(self.ev(f))) for f in g.ifs]
            b = zb(self.truth(self.ev(n.elt)))
        finally:
            self.elem -= 1
            facts = self.pop_hyp(hyp)
            for nm, v in save.items():
                if v is MISSING:
                    self.frame.env.pop(nm, None)
                else:
                    self.frame.env[nm] = v
        if len(self.trace) != tr:
            raise Unsupported('forking in any/all')
        j = z3.Int('jq')
        for f in facts:
            self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < seq.n), z3.substitute(f, (i, j)))))
        rng = [hyp] + cs
        if which == 'any':
            return z3.Exists([j], z3.substitute(z3.And(rng + [b]), (i, j)))
        return z3.ForAll([j], z3.substitute(z3.Implies(z3.And(rng), b), (i, j)))

    def call(self, f, args, kw):
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, BuiltinVal):
            return self.call_builtin(f.name, args, kw)
        if isinstance(f, BoundMethod):
            return self.call_method(f.recv, f.name, args, kw)
        if isinstance(f, Ref) and isinstance(self.cell(f), ObjCell):
            m = self.find_method(self.cell(f).cls, '__call__')
            if m:
                return self.call_func(FuncVal(m.mod, m.qual, m.node, bound=f), args, kw)
        if callable(f) and not is_z3(f):
            return f(self, args, kw)
        if isinstance(f, OpaqueVal):
            g = OPAQUE_METHODS.get((str(f.term.sort()), '__call__'))
            if g is not None:
                return g(self, f, args)
        if f is None or is_int(f) or is_str(f):
            raise PyRaise('TypeError', self.line)
        raise Unsupported('call of %r' % (f,))

    def is_exc_class(self, cv):
        for b in cv.node.bases:
            try:
                v = self.eval_in_module(cv.mod, b)
            except Unsupported:
                continue
            if isinstance(v, BuiltinVal) and v.name in _EXCS:
                return True
            if isinstance(v, ClassVal) and self.is_exc_class(v):
                return True
        return False

    def instantiate(self, cv, args, kw):
        if self.is_exc_class(cv):
            return ExcVal(cv.name)
        o = self.new_cell(ObjCell(cv.key, {}))
        m = self.find_method(cv.key, '__init__')
        if m is not None:
            self.call_func(FuncVal(m.mod, m.qual, m.node, bound=o), args, kw)
        if cv.key in OPAQUE_CLASSES:
            t = OPAQUE_CLASSES[cv.key]
            x = self.fresh('new_%s' % cv.name, t.sort)
            for a, v in self.cell(o).fields.items():
                v = self.force(v)
                if (t.name, a) in OPAQUE_ATTRS:
                    f, ft = OPAQUE_ATTRS[(t.name, a)]
                    for g, l in zip(f if isinstance(f, tuple) else (f,), self.leaves(v, ft)):
                        self.assume(g(x) == l)
                elif (t.name, a) not in OPAQUE_ANY or not self.fits(self.typeof(v), OPAQUE_ANY[(t.name, a)]):
                    raise Unsupported('attribute %s of an opaque object' % a)
            return OpaqueVal(x)
        if cv.key in OBJ_TYPES:
            self.coerce(o, OBJ_TYPES[cv.key])
        return o

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.args]
        if f.bound is not None:
            args = [f.bound] + list(args)
        env = {}
        if len(args) > len(names):
            if not a.vararg:
                raise PyRaise('TypeError', self.line)
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg:
            env[a.vararg.arg] = ()
        for nm, v in zip(names, args):
            env[nm] = v
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    raise PyRaise('TypeError', self.line)
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = self.new_cell(DictCell(items=tuple(extra.items())))
        elif extra:
            raise PyRaise('TypeError', self.line)
        nd = len(a.defaults)
        for k, nm in enumerate(names):
            if nm not in env:
                j = k - (len(names) - nd)
                if j < 0:
                    raise PyRaise('TypeError', self.line)
                env[nm] = self.eval_in_module(f.mod, a.defaults[j])
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                env[x.arg] = self.eval_in_module(f.mod, d)
        return env

    def call_func(self, f, args, kw):
        key = f.key
        env = self.bind(f, args, kw)
        con = self.contracts.get(key)
        if con is not None:
            return self.apply_contract(con, f, env)
        if self.depth > 12:
            raise Unsupported('inlining depth')
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
            raise Unsupported('generator function')
        self.inlined.add(key)
        fr = Frame(self, f, self.depth + 1)
        fr.env = env
        for a in f.node.args.args:
            if hasattr(a, 'unpack'):
                old = self.frame
                self.frame = fr
                self.assign(a.unpack, env[a.arg])
                self.frame = old
        fr.old_env = dict(env)
        fr.old_snap = self.snap()
        fr.caller = self.frame
        old, line = self.frame, self.line
        self.frame = fr
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body)
            self.block(f.node.body)
            return None
        except _Return as r:
            return r.v
        finally:
            self.frame = old
            self.depth -= 1
            self.line = line

    def apply_contract(self, con, f, env):
        self.used_contracts.add(con.key)
        fr = Frame(self, f, self.depth + 1)
        names = [a.arg for a in f.node.args.args]
        pnames = list(con.params)
        for k, nm in enumerate(names):
            if nm in con.params:
                env[nm] = self.coerce(env[nm], con.params[nm]) if isinstance(con.params[nm], T) else env[nm]
            elif k < len(pnames) and pnames[k] not in names:
                env[pnames[k]] = self.coerce(env[nm], con.params[pnames[k]])
        fr.env = env
        fr.old_env = dict(env)
        fr.old_snap = self.snap()
        fr.caller = self.frame
        line = self.line
        c = Ctx(self, fr, None)
        for nm, e in self.named(con.requires(c)):
            self.oblige('call %s requires %s' % (f.qual, nm), e, line)
            self.assume(e)
        if con.raises:
            r = zb(con.raises(c))
            if con.raises_may:
                r = z3.And(r, self.fresh('raised', z3.BoolSort()))
            if self.decide(r):
                raise PyRaise(getattr(con, 'exc', 'StandardError'), line)
        for m in con.modifies:
            self.havoc_path(env, m)
        res = None
        if con.returns is not None and not isinstance(con.returns, TNone):
            res = self.fresh_value(con.returns, 'ret')
        c._result = res
        for e in self.flat(con.ensures(c)):
            self.assume(e)
        if con.call_hints:
            self.add_hints(con.call_hints(c))
        return res

    def havoc_path(self, env, m):
        parts = m.split('.')
        v = env.get(parts[0])
        if v is None or not isinstance(v, Ref):
            if v is None or isinstance(v, tuple):
                raise Unsupported('modifies ' + m)
        if len(parts) == 1:
            t = self.typeof(v)
            ls = [self.fresh(m, s) for s in t.sorts]
            self.wf_assume(t, ls)
            self.set_cell(v, self.cell_of(t, ls))
            return
        for p in parts[1:-1]:
            v = self.get_field(v, p)
        f = parts[-1]
        old = self.get_field(v, f)
        if old is MISSING:
            c = self.cell(v)
            raise SpecMismatch('modifies unknown field ' + m)
        t = self.cell(v).T.fields[f] if self.cell(v).T is not None and f in self.cell(v).T.fields else unz(self.typeof(old))
        self.set_field(v, f, self.fresh_value(t, f))

    # ---------------------------------------------------------------- builtins
    def call_method(self, o, name, args, kw):
        o = self.force(o)
        if isinstance(o, Ref):
            c = self.cell(o)
            kind = {ListCell: 'list', DictCell: 'dict', SetCell: 'set'}.get(type(c))
            m = getattr(self, 'm_%s_%s' % (kind, name), None)
            if m is None:
                raise Unsupported('method %s of a %s' % (name, kind))
            return m(o, *args, **kw)
        if is_str(o):
            m = getattr(self, 'm_str_' + name, None)
            if m is None:
                return self.str_uf(name, o, args)
            return m(o, *args, **kw)
        if isinstance(o, tuple) and name == 'index':
            return self.m_list_index(self.new_cell(ListCell(items=o)), *args)
        raise Unsupported('method %s of %r' % (name, o))

    def m_list_sort(self, o, cmp=None, key=None, reverse=False):
        if cmp is not None:
            raise Unsupported('sort cmp')
        self.set_cell(o, self.sort_list(self.cell(o), key, bool(reverse)))

    def m_list_count(self, o, x):
        raise Unsupported('count')

    def m_list_copy(self, o):
        return self.list_copy(o)

    def m_list_clear(self, o):
        self.set_cell(o, ListCell(items=()))

    def m_dict_get(self, o, k, d=None):
        return self.dict_get(o, k, d)

    def m_dict_keys(self, o):
        return self.dict_seq(o, 'keys')

    def m_dict_values(self, o):
        return self.dict_seq(o, 'values')

    def m_dict_items(self, o):
        return self.dict_seq(o, 'items')

    m_dict_iteritems = m_dict_items
    m_dict_iterkeys = m_dict_keys
    m_dict_itervalues = m_dict_values

    def m_dict_has_key(self, o, k):
        return self.contains(o, k)

    def m_dict_pop(self, o, k, d=MISSING):
        b = self.contains(o, k)
        if b if isinstance(b, bool) else self.check(b):
            v = self.dict_get(o, k)
            self.dict_del(o, k)
            return v
        if d is MISSING:
            raise PyRaise('KeyError', self.line)
        return d

    def m_dict_setdefault(self, o, k, d=None):
        b = self.contains(o, k)
        if not (b if isinstance(b, bool) else self.check(b)):
            self.dict_set(o, k, d)
        return self.dict_get(o, k)

    def m_dict_update(self, o, d):
        c = self.cell(d)
        if isinstance(c, DictCell) and c.items is not None:
            for k, v in c.items:
                self.dict_set(o, k, v)
            return
        mine = self.cell(o)
        if isinstance(c, DictCell):
            t = self.typeof_cell(c)
            if c.v.mutable and not self.shared_ok():
                raise Unsupported('update with a dict of objects')
            a = self.sym_dict(mine, None, TDict(c.k, c.v, mine.default) if mine.items is not None and not mine.items else None)
            if a.v != c.v or a.k != c.k:
                raise Unsupported('update with a dict of another type')
            k = z3.Const('ku', keysort(c.k))
            has = self.fresh('upd', a.has.sort())
            self.assume(z3.ForAll([k], has[k] == z3.Or(a.has[k], c.has[k]), patterns=[has[k]]))
            arrs = []
            for x, y in zip(a.arrs, c.arrs):
                b = self.fresh('upd', x.sort())
                self.assume(z3.ForAll([k], b[k] == z3.If(c.has[k], y[k], x[k]), patterns=[b[k]]))
                arrs.append(b)
            self.set_cell(o, DictCell(k=a.k, v=a.v, has=has, arrs=tuple(arrs), default=a.default))
            return
        if isinstance(c, ListCell) and c.items is not None:
            for x in c.items:
                k, v = self.unpack_iter(x, 2)
                self.dict_set(o, k, v)
            return
        if isinstance(c, ListCell) and isinstance(c.t, TTuple) and len(c.t.ts) == 2:
            kt, vt = c.t.ts
            if mine.items is not None and mine.items:
                mine = self.sym_dict(mine)
            a = self.sym_dict(mine, None, TDict(kt, vt, mine.default)) if mine.items is not None else mine
            if a.v != vt or a.k != kt:
                raise Unsupported('update with pairs of another type: %r %r, %r %r' % (a.k, kt, a.v, vt))
            n1 = len(kt.sorts)
            j, k = z3.Int('jp'), z3.Const('kp', keysort(kt))
            key = lambda j: mkkey(kt, [z3.Select(x, j) for x in c.arrs[:n1]])
            has = self.fresh('upd', a.has.sort())
            m = self.fresh('given', a.has.sort())
            w = self.fresh('last', z3.ArraySort(keysort(kt), z3.IntSort()))
            rng = z3.And(j >= c.lo, j < c.hi)
            # the last pair with a key counts
            self.assume(FA([j], z3.Implies(rng, z3.And(m[key(j)], w[key(j)] >= j)), key(j)))
            self.assume(z3.ForAll([k], z3.Implies(m[k], z3.And(w[k] >= c.lo, w[k] < c.hi, key(w[k]) == k)), patterns=[m[k]]))
            self.assume(z3.ForAll([k], has[k] == z3.Or(a.has[k], m[k]), patterns=[has[k]]))
            arrs = []
            for x, y in zip(a.arrs, c.arrs[n1:]):
                b = self.fresh('upd', x.sort())
                self.assume(z3.ForAll([k], b[k] == z3.If(m[k], z3.Select(y, w[k]), x[k]), patterns=[b[k]]))
                arrs.append(b)
            self.set_cell(o, DictCell(k=a.k, v=a.v, has=has, arrs=tuple(arrs), default=a.default))
            return
        raise Unsupported('dict.update')

    def shared_ok(self):
        """the contract under verification states why objects in two containers are not changed through either"""
        return bool(self.con is not None and self.con.shared)

    def m_dict_copy(self, o):
        c = self.cell(o)
        if c.items is None and c.v.mutable:
            raise Unsupported('copy of dict of objects')
        return self.new_cell(c)

    def m_dict_clear(self, o):
        self.set_cell(o, DictCell(items=()))

    def m_set_add(self, o, x):
        self.set_add(o, x)

    def m_set_discard(self, o, x):
        c = self.cell(o)
        if c.items is not None:
            c = self.sym_set(c)
        self.set_cell(o, SetCell(k=c.k, has=z3.Store(c.has, self.key_of(self.force(x), c.k), False)))

    def m_set_remove(self, o, x):
        b = self.contains(o, x)
        if not (b if isinstance(b, bool) else self.check(b)):
            raise PyRaise('KeyError', self.line)
        self.m_set_discard(o, x)

    def m_set_update(self, o, v):
        self.set_update(o, v)

    def m_set_difference(self, o, v):
        return self.setop(ast.Sub, o, v)

    def m_set_intersection(self, o, v):
        return self.setop(ast.BitAnd, o, v)

    def m_set_union(self, o, v):
        return self.setop(ast.BitOr, o, v)

    def m_set_copy(self, o):
        return self.new_cell(self.cell(o))

    def str_uf(self, name, o, args):
        """an unmodelled string method: an uninterpreted function of its arguments"""
        if name not in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'title', 'encode', 'decode', 'capitalize'):
            raise Unsupported('str.%s' % name)
        if isinstance(o, (str, bytes)) and all(isinstance(a, (str, bytes)) for a in args):
            try:
                return getattr(o, name)(*args)
            except Exception:
                raise Unsupported('str.%s' % name)
        f = z3.Function('str_%s_%d' % (name, len(args)), *([SEQ] * (len(args) + 2)))
        return f(zs(o), *[zs(a) for a in args])

    def m_str_encode(self, o, enc='utf-8', errors='strict'):
        if isinstance(o, (str, bytes)) or enc not in ('ascii', 'us-ascii') or errors != 'strict' or self.frame.fv.mod.py != 3:
            return self.str_uf('encode', o, (enc,) if errors == 'strict' else (enc, errors))
        if not self.check(ASCII(zs(o))):
            raise PyRaise('UnicodeEncodeError', self.line)
        return zs(o)

    def m_str_startswith(self, o, p):
        if isinstance(o, (str, bytes)) and isinstance(p, (str, bytes)):
            return o.startswith(p)
        return z3.PrefixOf(zs(p), zs(o))

    def m_str_endswith(self, o, p):
        if isinstance(o, (str, bytes)) and isinstance(p, (str, bytes)):
            return o.endswith(p)
        return z3.SuffixOf(zs(p), zs(o))

    def m_str_join(self, o, v):
        seq = self.to_seq(v)
        if seq.conc is not None:
            xs = list(seq.conc() if callable(seq.conc) else seq.conc)
            for x in xs:
                if not is_str(x):
                    raise PyRaise('TypeError', self.line)
            if all(isinstance(x, (str, bytes)) for x in xs) and isinstance(o, (str, bytes)):
                return o.join(xs)
            out = []
            for k, x in enumerate(xs):
                if k and o not in ('', b''):
                    out.append(o)
                out.append(x)
            return cat(*out)
        # join of a symbolic list
        if o in ('', b''):
            i = z3.Int('ji')
            it = seq.item(i)
            if is_z3(it) and z3.is_app(it) and it.decl().kind() == z3.Z3_OP_SEQ_UNIT:
                r = self.fresh('join', SEQ)
                self.assume(z3.Length(r) == seq.n)
                self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < seq.n), r[i] == it.arg(0)), patterns=[r[i]]))
                return r
        return self.join_uf(o, v, seq)

    def join_uf(self, o, v, seq):
        c = self.cell(v) if isinstance(v, Ref) else None
        if isinstance(c, ListCell) and c.t == STR:
            f = z3.Function('str_join', SEQ, z3.ArraySort(z3.IntSort(), SEQ), z3.IntSort(), z3.IntSort(), SEQ)
            return f(zs(o), c.arrs[0], zi(c.lo), zi(c.hi))
        raise Unsupported('join')

    def m_str_split(self, o, sep=None, mx=-1):
        if isinstance(o, (str, bytes)) and (sep is None or isinstance(sep, (str, bytes))) and isinstance(mx, int):
            return self.new_cell(ListCell(items=tuple(o.split(sep, mx))))
        if isinstance(sep, (str, bytes)) and sep and mx == -1:
            n, a = SPLIT_N(zs(o), zs(sep)), SPLIT_A(zs(o), zs(sep))
            self.assume(n >= 1)
            return self.new_cell(ListCell(t=STR, lo=z3.IntVal(0), hi=n, arrs=(a,)))
        if isinstance(sep, (str, bytes)) and sep and mx == 1:
            o, sp = zs(o), zs(sep)
            k = z3.IndexOf(o, sp, 0)
            if not self.check(z3.Contains(o, sp)):
                return self.new_cell(ListCell(items=(o,)))
            return self.new_cell(ListCell(items=(z3.SubSeq(o, 0, k), z3.SubSeq(o, k + z3.Length(sp), z3.Length(o) - (k + z3.Length(sp))))))
        if sep is None and isinstance(mx, int) and mx > 0:
            # at white space, at most mx times: words, then what follows the white space after the last of them
            if self.frame.fv.mod.py != 3:
                raise Unsupported('str.split')
            skip, word = z3.Function('LSTRIP', SEQ, SEQ), z3.Function('WORD_LEN', SEQ, z3.IntSort())
            cur, items = skip(zs(o)), []
            for _ in range(mx):
                if not self.check(z3.Length(cur) > 0):
                    return self.new_cell(ListCell(items=tuple(items)))
                items.append(z3.SubSeq(cur, 0, word(cur)))
                cur = skip(z3.SubSeq(cur, word(cur), z3.Length(cur) - word(cur)))
            if not self.check(z3.Length(cur) > 0):
                return self.new_cell(ListCell(items=tuple(items)))
            return self.new_cell(ListCell(items=tuple(items + [cur])))
        raise Unsupported('str.split')

    def m_str_find(self, o, p, *a):
        if a:
            raise Unsupported('find with bounds')
        return z3.IndexOf(zs(o), zs(p), 0)

    def m_str_format(self, o, *a, **k):
        return self.fresh('fmt', SEQ)

    def strformat(self, a, b):
        if isinstance(a, (str,)) and isinstance(b, tuple) and a.replace('%c', '') == '' and a.count('%c') == len(b):
            out = []
            for x in b:
                out.append(self.call_builtin('chr', [x], {}) if is_int(x) else x)
            return cat(*out)
        if isinstance(a, str) and not isinstance(b, (tuple,)) and a == '%c' and is_int(b):
            return self.call_builtin('chr', [b], {})
        if isinstance(a, str):
            return self.fmt_uf(a, b if isinstance(b, tuple) else (b,))
        raise Unsupported('string formatting')

    def fmt_uf(self, a, args):
        import re as _re
        parts = _re.split(r'(%[sd])', a)
        if sum(p in ('%s', '%d') for p in parts) == len(args) and '%' not in ''.join(p for p in parts if p not in ('%s', '%d')):
            out, k = [], 0
            for p in parts:
                if p in ('%s', '%d'):
                    out.append(self.to_str(args[k]))
                    k += 1
                elif p:
                    out.append(p)
            if all(isinstance(x, str) for x in out):
                return ''.join(out)
            return cat(*out)
        return self.fresh('fmt', SEQ)

    def to_str(self, v):
        v = self.force(v)
        if is_str(v):
            return v
        if isinstance(v, (int, bool)) or v is None:
            return str(v)
        if is_int(v):
            f = z3.Function('int2str', z3.IntSort(), SEQ)
            return f(v)
        return self.fresh('str', SEQ)

    def call_builtin(self, name, args, kw):
        if name in self.builtin_ext:
            return self.builtin_ext[name](self, args, kw)
        m = getattr(self, 'b_' + name.replace('.', '_'), None)
        if m is not None:
            return m(*args, **kw)
        if name in _EXCS:
            return ExcVal(name)
        if name in ('sys.exit', 'exit'):
            raise PyRaise('SystemExit', self.line)
        if name in ('sys.stdout.write', 'sys.stderr.write', 'print', 'sys.stdout.flush'):
            return None
        raise Unsupported('builtin %s' % name)

    def b_urllib_parse_urlsplit(self, url):
        f = {k: z3.Function('url_' + k, SEQ, SEQ)(zs(self.force(url))) for k in ('scheme', 'netloc', 'path', 'query', 'fragment')}
        return self.new_cell(ObjCell('<urlsplit>', f, TObj('<urlsplit>', {k: STR for k in f})))

    def b_os_times(self):
        return tuple(self.fresh('time', z3.RealSort()) for _ in range(5))

    def b_hash(self, s):
        return z3.Function('py_hash', SEQ, z3.IntSort())(zs(self.force(s)))

    def b_re_sub(self, pat, rep, s, *a):
        if a or not all(isinstance(x, (str, bytes)) for x in (pat, rep)):
            raise Unsupported('re.sub')
        return z3.Function('str_resub', SEQ, SEQ, SEQ, SEQ)(zs(pat), zs(rep), zs(self.force(s)))

    def b_len(self, v):
        return self.length(v)

    def b_range(self, *a):
        a = [self.force(x) for x in a]
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        st = const_int(st)
        if st is None or st == 0:
            raise Unsupported('range step')
        kl, kh = const_int(lo), const_int(hi)
        if kl is not None and kh is not None:
            r = range(kl, kh, st)
            return LazySeq(z3.IntVal(len(r)), lambda i: z3.IntVal(kl) + zi(i) * st, conc=list(r) if len(r) <= 70000 else None)
        lo, hi = zi(lo), zi(hi)
        if st > 0:
            n = z3.If(hi > lo, (hi - lo + (st - 1)) / z3.IntVal(st) if st != 1 else hi - lo, z3.IntVal(0))
        else:
            n = z3.If(lo > hi, (lo - hi + (-st - 1)) / z3.IntVal(-st) if st != -1 else lo - hi, z3.IntVal(0))
        if self.entails((hi >= lo) if st > 0 else (lo >= hi)):
            n = n.arg(1) if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE else n
        return LazySeq(n, lambda i: simp(lo + zi(i) * st))

    b_xrange = b_range

    def b_enumerate(self, v, start=0):
        s = self.to_seq(v)
        if s.conc is not None:
            return LazySeq(s.n, None, conc=lambda: [(start + k, x) for k, x in enumerate(s.conc() if callable(s.conc) else s.conc)])
        r = LazySeq(s.n, lambda i: (simp(zi(i) + start), s.item(i)))
        r.srcs = s.srcs
        return r

    def b_zip(self, *vs):
        ss = [self.to_seq(v) for v in vs]
        if all(s.conc is not None for s in ss):
            return LazySeq(z3.IntVal(0), None, conc=list(zip(*[list(s.conc() if callable(s.conc) else s.conc) for s in ss])))
        n = ss[0].n
        for s in ss[1:]:
            n = z3.If(s.n < n, s.n, n)
        for s in ss:
            if s.item is None:
                raise Unsupported('zip of concrete and symbolic')
        r = LazySeq(simp(n), lambda i: tuple(s.item(i) for s in ss))
        r.srcs = [x for s in ss for x in s.srcs]
        return r

    def b_reversed(self, v):
        s = self.to_seq(v)
        if s.conc is not None:
            return LazySeq(s.n, None, conc=lambda: list(s.conc() if callable(s.conc) else s.conc)[::-1])
        r = LazySeq(s.n, lambda i: s.item(simp(s.n - 1 - zi(i))))
        r.srcs = s.srcs
        return r

    def b_min(self, *a, **kw):
        return self.minmax(a, kw, True)

    def b_max(self, *a, **kw):
        return self.minmax(a, kw, False)

    def minmax(self, a, kw, mn):
        if kw:
            raise Unsupported('min/max key')
        if len(a) == 1:
            s = self.to_seq(a[0])
            if s.conc is None:
                if not self.check(s.n > 0):
                    raise PyRaise('ValueError', self.line)
                m = self.fresh('ext', z3.IntSort())
                i = z3.Int('imm')
                w = self.fresh('wit', z3.IntSort())
                it = s.item(w)
                if not is_int(it):
                    raise Unsupported('min/max of non ints')
                self.assume(z3.And(w >= 0, w < s.n, it == m))
                x = s.item(i)
                self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.n), (m <= x) if mn else (m >= x))))
                return m
            a = list(s.conc() if callable(s.conc) else s.conc)
            if not a:
                raise PyRaise('ValueError', self.line)
        r = self.force(a[0])
        for x in a[1:]:
            x = self.force(x)
            if isinstance(r, int) and isinstance(x, int):
                r = min(r, x) if mn else max(r, x)
            elif (is_int(r) or is_bool(r)) and (is_int(x) or is_bool(x)):
                p, q = zi(r), zi(x)
                r = z3.If(q < p, q, p) if mn else z3.If(q > p, q, p)
            elif (is_int(r) or is_real(r)) and (is_int(x) or is_real(x)):
                p, q = zr(r), zr(x)
                r = z3.If(q < p, q, p) if mn else z3.If(q > p, q, p)
            else:
                raise Unsupported('min/max')
        return r

    def b_abs(self, v):
        if isinstance(v, int):
            return abs(v)
        return z3.If(v < 0, -v, v)

    def b_ord(self, v):
        v = self.force(v)
        if is_int(v):
            raise PyRaise('TypeError', self.line)
        if isinstance(v, (str, bytes)):
            if len(v) != 1:
                raise PyRaise('TypeError', self.line)
            return ord(v)
        if not is_str(v):
            raise PyRaise('TypeError', self.line)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_SEQ_UNIT:
            return v.arg(0)
        if not self.check(z3.Length(v) == 1):
            raise PyRaise('TypeError', self.line)
        b = v[0]
        self.assume(z3.And(b >= 0, b < 256))
        return b

    def b_chr(self, v):
        v = self.force(v)
        if isinstance(v, int):
            if not 0 <= v < 256 and self.py == 2:
                raise PyRaise('ValueError', self.line)
            return chr(v)
        if not is_int(v):
            raise PyRaise('TypeError', self.line)
        if not self.check(z3.And(v >= 0, v < 256)):
            raise PyRaise('ValueError', self.line)
        return z3.Unit(v)

    def b_int(self, v=0, base=None):
        v = self.force(v)
        if base is not None and is_str(v):
            if const_int(base) != 2:
                raise Unsupported('int in base %s' % (base,))
            from .speclib import ISBIN, BINP
            if isinstance(v, str):
                try:
                    return int(v, 2)
                except ValueError:
                    raise PyRaise('ValueError', self.line)
            v = zs(v)
            if not self.check(ISBIN(v)):
                raise Unsupported('int(s, 2) of a string that is not known to be binary digits')
            return BINP(v, z3.Length(v))
        if isinstance(v, (int, float)):
            return int(v)
        if is_bool(v):
            return zi(v)
        if is_int(v):
            return v
        if isinstance(v, z3.ArithRef):
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise PyRaise('ValueError', self.line)
        if is_str(v):
            f = z3.Function('str2int', SEQ, z3.IntSort())
            ok = z3.Function('isintstr', SEQ, z3.BoolSort())
            if not self.decide(ok(v)):
                raise PyRaise('ValueError', self.line)
            return f(v)
        raise PyRaise('TypeError', self.line)

    b_long = b_int

    def b_bool(self, v=False):
        return self.truth(v)

    def b_float(self, v=0.0):
        v = self.force(v)
        if isinstance(v, (int, float)):
            return float(v)
        if is_int(v) or is_bool(v):
            return zr(v)
        if is_real(v):
            return v
        raise Unsupported('float()')

    def b_str(self, v='', *a):
        return self.to_str(v)

    def b_repr(self, v):
        return self.fresh('repr', SEQ)

    b_format = b_repr
    b_hex = b_repr
    b_bin = b_repr

    def b_bytes(self, v=b'', *a):
        v = self.force(v)
        if is_str(v):
            return v
        seq = self.to_seq(v)
        if seq.conc is not None:
            out = []
            for x in (seq.conc() if callable(seq.conc) else seq.conc):
                out.append(self.b_chr(x))
            return cat(*out)
        raise Unsupported('bytes()')

    def b_list(self, v=()):
        return self.list_copy(v)

    def b_tuple(self, v=()):
        s = self.to_seq(v)
        if s.conc is not None:
            return tuple(s.conc() if callable(s.conc) else s.conc)
        return self.list_copy(v)

    def b_set(self, v=()):
        s = self.to_seq(v)
        return self.make_set(s)

    b_frozenset = b_set

    def b_dict(self, v=None, **kw):
        if v is None:
            return self.mkdict(list(kw.items()))
        if isinstance(v, Ref) and isinstance(self.cell(v), DictCell):
            c = self.cell(v)
            if c.items is None and c.v.mutable and not self.shared_ok():
                raise Unsupported('copy of dict of objects')
            return self.new_cell(DictCell(items=c.items, k=c.k, v=c.v, has=c.has, arrs=c.arrs))
        return self.make_dict(self.to_seq(v))

    def b_collections_defaultdict(self, f=None, *a):
        n = f.name if isinstance(f, BuiltinVal) else f
        return self.new_cell(DictCell(items=(), default=n))

    def b_collections_deque(self, v=(), *a):
        return self.list_copy(v)

    def m_list_popleft(self, o):
        return self.m_list_pop(o, 0)

    def m_list_appendleft(self, o, v):
        return self.m_list_insert(o, 0, v)

    def b_sorted(self, v, cmp=None, key=None, reverse=False):
        if cmp is not None:
            raise Unsupported('sorted cmp')
        s = self.to_seq(v)
        if s.conc is not None:
            c = ListCell(items=tuple(s.conc() if callable(s.conc) else s.conc))
        else:
            c = self.cell(self.list_copy(v))
        return self.new_cell(self.sort_list(c, key, bool(reverse)))

    def b_sum(self, v, start=0):
        s = self.to_seq(v)
        if s.conc is not None:
            r = start
            for x in (s.conc() if callable(s.conc) else s.conc):
                r = self.binop(ast.Add(), r, x)
            return r
        if isinstance(v, Ref) and isinstance(self.cell(v), ListCell):
            c = self.cell(v)
            if c.t in (INT, REAL) and start == 0:
                from .speclib import SUMI, SUMR
                f = SUMI if c.t == INT else SUMR
                return f(c.arrs[0], zi(c.lo), zi(c.hi))
        raise Unsupported('sum')

    def b_any(self, v):
        return self.anyall(v, True)

    def b_all(self, v):
        return self.anyall(v, False)

    def anyall(self, v, isany):
        s = self.to_seq(v)
        if s.conc is not None:
            ts = [self.truth(x) for x in (s.conc() if callable(s.conc) else s.conc)]
            if all(isinstance(t, bool) for t in ts):
                return any(ts) if isany else all(ts)
            return (z3.Or if isany else z3.And)([zb(t) for t in ts])
        i = z3.Int('ia')
        t = zb(self.truth(s.item(i)))
        r = z3.And(i >= 0, i < s.n)
        return z3.Exists([i], z3.And(r, t)) if isany else z3.ForAll([i], z3.Implies(r, t))

    def b_map(self, f, v):
        s = self.to_seq(v)
        if s.conc is not None:
            return self.new_cell(ListCell(items=tuple(self.call(f, [x], {}) for x in (s.conc() if callable(s.conc) else s.conc))))
        return self.map_pure(lambda x: self.call(f, [x], {}), s)

    def map_pure(self, fn, s):
        tr = len(self.trace)
        ls = LazySeq(s.n, lambda i: fn(s.item(i)))
        return self.new_cell(self.list_concat_seq(None, ls))

    def b_isinstance(self, v, t):
        v = self.force(v)
        ts = t if isinstance(t, tuple) else (t,)
        r = False
        for x in ts:
            r = r or self.isinst(v, x)
        return r

    def isinst(self, v, t):
        if isinstance(t, ClassVal):
            if isinstance(v, Ref) and isinstance(self.cell(v), ObjCell):
                return self.subclass(self.cell(v).cls, t.key)
            return False
        if isinstance(t, BuiltinVal):
            n = t.name
            if n in ('int', 'long'):
                return is_int(v) or is_bool(v)
            if n in ('str', 'bytes', 'basestring', 'unicode'):
                return is_str(v)
            if n == 'bool':
                return is_bool(v)
            if n == 'float':
                return is_real(v)
            if n == 'tuple':
                return isinstance(v, tuple)
            c = self.cell(v) if isinstance(v, Ref) else None
            if n == 'list':
                return isinstance(c, ListCell)
            if n == 'dict':
                return isinstance(c, DictCell)
            if n in ('set', 'frozenset'):
                return isinstance(c, SetCell)
            if n == 'object':
                return True
        raise Unsupported('isinstance')

    def subclass(self, a, b):
        if a == b:
            return True
        try:
            m, q, n = self.prog.find(a)
        except SpecMismatch:
            return False
        for x in n.bases:
            try:
                v = self.eval_in_module(m, x)
            except Unsupported:
                continue
            if isinstance(v, ClassVal) and self.subclass(v.key, b):
                return True
        return False

    def b_type(self, v):
        v = self.force(v)
        if is_bool(v):
            return BuiltinVal('bool')
        if is_int(v):
            return BuiltinVal('int')
        if is_str(v):
            return BuiltinVal('str')
        if is_real(v):
            return BuiltinVal('float')
        if isinstance(v, tuple):
            return BuiltinVal('tuple')
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ObjCell):
                return self.class_by_key(c.cls)
            return BuiltinVal({ListCell: 'list', DictCell: 'dict', SetCell: 'set'}[type(c)])
        raise Unsupported('type()')

    def b_hasattr(self, o, a):
        if isinstance(o, Ref) and isinstance(self.cell(o), ObjCell):
            return self.get_field(o, a) is not MISSING or self.find_method(self.cell(o).cls, a) is not None
        raise Unsupported('hasattr')

    def b_divmod(self, a, b):
        return (self.binop(ast.FloorDiv(), a, b), self.binop(ast.Mod(), a, b))

    def b_math_ceil(self, v):
        v = zr(v)
        return -z3.ToInt(-v)

    def b_iter(self, v):
        return v

    # ---- struct
    _SZ = {'B': 1, 'H': 2, 'L': 4, 'I': 4, 'Q': 8, 'c': 1}

    def struct_codes(self, fmt):
        if isinstance(fmt, bytes):
            fmt = fmt.decode('latin-1')
        if not isinstance(fmt, str):
            raise Unsupported('struct format')
        import re as _re
        f = fmt.replace(' ', '')
        if f and f[0] in '<@=':
            raise Unsupported('little-endian struct')
        nat = True
        if f and f[0] in '!>':
            f = f[1:]
            nat = False
        out = []
        for m in _re.finditer(r'(\d*)([a-zA-Z])', f):
            if m.group(2) not in self._SZ:
                raise Unsupported('struct code ' + m.group(2))
            out += [m.group(2)] * (int(m.group(1)) if m.group(1) else 1)
        if nat and any(self._SZ[c] > 1 for c in out):
            raise Unsupported('native struct')
        return out

    def b_struct_pack(self, fmt, *vs):
        codes = self.struct_codes(fmt)
        if len(codes) != len(vs):
            raise PyRaise('struct.error', self.line)
        out = []
        for c, v in zip(codes, vs):
            v = self.force(v)
            if c == 'c':
                out.append(v)
                continue
            if is_bool(v):
                v = zi(v)
            if not is_int(v):
                raise PyRaise('struct.error', self.line)
            n = self._SZ[c]
            if not self.check(z3.And(zi(v) >= 0, zi(v) < 256 ** n)):
                raise PyRaise('struct.error', self.line)
            for k in reversed(range(n)):
                x = zi(v)
                if n > 1:
                    x = mkdiv(x, 256 ** k) if k else x
                    x = mkmod(x, 256) if k < n - 1 else x
                out.append(z3.Unit(simp(x)))
        return cat(*out)

    def b_struct_unpack(self, fmt, s):
        codes = self.struct_codes(fmt)
        n = sum(self._SZ[c] for c in codes)
        s = self.force(s)
        if not is_str(s):
            raise PyRaise('struct.error', self.line)
        s = zs(s)
        if not self.check(z3.Length(s) == n):
            raise PyRaise('struct.error', self.line)
        if n == 1 and z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_UNIT and codes == ['B']:
            return (s.arg(0),)
        out, o = [], 0
        for c in codes:
            t = z3.IntVal(0)
            for k in range(self._SZ[c]):
                b = s[o]
                self.assume(z3.And(b >= 0, b < 256))
                t = t * 256 + b if k else b
                o += 1
            out.append(t if c != 'c' else z3.Unit(t))
        return tuple(out)

    @property
    def py(self):
        return self.frame.fv.mod.py
