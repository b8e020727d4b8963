"""Front end: turn the *current* source text of /repo into ASTs.

Python-2 files are parsed by Jython's own parser (jydump.py) and converted node
by node to the node classes of the standard `ast` module; Python-3 files are
parsed by `ast` directly.  Nothing is dropped by the conversion itself; what the
verifier gives no meaning to (print, docstrings) is decided in symex.py.
"""
import ast, json, os, subprocess, sys

REPO = os.environ.get('VERIF_REPO', '/repo')
_cache = {}

ENV2 = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'JYTHONPATH': '/opt/jylib',
        'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'HOME': '/root',
        'LANG': 'C.UTF-8'}


class FrontendError(Exception):
    pass


def _prim(v):
    if isinstance(v, dict):
        if '_str' in v:
            return ''.join(map(chr, v['_str']))
        if '_uni' in v:
            return ''.join(map(chr, v['_uni']))
        if '_int' in v:
            return int(v['_int'].rstrip('L'))
        if '_float' in v:
            return float(v['_float'])
        if '_complex' in v:
            return complex(v['_complex'])
    return v


_OPS = {c: getattr(ast, c) for c in
        ('Add Sub Mult Div Mod Pow LShift RShift BitOr BitXor BitAnd FloorDiv '
         'And Or Not Invert UAdd USub Eq NotEq Lt LtE Gt GtE Is IsNot In NotIn '
         'Load Store Del').split()}


def _c(d):
    if isinstance(d, list):
        return [_c(x) for x in d]
    if not isinstance(d, dict):
        return d
    if '_' not in d:
        return _prim(d)
    k = d['_']
    if k in _OPS:
        return _OPS[k]()
    if k == 'Param':
        return ast.Load()
    g = lambda f: _c(d.get(f))
    pos = dict(lineno=d.get('lineno', 0), col_offset=d.get('col_offset', 0))

    def mk(cls, **kw):
        n = cls(**kw)
        n.lineno = pos['lineno']
        n.col_offset = pos['col_offset']
        n.end_lineno = pos['lineno']
        n.end_col_offset = pos['col_offset']
        return n
    if k == 'Module':
        return ast.Module(body=g('body'), type_ignores=[])
    if k in ('Str', 'Num'):
        return mk(ast.Constant, value=g('s' if k == 'Str' else 'n'), kind=None)
    if k == 'Name':
        i = g('id')
        if i in ('True', 'False', 'None'):
            return mk(ast.Constant, value={'True': True, 'False': False, 'None': None}[i], kind=None)
        return mk(ast.Name, id=i, ctx=g('ctx'))
    if k == 'Print':
        n = mk(ast.Expr, value=mk(ast.Call, func=mk(ast.Name, id='__print__', ctx=ast.Load()),
                                  args=g('values') or [], keywords=[]))
        return n
    if k == 'Exec':
        return mk(ast.Expr, value=mk(ast.Call, func=mk(ast.Name, id='__exec__', ctx=ast.Load()),
                                     args=[g('body')], keywords=[]))
    if k == 'Repr':
        return mk(ast.Call, func=mk(ast.Name, id='repr', ctx=ast.Load()), args=[g('value')], keywords=[])
    if k == 'Raise':
        return mk(ast.Raise, exc=g('type'), cause=None)
    if k == 'TryExcept':
        return mk(ast.Try, body=g('body'), handlers=g('handlers'), orelse=g('orelse') or [], finalbody=[])
    if k == 'TryFinally':
        return mk(ast.Try, body=g('body'), handlers=[], orelse=[], finalbody=g('finalbody'))
    if k == 'ExceptHandler':
        nm = g('name')
        return mk(ast.ExceptHandler, type=g('type'), name=nm.id if isinstance(nm, ast.Name) else None, body=g('body'))
    if k == 'arguments':
        args = []
        for a in d.get('args') or []:
            a = _c(a)
            if isinstance(a, ast.Name):
                x = ast.arg(arg=a.id, annotation=None)
                x.lineno = a.lineno
                x.col_offset = a.col_offset
                args.append(x)
            else:
                x = ast.arg(arg='.tuple%d' % len(args), annotation=None)
                x.unpack = a
                x.lineno = a.lineno
                x.col_offset = a.col_offset
                args.append(x)
        va, kw = g('vararg'), g('kwarg')
        return ast.arguments(posonlyargs=[], args=args, vararg=ast.arg(arg=va) if va else None,
                             kwonlyargs=[], kw_defaults=[], kwarg=ast.arg(arg=kw) if kw else None,
                             defaults=g('defaults') or [])
    if k == 'FunctionDef':
        return mk(ast.FunctionDef, name=g('name'), args=g('args'), body=g('body'),
                  decorator_list=g('decorator_list') or [], returns=None, type_comment=None, type_params=[])
    if k == 'ClassDef':
        return mk(ast.ClassDef, name=g('name'), bases=g('bases') or [], keywords=[], body=g('body'),
                  decorator_list=g('decorator_list') or [], type_params=[])
    if k == 'Call':
        args = g('args') or []
        if d.get('starargs'):
            args.append(mk(ast.Starred, value=g('starargs'), ctx=ast.Load()))
        kws = g('keywords') or []
        if d.get('kwargs'):
            kws.append(ast.keyword(arg=None, value=g('kwargs')))
        return mk(ast.Call, func=g('func'), args=args, keywords=kws)
    if k == 'keyword':
        return ast.keyword(arg=g('arg'), value=g('value'))
    if k == 'comprehension':
        return ast.comprehension(target=g('target'), iter=g('iter'), ifs=g('ifs') or [], is_async=0)
    if k == 'Index':
        return g('value')
    if k == 'Lambda':
        return mk(ast.Lambda, args=g('args'), body=g('body'))
    if k == 'With':
        it = ast.withitem(context_expr=g('context_expr'), optional_vars=g('optional_vars'))
        return mk(ast.With, items=[it], body=g('body'), type_comment=None)
    if k == 'alias':
        return ast.alias(name=g('name'), asname=g('asname'))
    if k == 'SyntaxError':
        raise FrontendError(d.get('msg'))
    cls = getattr(ast, k, None)
    if cls is None:
        raise FrontendError('node ' + k)
    kw = {f: g(f) for f in d if f not in ('_', 'lineno', 'col_offset') and f in cls._fields}
    if k == 'Assign':
        kw['type_comment'] = None
    if k == 'For':
        kw['type_comment'] = None
        kw['orelse'] = kw.get('orelse') or []
    if k in ('If', 'While'):
        kw['orelse'] = kw.get('orelse') or []
    if k == 'ImportFrom':
        kw['level'] = kw.get('level') or 0
    return mk(cls, **kw)


def load2(paths):
    """Parse Python-2 files (absolute paths) with one Jython run."""
    todo = [p for p in paths if p not in _cache]
    if todo:
        here = os.path.dirname(os.path.abspath(__file__))
        r = subprocess.run(['jython', '-B', os.path.join(here, 'jydump.py')] + todo, env=ENV2,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=180)
        if r.returncode:
            raise FrontendError(r.stderr.decode('latin-1')[-2000:])
        js = json.loads(r.stdout.decode('latin-1'))
        for p in todo:
            try:
                _cache[p] = _c(js[p])
            except FrontendError as e:
                _cache[p] = e
    return {p: _cache[p] for p in paths}


def load3(paths):
    out = {}
    for p in paths:
        if p not in _cache:
            try:
                _cache[p] = ast.parse(open(p, encoding='utf-8').read(), p)
            except SyntaxError as e:
                _cache[p] = FrontendError(str(e))
        out[p] = _cache[p]
    return out
