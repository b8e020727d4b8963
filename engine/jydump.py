# Runs under Jython 2.7 (the interpreter that runs the Python-2 half of the
# repository).  Dumps the abstract syntax tree of each file named on the
# command line, exactly as Jython's own parser builds it, as one JSON object.
import ast, json, sys

def conv(n):
    if isinstance(n, ast.AST):
        d = {'_': n.__class__.__name__}
        for f in n._fields or ():
            d[f] = conv(getattr(n, f, None))
        if hasattr(n, 'lineno'):
            d['lineno'] = n.lineno
            d['col_offset'] = getattr(n, 'col_offset', 0)
        return d
    if isinstance(n, (list, tuple)):
        return [conv(x) for x in n]
    if isinstance(n, bool) or n is None:
        return n
    if isinstance(n, (int, long)):
        return {'_int': str(n)}
    if isinstance(n, float):
        return {'_float': repr(n)}
    if isinstance(n, complex):
        return {'_complex': repr(n)}
    if isinstance(n, unicode):
        return {'_uni': [ord(c) for c in n]}
    if isinstance(n, str):
        return {'_str': [ord(c) for c in n]}
    # Jython sometimes hands out java lists (AstList)
    try:
        return [conv(x) for x in list(n)]
    except TypeError:
        return {'_repr': repr(n)}

out = {}
for p in sys.argv[1:]:
    try:
        src = open(p).read()
        out[p] = conv(ast.parse(src, p))
    except SyntaxError:
        out[p] = {'_': 'SyntaxError', 'msg': str(sys.exc_info()[1])}
json.dump(out, sys.stdout)
