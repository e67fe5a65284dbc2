"""Runs under Jython (Python 2.7 grammar): parses each file given and writes
the syntax trees as JSON.  It only parses; nothing of the files is executed.

    dump_ast.py OUT.json ROOT FILE...
"""
import ast
import json
import sys


def conv(x):
    if isinstance(x, ast.AST):
        d = {'_': type(x).__name__}
        for f in x._fields:
            d[f] = conv(getattr(x, f, None))
        l = getattr(x, 'lineno', None)
        if l is not None:
            d['l'] = l
            d['c'] = getattr(x, 'col_offset', 0)
        return d
    if isinstance(x, (list, tuple)):
        return [conv(e) for e in x]
    if isinstance(x, unicode):
        return {'_u': x}
    if isinstance(x, str):
        return x.decode('latin-1')
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (int, long)):
        return int(x)
    if isinstance(x, float):
        return {'_f': repr(x)}
    return {'_o': repr(x)}


def main():
    out, root = sys.argv[1:3]
    res = {}
    for path in sys.argv[3:]:
        src = open(root + '/' + path, 'U').read()
        try:
            res[path] = conv(ast.parse(src, path))
        except SyntaxError, e:
            res[path] = {'_': 'SyntaxError', 'msg': str(e)}
    f = open(out, 'w')
    json.dump(res, f)
    f.close()


main()
