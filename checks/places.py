"""C43 - C45: what does not depend on, or change, the surroundings"""
import posixpath
from . import building
from .base import *

ENV = 'ipkg.environments.Environment'
VARS = 'ipkg.environments.EnvironmentVariables'
GIVEN = sym('given')
CWD = '/work/here'
NAMES = ('e', './e', 'e/', 'sub/e', '../e', '.', '/opt/e', '/opt/e/', '/opt/../e')


def model(t, env):
    """paths, in the working directory CWD"""
    f = cname(t)
    if f in ('os.getcwd', 'os.getcwdu'):
        return CWD
    if f in ('os.path.abspath', 'os.path.realpath', 'os.path.expanduser', 'os.path.normpath', 'os.path.isabs',
             'os.path.expandvars', 'unicode', 'str') and len(t[2]) == 1 and not t[3]:
        x = fold(t[2][0], env)
        if isinstance(x, str):
            return {'abspath': lambda: posixpath.normpath(posixpath.join(CWD, x)),
                    'realpath': lambda: posixpath.normpath(posixpath.join(CWD, x)),
                    'normpath': lambda: posixpath.normpath(x),
                    'isabs': lambda: x.startswith('/')}.get(f.rsplit('.', 1)[-1], lambda: x)()
    return UNKNOWN


def c43(R):
    R.rule('prefix', 'the prefix of an environment is the absolute path of the directory it was named by')
    R.rule('directories', 'and so are the directories in it, which the variables are made of')
    R.rule('recorded', 'the build prefix recorded in a package is that prefix')
    A = analysis(raises=False)
    loc = loc_of(A, ENV + '.__init__')
    A.opaque.add('ipkg.utils.DictFile')
    A.hooks['ipkg.utils.DictFile'] = lambda A, st, args, kw, cx, n: [(st, 'v', sym('meta'))]
    seen = []

    def variables(A, st, args, kw, cx, n):
        given = list(args) + [v for k, v in (kw or ()) if k == 'directories']
        st.emit(Ev('call', VARS, tuple(given), (), sym('variables'), (n.file, n.line)))
        return [(st, 'v', sym('variables'))]
    A.hooks[VARS] = variables
    outs = A.new(A.fresh(), ENV, [GIVEN])
    R.saw(A, outs)
    for given in NAMES:
        env = {GIVEN: given, 'model': model}
        want = posixpath.normpath(posixpath.join(CWD, given))
        some = False
        for o in outs:
            if not o.ok or consistent(o.st.path, lambda a: foldb(strip(a), env)) is False:
                continue
            some = True
            for v in values_of(A, o.st, o.val, 'prefix'):
                got = fold(strip(v), env)
                R.ob('prefix', 'Environment', isinstance(got, str) and got.startswith('/') and
                     posixpath.normpath(got) == want, loc, 'the prefix of %r is %s' % (
                         given, show(v)[:80] if got is UNKNOWN else repr(got)))
            s = o.st.copy()
            ds = [d for _, k, d in A.quiet(lambda: A.getattr_(s, o.val, 'directories', A.cx(s, [o.val]), A.node()))
                  if k != 'x']
            used = [e.args[0] for e in o.events if is_call(e, VARS) and e.args]
            for what, d in [('directories', d) for d in ds] + [('variables', d) for d in used]:
                if d[0] == 'D':
                    items = d[1]
                else:
                    c = content_of(o.st, d)
                    items = o.st.obj(c).items if c is not None else ()
                n = 0
                for k, v in items:
                    got = fold(strip(o.st.freeze(v)), env)
                    n += 1
                    R.ob('directories', what, isinstance(got, str) and got.startswith('/') and
                         (posixpath.normpath(got) + '/').startswith(want.rstrip('/') + '/'), loc,
                         'in %r, %s is %r' % (given, show(k), got))
                R.ob('directories', what, n > 1, loc, 'there are none')
            R.ob('directories', 'given to the variables', len(used) > 0, loc, 'no variables')
        R.ob('prefix', 'Environment', some, loc, 'no environment')
    for B in building.each_build(R):
        for i, d in building.meta_dumps(B):
            v = [strip(w) for k, w in d[1] if k == const('build_prefix')]
            R.ob('recorded', 'build', len(v) == 1 and v[0] in B.prefix, B.evs[i].loc,
                 'the build prefix is %s' % [show(x)[:80] for x in v])


CHECKS = {'C43': c43}
