"""C33, C34: the command line"""
from .base import *

MOD = 'ipkg.cli.'
MAIN = MOD + 'Ipkg'
ENV = 'ipkg.environments.Environment'
REPO = 'ipkg.repositories.PackageRepository'
LOCAL = 'ipkg.repositories.LocalPackageRepository'
FORMULAS = 'ipkg.repositories.FormulaRepository'
CURRENT = 'ipkg.environments.current'
FROM_FILE = 'ipkg.build.Formula.from_file'
ERROR = 'ipkg.exceptions.IpkgException'
# what the value of an option is made of
TYPES = {'environment': ENV, 'repository': REPO, 'package_repository': LOCAL, 'formula_repository': FORMULAS,
         'requirements': 'a file'}
# the value when the flag is given
FLAGS = {'--keep-build-dir': ('remove_build_dir', False), '--update-repository': ('update_repository', True),
         '--verbose': ('verbose', True), '--export': ('export', True), '--debug': ('debug', True)}
WITHOUT = ('build', 'build-repository')


# ---------------------------------------------------------- registration

class Option(object):
    def __init__(self, e):
        self.flags = [a[2] for a in e.args[1:] if a[0] == 'c' and isinstance(a[2], str)]
        self.kw = dict(e.kw or ())
        self.loc = e.loc
        self.action = self.const('action', 'store')
        self.positional = bool(self.flags) and not self.flags[0].startswith('-')
        self.dest = self.const('dest')
        if self.dest is None and self.flags:
            long_ = [f for f in self.flags if f.startswith('--')] or self.flags
            self.dest = long_[0] if self.positional else long_[0].lstrip('-').replace('-', '_')

    def const(self, name, default=None):
        v = self.kw.get(name)
        return v[2] if v is not None and v[0] == 'c' else default

    @property
    def stored(self):
        return self.action not in ('version', 'help')

    def values(self):
        """the values the option can have"""
        if self.action in ('store_true', 'store_false'):
            default = self.kw.get('default', const(self.action == 'store_false'))
            return [const(self.action == 'store_true'), default]
        if self.action == 'store' and not self.positional:
            default = self.kw.get('default', NONE)
            return [sym(self.dest)] + ([NONE] if default == NONE else [])
        return [sym(self.dest)]


class Commands(object):
    """what the module registers when it is loaded"""

    def __init__(self, A):
        self.commands, self.options, self.main = {}, {}, []
        subs = {}
        for e in A.boot_events:
            if e.kind != 'call' or not e.args or not e.loc[0].endswith('cli.py'):
                continue
            on = strip(e.args[0])
            if e.name == '.add_parser':
                subs[strip(e.res) if getattr(e, 'res', None) else strip(call('.add_parser', e.args, e.kw))] = \
                    e.args[1][2]
            elif e.name == '.set_defaults':
                self.commands[subs.get(on)] = dict(e.kw or ())
            elif e.name == '.add_argument':
                if on in subs:
                    self.options.setdefault(subs[on], []).append(Option(e))
                else:
                    self.main.append(Option(e))
        if not self.commands or None in self.commands:
            raise Missing('the commands the module registers')


def scope(A):
    A.opaque |= {CURRENT, FROM_FILE}
    A.log_events = True
    for q in (CURRENT, FROM_FILE):
        A.func_node(q)

    def local(A, st, args, kw, cx, n):
        return [(st, 'v', call(LOCAL, args, kw))]
    A.hooks[LOCAL] = local

    def env(A, st, args, kw, cx, n):
        return [(st, 'v', call(ENV, args, kw))]
    A.hooks[ENV] = env
    A.hooks['.error'] = exits
    return A


def exits(A, st, args, kw, cx, n):
    """parser.error(message)"""
    if args and 'arser' in show(args[0]):
        st.emit(Ev('log', 'error', args, (), None, (n.file, n.line)))
        return [(st, 'x', ('xinst', 'SystemExit', (const(2),)))]
    return None


def the_program(A, args, parse=None):
    """(state, the command line tool) whose parser yields these values"""
    st = A.fresh()

    def parsed(A, st, a, kw, cx, n):
        d = st.new(D(tuple((const(k), v) for k, v in args.items())))
        ns = dict(args)
        ns['__dict__'] = d
        return [(st, 'v', st.new(I('object', ns)))]
    A.hooks['.parse_args'] = parse or parsed
    me = st.new(I(MAIN, {'parser': sym('parser'), 'subparsers': sym('subparsers')}))
    return st, me


# ----------------------------------------------------------- what is run

def params(A, qual):
    f = A.func_node(qual)
    return [a for a in f.params] if hasattr(f, 'params') else [a.id for a in f.args.args]


def bound(A, e, qual):
    """{parameter: value} of a call of a method, None if it does not fit"""
    names = signature(A, qual)
    args = [strip(a) for a in e.args]
    if len(args) > len(names):
        return None
    got = dict(zip(names, args))
    for k, v in e.kw or ():
        if k not in names or k in got:
            return None
        got[k] = strip(v)
    return got


def signature(A, qual):
    for f in A.funcs.values():
        if f.qual == qual:
            return [p for p in f.params if isinstance(p, str)]
    raise Missing(qual)


def defaults(A, qual):
    for f in A.funcs.values():
        if f.qual == qual and f.defaults:
            names = [p for p in f.params if isinstance(p, str)]
            return dict(zip(names[-len(f.defaults):], [strip(v) for v in f.defaults]))
    return {}


def only(A, events, name, quals, wanted):
    """exactly one call of the operation, with these values"""
    calls = [e for e in events if e.kind == 'call' and e.name in (name,) + tuple(quals)]
    if len(calls) != 1:
        return '%d calls of %s' % (len(calls), name)
    got = bound(A, calls[0], quals[0])
    if got is None:
        return 'the call does not fit: %r' % calls[0]
    for k, v in wanted.items():
        v = v if isinstance(v, list) else [v]
        if k not in got and defaults(A, quals[0]).get(k) not in v:
            return '%s is not given' % k
        if k in got and got[k] not in v:
            return '%s is %s' % (k, show(got[k])[:80])
    return None


def as_list(v):
    """the segments of a list value"""
    if v[0] == 'L':
        out = []
        for g in v[2]:
            out.append(('one', strip(g[1])) if g[0] == 'one' else ('all', strip(g[1])) if g[0] == 'all' else
                       ('all', strip(g[3])) if not g[2] and strip(g[1]) == ('elem', strip(g[3])) else None)
        return out
    if v[0] == 'call' and v[1] in ('+', '.__add__') and len(v[2]) == 2:
        return as_list(v[2][0]) + as_list(v[2][1])
    if v[0] == 'call' and v[1] in ('list', 'tuple') and len(v[2]) == 1:
        return as_list(v[2][0])
    return [('all', v)]


def printed(events):
    return [e for e in events if e.kind == 'print']


def c_list(A, o, env, args):
    loops = [e for e in o.events if e.kind == 'loop' and e.name in ('done', 'part')]
    for l in loops:
        if strip(l.args[0]) in (('attr', env, 'packages'), call_(('attr', env, 'packages'))):
            recs = [r for r in l.kw]
            if not any(p.kind == 'print' for r in recs for p in r[2]):
                continue
            bad = [r for r in recs if r[0] != 'next' or not any(
                p.kind == 'print' and mentions(p, ('elem', strip(l.args[0]))) for p in r[2])]
            return 'a package is not printed: %s' % (bad[0],) if bad or not recs or l.name != 'done' else None
    for p in printed(o.flat()):
        if mentions(p, ('attr', env, 'packages')) and not any(
                is_term(t, 'slice') for a in p.args for t in subterms(a)):
            return None
    return 'the packages of the environment are not printed'


def is_term(t, name):
    return isinstance(t, tuple) and t[:2] == ('call', name)


def call_(v):
    return strip(call('list', (v,)))


def mentions(e, v):
    return any(isinstance(t, tuple) and strip(t) == v for a in e.args for t in subterms(a))


def c_install(A, o, env, args):
    return only(A, o.flat(), '.install', [ENV + '.install'],
                {'self': env, signature(A, ENV + '.install')[1]: sym('package'), 'repository': args['repository']})


def c_uninstall(A, o, env, args):
    return only(A, o.flat(), '.uninstall', [ENV + '.uninstall'], {'self': env, signature(A, ENV + '.uninstall')[1]: sym('package')})


def lines_of(f):
    read = strip(call('.read', (f,)))
    newline = const('\n')
    return [f, strip(call('.splitlines', (read,))), strip(call('.readlines', (f,))),
            strip(call('.split', (read, newline))), strip(call('.xreadlines', (f,)))]


def c_mkenv(A, o, env, args):
    events = list(o.flat())
    made = index(events, lambda e: e.kind == 'call' and e.name.endswith('.create') and
                 e.args and strip(e.args[0]) == ('attr', env, 'directories'))
    if made is None:
        return 'the directories are not created'
    first = index(events, lambda e: e.kind == 'call' and e.name.endswith('.install'))
    if first is not None and first < made:
        return 'packages are installed before the directories are created'
    req = args['requirements']
    if req == NONE or known(o.st.path, ('truth', req)) is False or known(o.st.path, ('isnone', req)) is True:
        return None if first is None else 'packages are installed though no requirements are given'
    for l in (e for e in o.events if e.kind == 'loop'):
        coll = strip(l.args[0])
        if coll not in lines_of(req):
            continue
        for r in l.kw:
            ops = [e for e in r[2] if e.kind == 'call' and e.name.endswith('.install')]
            if r[0] != 'next' or len(ops) != 1:
                return 'a line of the requirements is not installed'
            got = bound(A, ops[0], ENV + '.install')
            line = ('elem', coll)
            given = got and got.get(signature(A, ENV + '.install')[1])
            if not got or got.get('self') != env or got.get('repository') != args['repository'] or given is None or \
                    given not in [line] + [strip(call(m, (line,))) for m in ('.strip', '.rstrip', 'str')]:
                return 'installs %s' % (ops[0],)
        return None if l.name == 'done' and l.kw else 'not every line of the requirements is installed'
    return 'the requirements are not installed'


def c_printenv(A, o, env, args):
    p = printed(o.flat())
    if len(p) != 1:
        return '%d things are printed' % len(p)
    v = strip(p[0].args[0])
    while v[0] == 'fmt' and len(v[1]) == 1 and v[1][0][0] == 's':
        v = v[1][0][1]
    if v[0] != 'call' or not v[1].endswith('.as_string') or v[2][0] != ('attr', env, 'variables'):
        return 'prints %s' % show(v)[:80]
    names = signature(A, 'ipkg.environments.EnvironmentVariables.as_string')
    got = dict(zip(names, v[2]))
    got.update(v[3])
    return None if got.get(names[1], FALSE) == args['export'] else 'export is %s' % show(got.get(names[1], FALSE))


def c_exec(A, o, env, args):
    e = [e for e in o.flat() if e.kind == 'call' and e.name in ('.execute', ENV + '.execute')]
    if len(e) != 1 or not e[0].args or strip(e[0].args[0]) != env:
        return '%d commands are executed' % len(e)
    got = bound(A, e[0], ENV + '.execute')
    v = got and got.get(signature(A, ENV + '.execute')[1])
    if v is None or as_list(v) != [('one', sym('command')), ('all', sym('arguments'))]:
        return 'the command is %s' % (show(v)[:80] if v else v)
    return data_only(got, signature(A, ENV + '.execute')[2:])


def data_only(got, names):
    extra = {k: v for k, v in got.items() if k in names and v not in (NONE, TRUE, FALSE)}
    return 'other values are handed on: %s' % sorted(extra) if extra else None


def c_shell(A, o, env, args):
    e = [e for e in o.flat() if e.kind == 'call' and e.name in ('.execute', ENV + '.execute')]
    if len(e) != 1 or not e[0].args or strip(e[0].args[0]) != env:
        return '%d commands are executed' % len(e)
    got = bound(A, e[0], ENV + '.execute')
    v = got and got.get(signature(A, ENV + '.execute')[1])
    if v is None or v != sym('shell') and as_list(v) != [('one', sym('shell'))]:
        return 'the command is %s' % (show(v)[:80] if v else v)
    return data_only(got, signature(A, ENV + '.execute')[2:])


def c_build(A, o, env, args):
    made = [strip(call(FROM_FILE, a + (sym('build_file'),))) for a in ((), (('cls', 'ipkg.build.Formula'),))]
    make = [e for e in o.flat() if e.kind == 'call' and e.name == '()' and strip(e.args[0]) in made]
    if len(make) != 1:
        return '%d formulas are made of the build file: %s' % (len(make), list(o.flat()))
    names = ['', 'environment', 'verbose']
    got = dict(zip(names, [strip(a) for a in make[0].args]))
    got.update((k, strip(v)) for k, v in make[0].kw or ())
    if got.get('environment', NONE) != env or got.get('verbose', FALSE) != args['verbose'] or len(got) > 3:
        return 'the formula is made by %r' % make[0]
    formula = strip(call('()', make[0].args, make[0].kw))
    if args['update_repository'] == TRUE:
        local = strip(call(LOCAL, (('attr', args['repository'], 'base'),)))
        if any(e.kind == 'call' and e.name in ('.build', 'ipkg.build.Formula.build') for e in o.flat()):
            return 'the package is built a second time'
        return only(A, o.flat(), '.build_formula', [LOCAL + '.build_formula'],
                    {'self': local, 'formula': formula, 'remove_build_dir': args['remove_build_dir']})
    return only(A, o.flat(), '.build', ['ipkg.build.Formula.build'],
                {'self': formula, 'package_dir': args['package_dir'], 'remove_build_dir': args['remove_build_dir'],
                 'repository': args['repository']})


def c_mkrepo(A, o, env, args):
    return only(A, o.flat(), '.update_metadata', [LOCAL + '.update_metadata'], {'self': sym('repository')})


def c_build_repository(A, o, env, args):
    names = signature(A, LOCAL + '.build_formulas')
    return only(A, o.flat(), '.build_formulas', [LOCAL + '.build_formulas'], {
        'self': sym('package_repository'), names[1]: sym('formula_repository'), 'environment': env,
        'verbose': args['verbose']})


def c_config_get(A, o, env, args):
    p = printed(o.flat())
    got = [strip(s) for e in p for a in e.args for s in subterms(a)]
    want = strip(call('.get_config', (env, sym('key'))))
    return None if want in got else 'the option is not printed: %s' % p


def c_config_set(A, o, env, args):
    return only(A, o.flat(), '.set_config', [ENV + '.set_config'],
                {'self': env, signature(A, ENV + '.set_config')[1]: sym('key'),
                 signature(A, ENV + '.set_config')[2]: sym('value')})


OPERATIONS = {
    'list': c_list, 'install': c_install, 'uninstall': c_uninstall, 'mkenv': c_mkenv, 'printenv': c_printenv,
    'exec': c_exec, 'shell': c_shell, 'build': c_build, 'mkrepo': c_mkrepo,
    'build-repository': c_build_repository, 'config:get': c_config_get, 'config:set': c_config_set}


def combinations(options):
    """every combination of the values of the options"""
    out = [{}]
    for op in options:
        if op.stored:
            out = [dict(d, **{op.dest: v}) for d in out for v in op.values()]
    return out


def c33(R):
    R.rule('registered', 'every command is registered with a function')
    R.rule('accepted', 'the function accepts exactly the values the parser produces for the command')
    R.rule('kinds', 'each option is converted to, and each flag stands for, what its name says')
    R.rule('environment', 'the given environment is used, else the current one, except for building')
    R.rule('operation', 'the command hands the values to the operation it names')
    R.rule('start', 'the installed program runs the command line tool')
    A = scope(analysis(raises=False))
    C = Commands(A)
    at = loc_of(A, MAIN + '.__call__')
    for name in OPERATIONS:
        R.ob('registered', name, name in C.commands, ('ipkg/cli.py', 1), 'the command is gone')
    for name in sorted(C.commands):
        options = C.options.get(name, [])
        func = C.commands[name].get('func')
        here = options[0].loc if options else ('ipkg/cli.py', 1)
        R.ob('registered', name, func is not None and func[0] in ('func', 'bound', 'cls'), here,
             'no function is run')
        for op in options + C.main:
            kinds(R, A, name, op)
        fixed = {k: v for k, v in C.commands[name].items()}
        for values in combinations(options + C.main):
            args = dict(fixed, **values)
            optional = any(op.dest == 'environment' and not op.positional for op in options)
            env = values.get('environment', NONE)
            want = strip(call(CURRENT, ())) if env == NONE and optional and name not in WITHOUT else env
            st, me = the_program(A, args)
            outs = A.method(given(A, st, values), me, '__call__', [])
            R.saw(A, outs)
            what = '%s %s' % (name, ' '.join('%s=%s' % (k, show(v)) for k, v in sorted(values.items())
                                             if v[0] == 'c'))
            done = [o for o in outs if o.ok]
            wrong = [o for o in outs if o.exc_is('TypeError')]
            R.ob('accepted', what, not wrong, here, 'the function does not accept the values: %s' % (
                sorted(k for k in args if k not in ('func', 'debug'))))
            if wrong:
                continue
            if name == 'build' and values.get('update_repository') == TRUE and values.get('repository') == NONE:
                R.ob('operation', what, not done, here, 'a repository which is not given is updated')
                continue
            R.ob('operation', what, bool(done), here, 'the command never completes')
            for o in done:
                if optional:
                    uses = [e for e in o.flat() if e.kind == 'call' and e.name == CURRENT]
                    R.ob('environment', what, bool(uses) == (want == strip(call(CURRENT, ()))), at,
                         'the current environment is %s' % ('used' if uses else 'not used'))
                why = OPERATIONS[name](A, o, want, values) if name in OPERATIONS else None
                R.ob('operation', what, why is None, here, str(why))
    start(R, A)


def given(A, st, values):
    """the values which are not None are something"""
    reset(A, st)
    for dest, v in values.items():
        if v[0] == 'sym':
            st.assume(('isnone', v), False)
            cls = TYPES.get(dest)
            if cls in A.classes and not any(m in A.classes[c].ns for c in A.mro(cls) if c in A.classes
                                            for m in ('__len__', '__nonzero__')):
                st.assume(truth(v), True)
    return st


def kinds(R, A, name, op):
    what = '%s %s' % (name, '/'.join(op.flags) or op.dest)
    t = op.kw.get('type')
    flag = next((FLAGS[f] for f in op.flags if f in FLAGS), None)
    if flag is not None:
        R.ob('kinds', what, op.dest == flag[0] and op.values() == [const(flag[1]), const(not flag[1])], op.loc,
             'the flag stores %s in %s, else %s' % (show(op.values()[0]), op.dest, show(op.values()[-1])))
        return
    if not op.stored:
        return
    want = TYPES.get(op.dest)
    if name == 'mkrepo' and op.dest == 'repository':
        want = LOCAL
    nargs = op.const('nargs')
    R.ob('kinds', what, (nargs in ('*', '...', 'A...')) == (op.dest == 'arguments') and
         (nargs is None or op.dest == 'arguments'), op.loc, 'takes %s values' % nargs)
    if want is None:
        ok = t is None or t in (('ext', 'str'), ('ext', 'unicode')) or t[0] in ('func', 'bound')
    elif want == 'a file':
        ok = t is not None and (t[0] in ('func', 'bound') or t == ('ext', 'open') or t[0] == 'cls')
    else:
        ok = t is not None and (t[0] in ('func', 'bound') or t[0] == 'cls' and want in A.mro(t[1]))
    R.ob('kinds', what, ok, op.loc, 'is converted by %s' % (show(t) if t else None))
    if op.dest in TYPES and not op.positional:
        R.ob('kinds', what, op.kw.get('default', NONE) == NONE, op.loc, 'is not left open when it is not given')


def start(R, A):
    from engine.pyast import load
    tree = load()[0].get('setup.py')
    seen = False
    for n in (tree.walk() if tree else ()):
        if n.t != 'Str' or '=' not in str(n.s) or 'ipkg.cli' not in str(n.s):
            continue
        for line in str(n.s).splitlines():
            name, _, target = line.partition('=')
            if name.strip() != 'ipkg' or not target:
                continue
            seen = True
            mod, _, obj = target.strip().partition(':')
            found = [k for _, k, v in A.getattr_(A.fresh(), ('mod', mod), obj.strip(), None, n)] \
                if mod in A.src else ['x']
            R.ob('start', target.strip(), found == ['v'], ('setup.py', n.line), 'there is no such program')
    R.ob('start', 'ipkg', seen, ('setup.py', 1), 'no program is installed')


# ------------------------------------------------------------- failures

LEVELS = {'NOTSET': 0, 'DEBUG': 10, 'INFO': 20, 'WARN': 30, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50, 'FATAL': 50}


def level(v):
    v = strip(v)
    if v[0] == 'c':
        return v[2] if isinstance(v[2], int) else LEVELS.get(v[2])
    return LEVELS.get(v[1].rpartition('.')[2]) if v[0] == 'ext' else None


def status_zero(x):
    """SystemExit with these arguments is a success"""
    args = x[2] if len(x) > 2 else ()
    if not args:
        return True
    v = strip(args[0])
    if v[0] == 'c':
        return v[2] is None or isinstance(v[2], int) and v[2] % 256 == 0
    # a text is printed and gives status 1, any other value may be zero
    return not (v[0] in ('xinst', 'fmt', 'sym') or is_str(v) or
                v[0] == 'call' and v[1] in ('str', 'unicode', 'repr', '%', 'fmt', '.format', '.join', '.strip'))


def reported(o):
    """what the user sees of a caught error"""
    events = list(o.flat())
    at = index(events, lambda e: e.kind == 'catch')
    shown = 30
    handlers = False
    for i, e in enumerate(events):
        if e.kind == 'log' and e.name == 'setLevel' and level(e.args[1]) is not None:
            shown = level(e.args[1])
        if e.kind == 'log' and e.name == 'addHandler' or e.kind == 'call' and e.name == 'logging.basicConfig':
            handlers = True
        if i <= (at if at is not None else -1):
            continue
        if e.kind == 'print':
            return True
        if e.kind == 'log' and e.name in ('error', 'exception', 'critical', 'fatal', 'warning', 'warn', 'log'):
            least = {'warning': 30, 'warn': 30, 'critical': 50, 'fatal': 50}.get(e.name, 40)
            if e.name == 'log':
                least = level(e.args[1]) or 0
            if 'arser' in show(e.args[0]) or handlers and least >= shown:
                return True
    x = strip(o.val)
    return x[0] == 'xinst' and len(x) > 2 and bool(x[2]) and strip(x[2][0])[0] in ('fmt', 'call', 'xinst') or \
        x[0] == 'xinst' and len(x) > 2 and bool(x[2]) and x[2][0][0] == 'c' and isinstance(x[2][0][2], str)


def c34(R):
    R.rule('status', 'only a command that completed ends with status zero')
    R.rule('report', 'an error that is caught is reported')
    R.rule('swallow', 'no code of the package catches the errors of ipkg and goes on')
    A = scope(analysis(raises=True))
    C = Commands(A)
    at = loc_of(A, MAIN + '.__call__')
    for name in sorted(C.commands):
        options = C.options.get(name, [])
        every = [c for c in combinations(options + C.main)]
        for values in every[:1] + every[1:-1] if len(every) < 9 else [
                c for c in every if c.get('remove_build_dir') != FALSE and c.get('verbose') != TRUE]:
            st, me = the_program(A, dict(C.commands[name], **values))
            judge(R, A, name, A.method(given(A, st, values), me, '__call__', []), at)
    # the options cannot be converted
    A = scope(analysis(raises=True))
    del A.hooks['.error']
    A.hooks['.error'] = exits

    def refused(A, st, a, kw, cx, n):
        st.emit(Ev('failed', '.parse_args', a, kw, None, (n.file, n.line)))
        return [(st, 'x', ('xinst', ERROR, ()))]
    st, me = the_program(A, {}, refused)
    judge(R, A, 'options', A.method(reset(A, st), me, '__call__', []), at)
    swallowed(R, A)


def judge(R, A, name, outs, at):
    R.saw(A, outs)
    for o in outs:
        failed = [e for e in o.flat() if e.kind == 'failed']
        x = None if o.ok else strip(o.val)
        zero = o.ok or x[0] == 'xinst' and x[1] == 'SystemExit' and status_zero(x)
        caught = [e for e in o.flat() if e.kind == 'catch']
        R.ob('status', name, not zero or not (failed or caught), at, 'ends with status zero after %s' % (
            failed or caught))
        if not o.ok and x[1] == 'SystemExit' and caught:
            R.ob('report', name, reported(o), at, 'the error of %s is not reported' % (failed or caught))


ACTS = set("""install uninstall build build_formula build_formulas extract extract_in unarchive execute save
mkdir makedirs mkdtemp rename unlink rmtree rmdir copyfile copytree copymode symlink os.remove patch
update_metadata download rewrite_prefix rewrite_pyc set_config chmod extractall run_configure run_make_install
run_make build_solution""".split())


def named(node):
    f = node.func
    return f.id if f.t == 'Name' else f.attr if f.t == 'Attribute' else None


class Package(object):
    """the functions of the package by name"""

    def __init__(self, A):
        self.A = A
        self.defs, self.parents = {}, {}
        for m, tree in A.src.items():
            tree = tree[0]
            for n in tree.walk():
                if n.t == 'FunctionDef':
                    self.defs.setdefault(n.name, []).append(n)
                if n.t == 'ClassDef':
                    for b in n.body:
                        if b.t == 'FunctionDef' and b.name == '__init__':
                            self.defs.setdefault(n.name, []).append(b)
        self.cache = {}

    def acts(self, nodes, seen=()):
        """the writing operations that may be reached"""
        out = set()
        for top in nodes:
            for n in top.walk():
                if n.t != 'Call':
                    continue
                name = named(n)
                if name in ACTS or dotted(n.func) in ACTS:
                    out.add(name)
                elif name in self.defs and name not in seen and not (
                        n.func.t == 'Attribute' and name in COMMON):
                    for d in self.defs[name]:
                        out |= self.acts(d.body, seen + (name,)) if len(seen) < 6 else set()
        return out

    def catches(self, module, t):
        """the handler may catch errors of ipkg"""
        if t is None:
            return True
        if t.t == 'Tuple':
            return any(self.catches(module, x) for x in t.elts)
        v = self.value(module, t)
        if v is None:
            return True
        if v[0] == 'cls':
            return ERROR in self.A.mro(v[1]) or v[1] in self.A.mro(ERROR)
        if v[0] == 'ext':
            return v[1].rpartition('.')[2] in ('Exception', 'BaseException', 'StandardError', 'object')
        if v[0] == 'tup':
            return any(x[0] not in ('cls', 'ext') or x[0] == 'cls' and ERROR in self.A.mro(x[1]) or
                       x[1] in ('Exception', 'BaseException', 'StandardError') for x in v[1:])
        return True

    def value(self, module, t):
        A = self.A
        try:
            if t.t == 'Name':
                r = A.getattr_(A.fresh(), ('mod', module), t.id, None, t)
                if len(r) == 1 and r[0][1] == 'v':
                    return r[0][2]
                return ('ext', t.id) if hasattr(__builtins__, t.id) or t.id in BUILTIN else None
            if t.t == 'Attribute':
                v = self.value(module, t.value)
                if v is None:
                    return None
                r = A.getattr_(A.fresh(), v, t.attr, None, t)
                return r[0][2] if len(r) == 1 and r[0][1] == 'v' else None
        except (AnalysisError, AttributeError, KeyError):
            return None
        return None

    # ---------------------------------------------------------- raising
    def ends(self, n, depth=0):
        """the statement always raises (or exits with a failure)"""
        if n.t == 'Raise':
            return not (n.get('type') is not None and exits_zero(n.type))
        if n.t == 'Expr' and n.value.t == 'Call':
            name = named(n.value)
            if name in ('exit', '_exit'):
                return not exits_zero(n.value)
            if name == 'error' and 'parser' in dotted(n.value.func):
                return True
            if depth < 4 and name in self.defs:
                return all(self.raises(d.body, depth + 1) for d in self.defs[name])
            return False
        if n.t == 'If':
            return bool(n.orelse) and self.raises(n.body, depth) and self.raises(n.orelse, depth)
        if n.t == 'TryFinally':
            return self.raises(n.body, depth) or self.raises(n.finalbody, depth)
        if n.t == 'TryExcept':
            return self.raises(n.body, depth) and all(self.raises(h.body, depth) for h in n.handlers)
        if n.t == 'With':
            return self.raises(n.body, depth)
        if n.t == 'Return' and n.get('value') is not None and n.value.t == 'Call':
            return depth < 4 and named(n.value) in self.defs and \
                all(self.raises(d.body, depth + 1) for d in self.defs[named(n.value)])
        return False

    def raises(self, body, depth=0):
        for s in body:
            if self.ends(s, depth):
                return True
            if any(x.t in ('Return', 'Break', 'Continue') for x in s.walk()):
                return False
        return False


# methods which containers, texts and files have as well
COMMON = set(dir(dict)) | set(dir(list)) | set(dir(set)) | set(dir(str)) | set(
    'read close seek tell write writelines readlines set'.split())
BUILTIN = set(dir(__import__('builtins'))) | {'StandardError', 'unicode', 'basestring'}


def dotted(n):
    return dotted(n.value) + '.' + n.attr if n.t == 'Attribute' else n.id if n.t == 'Name' else '?'


def exits_zero(n):
    """SystemExit(0), sys.exit(), ..."""
    if n.t == 'Name' and n.id == 'SystemExit':
        return True
    if n.t != 'Call' or named(n) not in ('SystemExit', 'exit', '_exit', 'quit'):
        return False
    if not n.args:
        return True
    a = n.args[0]
    return a.t == 'Num' and a.n in (0, '0') or a.t == 'Name' and a.id in ('None', 'False')


def logs(body):
    for top in body:
        for n in top.walk():
            if n.t == 'Print' or n.t == 'Call' and named(n) in (
                    'exception', 'error', 'warning', 'warn', 'critical', 'log', 'info', 'write'):
                return True
    return False


def only_answers(body):
    """the handler only returns True or False, or sets a local name to one of them"""
    if body and all(s.t == 'Assign' and all(x.t == 'Name' for x in s.targets) and s.value.t == 'Name' and
                    s.value.id in ('True', 'False') or s.t == 'Pass' or
                    s.t == 'Expr' and (s.value.t == 'Str' or logs([s])) for s in body) and \
       any(s.t == 'Assign' for s in body):
        return True
    for s in body:
        if s.t == 'Return' and s.get('value') is not None and s.value.t == 'Name' and s.value.id in ('True', 'False'):
            return True
        if not (s.t in ('Pass',) or s.t == 'Expr' and (s.value.t == 'Str' or logs([s]))):
            return False
    return False


def kept(handler, function):
    """the error is kept, and raised later"""
    names = set()
    for s in handler.body:
        for n in s.walk():
            if n.t == 'Assign':
                names |= set(t.id for t in n.targets if t.t == 'Name')
    for n in function.walk():
        if n.t == 'If' and n.line > handler.line and any(x.t == 'Name' and x.id in names for x in n.test.walk()):
            if any(x.t == 'Raise' for b in n.body + n.orelse for x in b.walk()):
                return True
    return False


def functions_of(tree):
    """(function or module, its try statements), each once"""
    def inside(n, f):
        for c in children(n):
            if c.t in ('TryExcept', 'TryFinally'):
                yield f, c
            for r in inside(c, c if c.t == 'FunctionDef' else f):
                yield r
    return inside(tree, tree)


def children(n):
    for k, v in n.f.items():
        if isinstance(v, list):
            for x in v:
                if hasattr(x, 't'):
                    yield x
        elif hasattr(v, 't'):
            yield v


def swallowed(R, A):
    P = Package(A)
    for module in sorted(A.src):
        if not module.startswith('ipkg'):
            continue
        for f, t in functions_of(A.src[module][0]):
            where = '%s.%s' % (module, f.name if f.t == 'FunctionDef' else '<module>')
            if t.t == 'TryFinally':
                bad = [x for s in t.finalbody for x in s.walk() if x.t == 'Return' or x.t in ('Break', 'Continue') and
                       s.t not in ('For', 'While')]
                R.ob('swallow', where, not bad, (t.file, t.line), 'a finally clause that leaves drops the error')
                continue
            for h in t.handlers:
                if f.t != 'FunctionDef' or not P.catches(module, h.get('type')):
                    continue
                acts = P.acts(t.body)
                ok = P.raises(h.body) or kept(h, f) or only_answers(h.body) and not acts or \
                    logs(h.body) and acts and 'build_formula' in [
                        named(n) for s in t.body for n in s.walk() if n.t == 'Call'] or \
                    logs(h.body) and module == 'ipkg.files.cache' and f.name == 'set'
                R.ob('swallow', where, ok, (h.file, h.line), 'the handler goes on after errors of %s' % (
                    sorted(acts) or 'ipkg'))
        for n in A.src[module][0].walk():
            if n.t == 'FunctionDef' and n.name == '__exit__':
                bad = [x for x in n.walk() if x.t == 'Return' and x.get('value') is not None and
                       not (x.value.t == 'Name' and x.value.id in ('None', 'False'))]
                R.ob('swallow', module + '.__exit__', not bad, (n.file, n.line), 'errors are suppressed')


CHECKS = {'C33': c33, 'C34': c34}
