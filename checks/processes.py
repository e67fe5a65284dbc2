"""C39: running external commands"""
import re
from .base import *
from engine.absint import own_nodes

EXEC = 'ipkg.utils.execute'
FAILED = 'ipkg.utils.ExecutionFailed'
NAMES = ('command', 'stdin', 'stdout', 'stderr', 'cwd', 'data', 'env')
# what starts processes
STARTS = re.compile(r'(os\.(system|popen\d?|spawn\w+|exec\w+|fork|forkpty|posix_spawnp?|startfile)|'
                    r'subprocess\.(?!PIPE$|STDOUT$|DEVNULL$|CalledProcessError$|list2cmdline$)\w+|commands\.\w+|'
                    r'popen2\.\w+|pty\.\w+|platform\.popen|multiprocessing\..*|java\.lang\.(Runtime|ProcessBuilder)\b.*|'
                    r'distutils\.spawn\..*|sh\..*)$')
MODULES = ('subprocess', 'commands', 'popen2', 'pty', 'multiprocessing')
KEYS = {'args', 'stdin', 'stdout', 'stderr', 'cwd', 'env'}
HARMLESS = {'bufsize', 'close_fds', 'universal_newlines'}


def raising(name, events, A, st, args, kw, n, res, excs):
    """a call which may fail with the given exceptions"""
    st.emit(Ev('call', name, args, kw, res, (n.file, n.line)))
    out = []
    for e in excs:
        s = st.copy()
        s.emit(Ev('failed', name, args, kw, None, (n.file, n.line)))
        out.append((s, 'x', ('xinst', e, ())))
    return [(st, 'v', res)] + out


P = sym('process')


def hooked():
    A = analysis(raises=False)

    def popen(A, st, args, kw, cx, n):
        return raising('subprocess.Popen', (), A, st, args, kw, n, P, ['OSError'])

    def communicate(A, st, args, kw, cx, n):
        return raising('.communicate', (), A, st, args, kw, n, call('.communicate', args, kw), ['IOError', 'OSError'])

    def split(A, st, args, kw, cx, n):
        return raising('shlex.split', (), A, st, args, kw, n, call('shlex.split', args, kw), ['ValueError'])
    A.hooks['subprocess.Popen'] = popen
    A.hooks['.communicate'] = communicate
    A.hooks['shlex.split'] = split
    return A


def positional(args, kw, names):
    d = dict(kw)
    d.update(zip(names, args))
    return d


POPEN = ('args', 'bufsize', 'executable', 'stdin', 'stdout', 'stderr', 'preexec_fn', 'close_fds', 'shell', 'cwd',
         'env', 'universal_newlines', 'startupinfo', 'creationflags')


def is_none(v):
    return v is None or v == NONE


def all_of(A, v):
    """what a list copies entirely, or the value itself"""
    v = strip(v)
    while True:
        if v[0] == 'L' and len(v[2]) == 1 and v[2][0][0] == 'all':
            v = v[2][0][1]
        elif v[0] == 'D' and not v[1] and len(v[2]) == 1 and v[2][0][0] == 'all' and not v[3]:
            v = v[2][0][1]
        elif cname(v) in ('list', 'tuple', 'dict') and len(v[2]) == 1:
            v = v[2][0]
        else:
            return v


def scenarios():
    for text in (True, False):
        for data in (NONE, const(''), const('some'), sym('data')):
            for env in ('none', 'empty', 'some'):
                for nostream in (None, 'stdin', 'stdout', 'stderr'):
                    for cwd in (NONE, sym('cwd')):
                        if (nostream or cwd == NONE) and env == 'some' and data[0] == 'sym' and not text:
                            continue
                        yield text, data, env, nostream, cwd


def given(R):
    for text, data, env, nostream, cwd in scenarios():
        A = hooked()
        st = A.fresh()
        if env == 'empty':
            e = st.new(D(()))
        elif env == 'some':
            e = sym('env')
        else:
            e = NONE
        a = {'command': sym('command'), 'stdin': sym('stdin'), 'stdout': sym('stdout'), 'stderr': sym('stderr'),
             'cwd': cwd, 'data': data, 'env': e}
        if nostream:
            a[nostream] = NONE
        reset(A, st)
        for t in ('basestring', 'str'):
            st.assume(('isinst', sym('command'), ('ext', t)), text)
        st.assume(('isinst', sym('command'), ('ext', 'unicode')), False)
        for n, v in a.items():
            if v[0] == 'sym':
                st.assume(('isnone', v), False)
                if n in ('stdin', 'stdout', 'stderr', 'cwd', 'env'):
                    st.assume(truth(v), True)
        outs = A.run(st, EXEC, [], [(n, v) for n, v in a.items()])
        R.saw(A, outs)
        loc = loc_of(A, EXEC)
        case = '%s, data %s, env %s%s%s' % ('a text' if text else 'a list', show(data), env,
                                            ', no ' + nostream if nostream else '', '' if cwd != NONE else ', no cwd')
        returned = False
        for o in outs:
            evs = o.flat()
            failed = [e for e in evs if e.kind == 'failed']
            starts = [e for e in evs if is_call(e, 'subprocess.Popen')]
            for f in failed:
                R.ob('reported', 'a failing %s' % f.name, not o.ok and o.exc_is(FAILED), f.loc,
                     '%s when %s fails (%s)' % ('returns' if o.ok else 'raises %s' % o.exc(), f.name, case))
            R.ob('given', 'one command', len(starts) <= 1, loc, 'several commands are started')
            for s in starts:
                args_given(R, A, o, s, a, text, env, case)
            if failed:
                continue
            codes = returncodes(o)
            if o.ok:
                returned = True
                R.ob('status', 'returns', bool(starts), loc, 'returns without having started anything (%s)' % case)
                for c in (1, 2, 127, 255, 256, -1, -9):
                    R.ob('status', 'exit status %i' % c, bool(codes) and impossible(o, codes, c), loc,
                         'returns if the exit status is %i (%s)' % (c, case))
                comm = [e for e in evs if is_call(e, '.communicate')]
                R.ob('output', 'read', len(comm) == 1 and strip(comm[0].args[0]) == P, loc,
                     'the output is not read (%s)' % case)
                if len(comm) != 1:
                    continue
                d = positional(comm[0].args[1:], comm[0].kw, ('input',)).get('input', NONE)
                R.ob('given', 'data', d == data, comm[0].loc, '%s is sent instead of %s' % (show(d), show(data)))
                v = strip(o.ret())
                c = strip(comm[0].res)
                pair = ('tup', ('item', c, const(0)), ('item', c, const(1)))
                R.ob('output', 'returned', v == c or strip(o.st.freeze(o.ret())) == pair or v == pair, loc,
                     'returns %s' % show(v))
            elif starts:
                R.ob('status', 'exit status 0', not o.exc_is(FAILED) or bool(codes) and impossible(o, codes, 0), loc,
                     'reported as failed if the exit status is 0 (%s)' % case)
                R.ob('reported', 'a failing command', o.exc_is(FAILED), loc, 'raises %s (%s)' % (o.exc(), case))
            else:
                R.ob('reported', 'no command', o.exc_is(FAILED), loc, 'raises %s (%s)' % (o.exc(), case))
                # only the empty command is refused
                c = sym('command') if not text else strip(call('shlex.split', (sym('command'),)))
                empty = any(tri(o.st.path, f) is True for f in (
                    ('not', truth(x)) for x in ()) ) or refused_when_empty(o, c)
                R.ob('given', 'refused', empty, loc, 'refuses to run a command if %s' % o.describe()[:200])
        R.ob('status', 'returns', returned, loc, 'never returns (%s)' % case)


def refused_when_empty(o, c):
    """the path needs an empty command"""
    def some(a):
        env = {c: ['x', 'y'], sym('command'): ['x', 'y'], ('call', 'len', (c,), (), 0): 2}
        return foldb(strip(a), env)
    return consistent(o.st.path, some) is False


def returncodes(o):
    out = set()
    for a, p in o.st.path:
        for t in subterms(a):
            if isinstance(t, tuple) and t and (
                    t[0] == 'attr' and strip(t[1]) == P and t[2] == 'returncode' or
                    cname(t) in ('.wait', '.poll') and strip(t[2][0]) == P):
                out.add(strip(t))
    return out


def impossible(o, codes, value):
    env = {c: value for c in codes}
    return consistent(o.st.path, lambda a: foldb(strip(a), env)) is False


def args_given(R, A, o, s, a, text, env, case):
    d = positional(s.args, s.kw, POPEN)
    cmd = all_of(A, d.get('args', NONE))
    want = strip(call('shlex.split', (sym('command'),))) if text else sym('command')
    R.ob('given', 'command', cmd == want, s.loc, 'runs %s instead of %s' % (show(cmd), show(want)))
    for n in ('cwd', 'stdout', 'stderr'):
        v = d.get(n, NONE)
        R.ob('given', n, v == a[n], s.loc, '%s is %s, given %s (%s)' % (n, show(v), show(a[n]), case))
    if a['data'] == NONE:
        R.ob('given', 'stdin', d.get('stdin', NONE) == a['stdin'], s.loc, 'stdin is %s, given %s (%s)' % (
            show(d.get('stdin', NONE)), show(a['stdin']), case))
    else:
        R.ob('given', 'stdin', d.get('stdin') in (('ext', 'subprocess.PIPE'), const(-1)), s.loc,
             'there is data, but stdin is %s (%s)' % (show(d.get('stdin', NONE)), case))
    e = d.get('env', NONE)
    if env == 'none':
        ok = e == NONE
    elif env == 'some':
        ok = all_of(A, o.st.freeze(e)) == sym('env')
    else:
        f = o.st.freeze(e)
        ok = f[0] == 'D' and not f[1] and not f[2]
    R.ob('given', 'environment', ok, s.loc, 'the environment is %s (%s)' % (show(o.st.freeze(e)), case))
    for k, v in d.items():
        if k in KEYS or k in HARMLESS:
            continue
        R.ob('given', 'other options', v in (NONE, FALSE, const(0)), s.loc, 'Popen(%s=%s)' % (k, show(v)))


def passed_on(R):
    """Environment.execute gives everything but the environment to execute"""
    A = analysis(raises=False)
    A.opaque.add(EXEC)
    q = 'ipkg.environments.Environment.execute'
    loc = loc_of(A, q)
    for case in ((), ('data',), ('cwd',), ('data', 'cwd')):
        a = {n: NONE if n in case else sym(n) for n in NAMES[:-1]}
        st = A.fresh()
        reset(A, st)
        for n, v in a.items():
            if v[0] == 'sym':
                st.assume(('isnone', v), False)
                st.assume(truth(v), True)
        outs = A.run(st, q, [sym('self')], list(a.items()))
        R.saw(A, outs)
        for o in outs:
            runs = [e for e in o.flat() if is_call(e, EXEC)]
            R.ob('given', 'by an environment', len(runs) == 1 and o.ok and strip(o.ret()) == strip(runs[0].res), loc,
                 'gives %s' % (show(o.ret()) if o.ok else o.exc()))
            for e in runs:
                d = positional(e.args, e.kw, NAMES)
                for n, v in a.items():
                    got = all_of(A, d.get(n, sym('default ' + n)))
                    R.ob('given', 'by an environment: ' + n, got == v, e.loc, '%s is %s, given %s' % (
                        n, show(got), show(v)))


# --------------------------------------------------------- where processes start

def imports(node, out):
    """local names of modules and what they name"""
    for n in node.walk():
        if n.t == 'Import':
            for al in n.names:
                full, local = al.get('name'), al.get('asname')
                out[local or full.split('.')[0]] = full if local else full.split('.')[0]
        elif n.t == 'ImportFrom' and not n.get('level'):
            for al in n.names:
                out[al.get('asname') or al.get('name')] = '%s.%s' % (n.module, al.get('name'))
    return out


def dotted(n, names):
    """the full name of an expression"""
    if n.t == 'Name':
        return names.get(n.id)
    if n.t == 'Attribute':
        b = dotted(n.value, names)
        return b and '%s.%s' % (b, n.attr)
    return None


def parents(tree):
    """functions of a module: (node, innermost function or None)"""
    def visit(n, fn):
        yield n, fn
        inner = n if n.t in ('FunctionDef', 'Lambda') else fn
        for v in n.f.values():
            for x in (v if isinstance(v, list) else [v]):
                if hasattr(x, 't'):
                    for y in visit(x, inner if n.t != 'Lambda' else fn):
                        yield y
    return visit(tree, None)


def starting(R):
    A = hooked()
    st = A.fresh()
    outs = A.run(st, EXEC, [sym(n) for n in NAMES])
    R.saw(A, outs)
    inside = set(q.split('@')[0] for q in A.inlined) | {EXEC}
    short = set(q.split('.')[-1] for q in inside)
    where = {}
    total = 0
    helpers = set()
    for m, (tree, path) in sorted(A.src.items()):
        names = imports(tree, {})
        for n, fn in parents(tree):
            if n.t in ('Import', 'ImportFrom'):
                total += 1
                if n.t == 'ImportFrom' and n.module in MODULES:
                    for al in n.names:
                        R.ob('one-way', 'imports', al.get('name') != '*', (n.file, n.line),
                             'everything is imported from %s' % n.module)
                continue
            if n.t not in ('Attribute', 'Name'):
                continue
            full = dotted(n, names)
            if not full or not STARTS.match(full):
                if full in MODULES:
                    pass
                continue
            total += 1
            ok = fn is not None and fn.t == 'FunctionDef' and '%s.%s' % (m, fn.name) in inside and \
                full == 'subprocess.Popen'
            if ok and '%s.%s' % (m, fn.name) != EXEC:
                helpers.add(fn.name)
            R.ob('one-way', 'starts of processes', ok, (n.file, n.line), '%s starts a command%s' % (
                full, '' if fn is None or fn.t != 'FunctionDef' else ' in %s' % fn.name))
    # a part of execute that starts processes is not for others
    for m, (tree, path) in sorted(A.src.items()):
        for n, fn in parents(tree):
            x = n.id if n.t == 'Name' else n.attr if n.t == 'Attribute' else None
            if x in helpers:
                ok = fn is not None and fn.t == 'FunctionDef' and fn.name in short
                R.ob('one-way', 'starts of processes', ok, (n.file, n.line), '%s is used outside of execute' % x)
    R.ob('one-way', 'modules', total > 0, None, 'nothing found')


# ------------------------------------------------------------------ its callers

def mentioned(fi):
    out = set()
    for n in fi.node.walk():
        if n.t == 'Name':
            out.add(n.id)
        elif n.t == 'Attribute':
            out.add(n.attr)
    return out


def reaching(A):
    """functions which may run commands, by the names they mention"""
    names = {'execute'}
    fis = [f for f in A.funcs.values() if f.name != '<lambda>']
    found = {}
    while True:
        new = set()
        for f in fis:
            m = mentioned(f) & names
            if m and f.qual not in found:
                found[f.qual] = (f, m)
                new.add(f.qual)
        if not new:
            return found, names
        names |= set(found[q][0].name for q in new if found[q][0].module != 'ipkg.cli' and
                     not found[q][0].name.startswith('__'))


REPORTS = ('error', 'exception', 'critical', 'fatal')


def judged(R, what, evs, final, loc, seen):
    """an attempt on this path is reported by its end, or by an error message after it"""
    tried = False
    for e in evs:
        if e.kind == 'loop':
            for r in e.kw:
                judged(R, what, r[2], r[0] == 'exc', loc, seen)
        if e.kind == 'attempt':
            tried = e
            seen.append(e)
        elif tried and e.kind == 'log' and e.name in REPORTS:
            tried = False
    if tried:
        R.ob('callers', what, final, tried.loc, 'the failure of %s is ignored' % tried.name)
    return tried


def callers(R):
    A = analysis(raises=False)
    found, names = reaching(A)
    A.log_events = True
    A.opaque |= set(f.qual for f in A.funcs.values() if f.qual not in found and f.name != '<lambda>')

    def fails(name):
        def hook(A, st, args, kw, cx, n):
            c = ('ran', name, args, kw)
            s = st.copy()
            s.emit(Ev('attempt', name, args, kw, None, (n.file, n.line)))
            k = st.cnt.get(c, 0)
            st.cnt[c] = k + 1
            return [(st, 'v', ('call', name, args, kw, k)), (s, 'x', ('xinst', FAILED, ()))]
        return hook
    hooks = {EXEC: fails('execute')}
    for q, (f, m) in found.items():
        if f.name in names:
            hooks[q] = fails(f.name)
    # "run_" and the name of a command is a method of a formula
    for x in sorted(names | set(x for f in A.funcs.values() for x in mentioned(f) if x.startswith('run_'))):
        hooks['.' + x] = fails(x)
    n = 0
    for q, (f, m) in sorted(found.items()):
        if q == EXEC or q.rsplit('.', 1)[0] not in A.src and q.rsplit('.', 2)[0] not in A.src:
            continue        # nested functions: analysed below through the function they are in
        A.hooks = {k: v for k, v in hooks.items() if k != q}
        outs = A.run(A.fresh(), q, [sym(p) if isinstance(p, str) else sym('pair') for p in f.params])
        R.saw(A, outs)
        seen = []
        for o in outs:
            judged(R, q, o.events, not o.ok, loc_of(A, q), seen)
        R.ob('callers', q, True, loc_of(A, q))
        n += bool(seen)
        R.ob('callers', 'runs commands: ' + q, bool(seen) or not direct(A, f), loc_of(A, q), 'no call was found on any path')
    R.ob('callers', 'found', n >= 5, None, 'only %i functions run commands' % n)


def direct(A, f):
    """the function itself calls execute of utils"""
    for n in own_nodes(f.node):
        if n.t == 'Call' and n.func.t == 'Name':
            fr = A.modframe.get(f.module)
            v = A.base[fr].vars.get(n.func.id) if fr in A.base else None
            if v is not None and v[0] == 'func' and A.funcs[v[1]].qual == EXEC:
                return True
    return False


def c39(R):
    R.rule('given', 'the command is started with the arguments, streams, directory and environment it was given, '
           'and gets the input data it was given')
    R.rule('reported', 'a command which cannot be started, or does not take its input, is reported as failed')
    R.rule('status', 'a command is reported as failed exactly if its exit status is not 0')
    R.rule('output', 'the captured output is returned')
    R.rule('one-way', 'nothing else starts processes')
    R.rule('callers', 'no path through a function which runs commands goes on after one has failed without an '
           'error message')
    given(R)
    passed_on(R)
    starting(R)
    callers(R)


CHECKS = {'C39': c39}
