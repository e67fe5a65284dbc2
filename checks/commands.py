"""C41: commands of formulas"""
from .base import *
from .building import FORMULA, ENV, OPAQUE, walkers, formula, configure, bound
from engine.lib import Outcome

RUN = FORMULA + '.run_command'


def given(A, st, v):
    """the words of a command: list of constants and ('*', collection)"""
    v = st.freeze(v)
    if v[0] == 'tup':
        return [x for x in v[1:]]
    if v[0] == 'call' and v[1] in ('list', 'tuple') and len(v[2]) == 1:
        v = v[2][0]
    if v[0] != 'L':
        return [('*', strip(v))]
    out = []
    for s in v[2]:
        if s[0] == 'one':
            out.append(strip(s[1]))
        elif s[0] == 'all':
            c = s[1]
            while c[0] == 'call' and c[1] in ('list', 'tuple') and len(c[2]) == 1:
                c = c[2][0]
            out.append(('*', strip(c)))
        elif s[0] == 'many' and not s[2] and s[1] == ('elem', s[3]):
            out.append(('*', strip(s[3])))
        else:
            out.append(('?', strip(s)))
    return out


def command_of(A, o, e):
    a = bound(A, RUN, e)
    return given(A, o.st, a.get('command', NONE)), a


def wrapper(R, A, st, f, name):
    """the outcomes of f.<name>: functions"""
    cx = A.cx(st, [f])
    return [(s, v) for s, k, v in A.getattr_(st, f, name, cx, A.node()) if k == 'v'], cx


def calls(A, cx, st, f, args, kw=()):
    return [Outcome(s, k, v, A) for s, k, v in A.call(st, f, list(args), list(kw), [], cx, A.node())]


TEXT, LIST, DATA, CWD = sym('text'), sym('words'), sym('data'), sym('cwd')


def cases(st):
    """(description, arguments, assumptions, expected words)"""
    split = call('.split', (TEXT,))
    yield 'no arguments', [], [], []
    yield 'None', [NONE], [], []
    yield 'a list', [LIST], [(truth(LIST), True), (('isinst', LIST, ('ext', 'basestring')), False),
                             (('isnone', LIST), False), (('isinst', LIST, ('ext', 'str')), False)], [('*', LIST)]
    yield 'a text', [TEXT], [(truth(TEXT), True), (('isinst', TEXT, ('ext', 'basestring')), True),
                             (('isnone', TEXT), False)], [('*', strip(split))]


def judge(R, A, o, what, n, want, loc, old=0):
    """the last of the commands run is `n want`"""
    runs = [e for e in o.flat() if is_call(e, RUN)]
    if not R.ob('commands', what, o.ok and len(runs) == 1 + old, loc, 'runs %d commands%s' % (
            len(runs), '' if o.ok else ', raises %s' % o.exc())):
        return
    e = runs[-1]
    got, a = command_of(A, o, e)
    # words known to be none
    want = [w for w in want if not (w[0] == '*' and known(o.st.path, truth(w[1])) is False)]
    R.ob('commands', what + ': words', got == [const(n)] + want, e.loc, 'runs %s' % ' '.join(
        ('*' if g[0] == '*' else '') + show(g[1] if g[0] == '*' else g)[:80] for g in got))
    return a


def c41(R):
    R.rule('commands', 'run_<command>(arguments) runs the command with exactly these arguments, on every call')
    R.rule('configure', 'run_configure runs ./configure with the configure arguments, naming the directories of the '
           'environment')
    R.rule('streams', 'what a command prints is shown if the formula is verbose and dropped otherwise')
    A = analysis(raises=False)
    A.opaque |= OPAQUE | walkers(A)
    st, f, env = formula(A)
    loc = loc_of(A, FORMULA + '.__getattr__') if FORMULA + '.__getattr__' in [x.qual for x in A.funcs.values()] else \
        loc_of(A, RUN)
    n = 0
    for name, cmd in (('run_make', 'make'), ('run_cp', 'cp'), ('run_install_name_tool', 'install_name_tool')):
        for what, args, facts, want in cases(st):
            for kw in ((), (('data', DATA),), (('cwd', CWD),)):
                s = st.copy()
                reset(A, s)
                for x, p in facts:
                    s.assume(x, p)
                label = '%s with %s%s' % (name, what, ', ' + kw[0][0] if kw else '')
                got, cx = wrapper(R, A, s, f, name)
                if not R.ob('commands', label, bool(got), loc, 'is not available'):
                    continue
                for s1, fn in got:
                    outs = calls(A, cx, s1, fn, args, kw)
                    R.saw(A, outs)
                    R.ob('commands', label, bool(outs), loc, 'no result')
                    for o in outs:
                        a = judge(R, A, o, label, cmd, want, loc)
                        n += 1
                        for k, v in (('data', DATA), ('cwd', CWD)):
                            x = a.get(k, NONE) if a else None
                            R.ob('commands', '%s: %s' % (label, k), a and x == (v if (k, v) in kw else NONE), loc,
                                 '%s is %s' % (k, show(x) if x else None))
                        # the same function again, and another time looked up
                        if not kw and o.ok:
                            for again in ('the same', 'looked up again'):
                                s2 = o.st.copy()
                                f2 = [(s2, fn)] if again == 'the same' else wrapper(R, A, s2, f, name)[0]
                                for s3, fn2 in f2:
                                    for o2 in calls(A, cx, s3, fn2, [], ()):
                                        n += 1
                                        judge(R, A, o2, '%s, then %s without arguments' % (label, again), cmd, [],
                                              loc, 1)
    # a caller's list is not changed
    s = st.copy()
    reset(A, s)
    mine = s.new(L('list', (('one', const('install')),)))
    got, cx = wrapper(R, A, s, f, 'run_make')
    for s1, fn in got:
        for o in calls(A, cx, s1, fn, [mine]):
            judge(R, A, o, 'run_make with a given list', 'make', [const('install')], loc)
            R.ob('commands', 'a given list', o.st.freeze(mine) == ('L', 'list', (('one', const('install')),)), loc,
                 'is changed to %s' % show(o.st.freeze(mine)))
            n += 1
    # only these names
    s = st.copy()
    reset(A, s)
    cx = A.cx(s, [f])
    for name in ('no_such_attribute', 'make', 'runmake'):
        for s1, k, v in A.getattr_(s.copy(), f, name, cx, A.node()):
            o = Outcome(s1, k, v, A)
            R.ob('commands', 'attribute ' + name, k == 'x' and o.exc() == 'AttributeError', loc,
                 'is %s' % (show(v) if k != 'x' else o.exc()))
    R.ob('commands', 'calls', n > 20, loc, 'only %d calls' % n)

    where = loc_of(A, FORMULA + '.run_configure')
    s = st.copy()
    reset(A, s)
    outs = A.method(s, f, 'run_configure')
    R.saw(A, outs)
    R.ob('configure', 'Formula.run_configure', bool(outs), where, 'no result')
    for o in outs:
        runs = [e for e in o.flat() if is_call(e, RUN)]
        if R.ob('configure', 'Formula.run_configure', o.ok and len(runs) == 1, where, 'runs %d commands' % len(runs)):
            a = bound(A, RUN, runs[0])
            c = o.st.freeze(a.get('command', NONE))
            R.ob('configure', 'Formula.run_configure: command', configure(A, o, c, env), runs[0].loc,
                 'runs %s' % show(c)[:200])

    streams(R)


def null(v):
    v = strip(v)
    return v[0] == 'call' and v[1] in ('open', 'os.open') and v[2] and show(v[2][0]) in ('os.devnull', "'/dev/null'")


def streams(R):
    A = analysis(raises=False)
    A.opaque |= (OPAQUE | walkers(A)) - {RUN}
    s, f, e = formula(A)
    where = loc_of(A, RUN)
    outs = A.method(s, f, 'run_command', [sym('command')])
    R.saw(A, outs)
    verbose = [strip(v) for v in values_of(A, s, f, 'verbose')]
    seen = set()
    for o in outs:
        if not o.ok:
            continue
        for c in [c for c in o.flat() if is_call(c, ENV + '.execute')]:
            a = bound(A, ENV + '.execute', c)
            v = None
            for x in verbose:
                v = x[2] if x[0] == 'c' else tri(o.st.path, truth(x))
            out, err = (strip(a.get(k, sym('default ' + k))) for k in ('stdout', 'stderr'))
            seen.add(v)
            R.ob('streams', 'verbosity', v is not None, c.loc, 'the streams do not depend on the verbosity')
            if v:
                ok = show(out) == 'sys.stdout' and show(err) == 'sys.stderr' or \
                    'default' in show(out) and 'default' in show(err)
                R.ob('streams', 'verbose', ok, c.loc, 'prints to %s and %s' % (show(out), show(err)))
            else:
                R.ob('streams', 'quiet', null(out) and null(err), c.loc, 'prints to %s and %s' % (show(out), show(err)))
    R.ob('streams', 'both', len(seen) > 0, where, 'no command is executed')


CHECKS = {'C41': c41}
