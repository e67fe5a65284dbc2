"""C44: formula files"""
from engine.lib import Outcome
from .base import *

LOAD = 'ipkg.build.Formula.from_file'
FORMULA = 'ipkg.build.Formula'
REPO = 'ipkg.repositories.FormulaRepository'
PATH = sym('path')
FRESH = ('uuid.uuid4', 'uuid.uuid1', 'next', 'tempfile.mktemp', 'os.urandom', 'random.random', 'time.time')
# what a loaded module defines: name -> kind; '*' marks formula classes
WORLDS = [
    ({'Formula': 'base'}, None),
    ({}, None),
    ({'Formula': 'base', 'File': 'class', 'os': 'module', 'VERSION': 'text', 'make': 'function'}, None),
    ({'Foo': '*'}, 'Foo'),
    ({'Foo': '*', 'Formula': 'base'}, 'Foo'),
    ({'Formula': 'base', 'foo': '*', 'File': 'class', 'os': 'module', 'VERSION': 'text', 'make': 'function'}, 'foo'),
    ({'Foo': '*', 'zlib': 'module', 'X': 'text'}, 'Foo'),
    ({'Formula': 'base', '_Common': '*', 'Foo': '*'}, 'Foo'),
    ({'Bar': '*', 'Foo': '*', 'Formula': 'base'}, None),
    ({'Bar': '*', 'Foo': '*', 'Quux': '*'}, None),
]
for names, _ in WORLDS:
    names.update({'__name__': 'text', '__file__': 'text', '__doc__': 'text', '__builtins__': 'module'})


class Token(object):
    """something a module defines"""

    def __init__(self, name, kind):
        self.name, self.kind = name, kind

    def __repr__(self):
        return '%s (%s)' % (self.name, self.kind)


class Contents(dict):
    """a module"""


BASE = Token('Formula', 'base')
KINDS = {'class': ('class', '*', 'base')}


def model(t, env):
    f = cname(t)
    if t[0] in ('cls', 'ext'):
        return BASE if t[1] == FORMULA else t
    if t[0] == 'call' and is_load(t):
        return env['module']
    if t[0] in ('attr', 'item') and isinstance(fold(t[1], env), Contents) and not (
            t[0] == 'attr' and t[2] == '__dict__'):
        k = t[2] if t[0] == 'attr' else fold(t[2], env)
        return fold(t[1], env).get(k, UNKNOWN)
    if t[0] == 'attr' and t[2] == '__dict__':
        return fold(t[1], env)
    if t[0] == 'attr' and isinstance(fold(t[1], env), Token):
        x = fold(t[1], env)
        return {'__name__': x.name, '__module__': 'elsewhere'}.get(t[2], UNKNOWN) if x.kind in KINDS['class'] \
            else UNKNOWN
    if t[0] == 'isinst' and isinstance(fold(t[1], env), Token):
        return is_a(fold(t[1], env), t[2])
    if t[0] == 'call' and not t[3]:
        r = [fold(x, env) for x in t[2]]
        if UNKNOWN in r:
            return UNKNOWN
        if f == 'dir' and isinstance(r[0], Contents):
            return sorted(r[0])
        if f in ('vars',) and isinstance(r[0], Contents):
            return r[0]
        if f in ('.keys', '.iterkeys', 'list', 'sorted', 'iter') and len(r) == 1 and isinstance(r[0], dict):
            return sorted(r[0])
        if f in ('.values', '.itervalues') and isinstance(r[0], dict):
            return [r[0][k] for k in sorted(r[0])]
        if f in ('.items', '.iteritems') and isinstance(r[0], dict) or f == 'inspect.getmembers' and len(r) == 1:
            return [(k, r[0][k]) for k in sorted(r[0])]
        if f == 'getattr' and isinstance(r[0], Contents):
            return r[0].get(r[1], UNKNOWN)
        if f == 'issubclass' and isinstance(r[0], Token):
            if r[0].kind not in KINDS['class']:
                return False            # raises, see guarded()
            return r[0].kind in ('*', 'base') if r[1] is BASE else UNKNOWN
        if f in ('inspect.isclass',) and isinstance(r[0], Token):
            return r[0].kind in KINDS['class']
        if f in ('len',) and isinstance(r[0], (list, tuple, dict)):
            return len(r[0])
        if f in ('list', 'tuple') and isinstance(r[0], (list, tuple)):
            return list(r[0])
    return UNKNOWN


def is_a(x, T):
    T = show(T)
    if T in ('type', 'types.TypeType', 'types.ClassType', 'object'):
        return x.kind in KINDS['class']
    return UNKNOWN


def is_load(t):
    return cname(t) in ('imp.load_source', 'imp.load_module', 'runpy.run_path')


def possible(path, env):
    return consistent(path, lambda a: foldb(strip(a), env)) is not False


def c44(R):
    R.rule('own-module', 'a formula file is loaded as a module with a name no other has')
    R.rule('one', 'the class given is the only one in the module which is a formula, but for Formula itself and '
           'names that begin with an underscore; none or several are refused')
    R.rule('missing', 'a file that does not exist is refused')
    R.rule('all-files', 'a repository loads every formula file of its directories, once, and nothing else')
    R.rule('filed', 'what was loaded is kept in the repository, whatever it holds already')
    R.rule('iterated', 'iterating over a repository gives every formula it holds')
    A = analysis(raises=False)
    loc = loc_of(A, LOAD)
    outs = loading(A)
    R.saw(A, outs)
    n = 0
    for o in outs:
        loads = [e for e in o.events if e.kind == 'call' and is_load(strip(e.res))]
        if not loads:
            R.ob('missing', 'Formula.from_file', not o.ok and o.exc() in A.classes, loc, o.describe()[:120])
            continue
        n += 1
        R.ob('own-module', 'Formula.from_file', len(loads) == 1 and own_name(loads[0]) and loads_path(loads[0]),
             loads[0].loc, 'loads %s' % show(loads[0].res)[:160])
    R.ob('own-module', 'Formula.from_file', n > 0, loc, 'no file is loaded')
    for names, want in WORLDS:
        mod = Contents((k, BASE if v == 'base' else Token(k, v)) for k, v in names.items())
        env = {'model': model, 'module': mod}
        some = False
        for o in outs:
            if not any(e.kind == 'call' and is_load(strip(e.res)) for e in o.events):
                continue
            if not possible(o.st.path, env):
                continue
            some = True
            what = 'of %s' % ' '.join(sorted(k for k, v in names.items() if v in ('*', 'base')))
            if want is None:
                R.ob('one', what, not o.ok and o.exc() in A.classes, loc, 'gives %s' % o.describe()[:120])
                continue
            got = fold(strip(o.ret()), env) if o.ok else o.exc()
            R.ob('one', what, got is mod[want], loc, 'gives %s' % (
                show(strip(o.ret()))[:160] if got is UNKNOWN else got))
        R.ob('one', 'of %s' % sorted(names), some, loc, 'no answer')
    guarded(R)
    repository(R)
    filing(R)
    iteration(R)


def guarded(R):
    """modules define things that are no classes"""
    A = analysis(raises=True)
    A.raises_only = {'issubclass'}
    loc = loc_of(A, LOAD)
    for o in loading(A):
        if o.ok or o.exc() in A.classes:
            continue
        asked = any(class_known(r) for e in o.events if e.kind == 'loop' for r in e.kw)
        R.ob('one', 'of other things', asked or not o.exc_is('TypeError') and o.exc() != '?', loc,
             '%s if a module defines something that is no class' % o.exc())


def class_known(r):
    return any(isinstance(x, tuple) and x and (x[0] == 'isinst' or cname(x) == 'inspect.isclass')
               for p in rec_paths(r) for a, q in p for x in subterms(strip(a)))


def loading(A):
    st = A.fresh()
    cx = A.cx(st, [])
    out = []
    for s, k, f in A.getattr_(st, ('cls', FORMULA), 'from_file', cx, A.node()):
        reset(A, s)
        s.assume(truth(call('os.path.exists', (PATH,))), True)
        s2 = s
        for s3, k3, v in A.call(s2, f, [PATH], [], [], A.cx(s2, []), A.node()):
            out.append(Outcome(s3, k3, v, A))
    return out


def own_name(e):
    """the name of the module is new"""
    t = strip(e.args[0]) if e.args else NONE
    if e.name == 'runpy.run_path':
        return True
    return any(isinstance(x, tuple) and x and (cname(x) in FRESH) for x in subterms(t))


def loads_path(e):
    t = [strip(a) for a in e.args]
    return any(x == PATH or cname(x) in ('os.path.abspath', 'os.path.realpath', 'os.path.normpath') and
               x[2] == (PATH,) for x in t)


def repository_analysis():
    A = analysis(raises=False)
    A.opaque.add(LOAD)
    A.step_fors = True
    A.hooks['collections.defaultdict'] = lambda A, st, args, kw, cx, n: [(st, 'v', sym('held'))]
    return A


def repository(R):
    A = repository_analysis()
    loc = loc_of(A, REPO + '.__init__')
    outs = A.new(A.fresh(), REPO, [sym('base')])
    R.saw(A, outs)
    n = 0
    for o in outs:
        if not o.ok:
            R.ob('all-files', 'FormulaRepository', False, loc, o.describe()[:120])
            continue
        for e in o.events:
            if e.kind == 'loop' and listed(e.args[0]) == sym('base'):
                n += a_directory(R, e, loc)
    R.ob('all-files', 'FormulaRepository', n > 0, loc, 'no formula file is loaded')


def listed(v):
    v = strip(v)
    while cname(v) in ('sorted', 'list', 'set', 'tuple', 'iter', 'reversed', 'frozenset'):
        v = v[2][0]
    return v[2][0] if cname(v) == 'os.listdir' and v[2] else None


def a_directory(R, loop, loc):
    n = 0
    d = strip(call('os.path.join', (sym('base'), ('elem', loop.args[0]))))
    R.ob('all-files', 'directories', loop.name == 'done', loop.loc, 'the scan may end early')
    for r in loop.kw:
        if r[0] == 'exc':
            continue
        inner = [x for x in r[2] if x.kind == 'loop' and listed(x.args[0]) is not None]
        for p in rec_paths(r):
            dirs = [q for a, q in ((strip(a), q) for a, q in p) if a[0] == 'truth' and
                    cname(a[1]) == 'os.path.isdir' and strip(a[1][2][0]) == d]
            if not inner:
                R.ob('all-files', 'directories', r[0] in ('next', 'skip') and False in dirs, loop.loc,
                     'a directory is left out')
        R.ob('all-files', 'directories', r[0] in ('next', 'skip'), loop.loc, 'the scan ends early')
        for x in inner:
            R.ob('all-files', 'files', x.name == 'done' and listed(x.args[0]) == d, x.loc,
                 'scans %s' % show(x.args[0])[:100])
            f = ('elem', x.args[0])
            full = strip(call('os.path.join', (sym('base'), ('elem', loop.args[0]), f)))
            full2 = strip(call('os.path.join', (d, f)))
            for r2 in x.kw:
                if r2[0] == 'exc':
                    continue
                loads = [y for y in flatten(r2[2]) if is_call(y, LOAD)]
                R.ob('all-files', 'files', r2[0] in ('next', 'skip'), x.loc, 'the scan of a directory ends early')
                for p in rec_paths(r2):
                    yes = matches(p, f)
                    if loads:
                        n += 1
                        R.ob('all-files', 'files', yes is True and len(loads) == 1 and any(
                            strip(a) in (full, full2) for a in loads[0].args), loads[0].loc,
                            'loads %s' % [show(a)[:80] for a in loads[0].args])
                    else:
                        R.ob('all-files', 'files', yes is False, x.loc, 'a formula file is left out')
    return n


def matched(t, f):
    """the question whether the name is that of a formula file"""
    t = strip(t)
    return cname(t) in ('.match', '.search') and strip(t[2][-1]) == strip(f) and \
        any(is_str(x) and 'version' in x[2] for x in subterms(t[2][0]) if isinstance(x, tuple))


def matches(path, f):
    for a, p in path:
        a = strip(a)
        if a[0] == 'truth' and matched(a[1], f):
            return p
        if a[0] == 'isnone' and matched(a[1], f):
            return not p
    return None


KEEP = ('append', 'add', 'insert', 'extend', 'appendleft', 'setdefault', 'update')


def filing(R):
    """one arbitrary file, whatever was loaded before"""
    A = repository_analysis()
    loc = loc_of(A, REPO + '.__init__')
    outs = A.new(A.fresh(), REPO, [sym('base')])
    R.saw(A, outs)
    seen = set()
    for o in outs:
        for r in loaded_records(o.events):
            if r in seen or r[0] == 'exc':
                continue
            seen.add(r)
            evs = r[2]
            for l in evs:
                if not is_call(l, LOAD):
                    continue
                it = strip(l.res)
                kept = any(e.kind in ('mut', 'setitem', 'setattr') and any(
                    strip(t) == it for a in e.args for t in subterms(a) if isinstance(t, tuple)) and
                    (e.kind != 'mut' or e.name in KEEP) and not overwrites(e, it) for e in evs)
                for p in rec_paths(r):
                    # a list made here holds it, there are no events for those
                    new = any(not q and a[0] in ('cmp', 'in', 'truth', 'call', 'eq') and is_member(a, it) for a, q in
                              ((strip(a), q) for a, q in p))
                    R.ob('filed', 'FormulaRepository', kept or new, l.loc, 'a loaded formula is not kept')
    R.ob('filed', 'FormulaRepository', bool(seen), loc, 'no formula file is loaded')


def overwrites(e, it):
    """the entry of a name is replaced, and what it held is lost"""
    return e.kind == 'setitem' and len(e.args) > 2 and strip(e.args[1]) == ('attr', it, 'name') and not any(
        isinstance(t, tuple) and (t[:1] == ('item',) and strip(t[2]) == ('attr', it, 'name') or
                                  cname(t) in ('.get', '.setdefault', '.pop'))
        for t in subterms(e.args[2]))


def is_member(a, it):
    """the question whether there is an entry for the name of the formula"""
    if len(a) > 2 and a[0] == 'cmp' and a[1] in ('in', 'notin'):
        return ('attr', it, 'name') in [strip(x) for x in a[2:]]
    return a[0] == 'in' and ('attr', it, 'name') in [strip(x) for x in a[1:]]


def loaded_records(events):
    """the iterations which load a file"""
    for e in events:
        if e.kind != 'loop':
            continue
        for r in e.kw:
            if any(is_call(x, LOAD) for x in r[2]):
                yield r
            for x in loaded_records(r[2]):
                yield x


def unfold(t, env):
    """the elements of a list"""
    t = strip(t)
    if t[0] == 'nest':
        out = []
        coll = fold(t[1], env)
        if coll is UNKNOWN:
            return UNKNOWN
        for m in coll:
            e = dict(env)
            e['bv', t[1]] = m
            inner = fold(t[2], e)
            if inner is UNKNOWN:
                return UNKNOWN
            for x in inner:
                e2 = dict(e)
                e2['elem', t[2]] = x
                c = [(foldb(strip(a), e2), p) for a, p in t[4]]
                if any(v is None for v, p in c):
                    return UNKNOWN
                if all(v == p for v, p in c):
                    out.append(fold(t[3], e2))
        return UNKNOWN if UNKNOWN in out else out
    if t[0] == 'L':
        out = []
        for g in t[2]:
            x = [fold(g[1], env)] if g[0] == 'one' else unfold(g[1], env) if g[0] == 'all' else \
                many(g, env) if g[0] == 'many' else UNKNOWN
            if x is UNKNOWN or UNKNOWN in x:
                return UNKNOWN
            out += x
        return out
    r = fold(t, env)
    return r if r is UNKNOWN else list(r)


def many(g, env):
    out, coll = [], fold(strip(g[3]), env)
    if coll is UNKNOWN:
        return UNKNOWN
    for m in coll:
        e = dict(env)
        e['elem', g[3]] = e['elem', strip(g[3])] = m
        c = [(foldb(strip(a), e), p) for a, p in g[2]]
        if any(v is None for v, p in c):
            return UNKNOWN
        if all(v == p for v, p in c):
            out.append(fold(strip(g[1]), e))
    return out


def iteration(R):
    A = analysis(raises=False)
    loc = loc_of(A, REPO + '.__iter__')
    st = A.fresh()
    meta = {'foo': ['foo-1', 'foo-2'], 'bar': ['bar-1']}
    env = {sym('meta'): meta}
    outs = A.method(st, st.new(I(REPO, {'meta': sym('meta'), 'base': sym('base')})), '__iter__', [])
    R.saw(A, outs)
    got = [unfold(o.ret(), env) if o.ok else [o.exc()] for o in outs
           if consistent(o.st.path, lambda a: foldb(strip(a), env)) is not False]
    want = ['bar-1', 'foo-1', 'foo-2']
    # what an iteration that finds nothing gives is among the answers
    R.ob('iterated', 'FormulaRepository', UNKNOWN in got or
         [x for x in got if x] != [] and all(sorted(x) == want for x in got if x), loc, 'gives %s of %s' % (got, meta))
    if UNKNOWN in got:
        R.notes.append('what iterating over a formula repository gives could not be told')


CHECKS = {'C44': c44}
