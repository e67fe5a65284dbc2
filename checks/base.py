"""What all checks share: the report of one run, symbolic objects of the
package, and questions about outcomes."""
import posixpath
import re
from engine.lib import *
from engine.lib import Outcome
from engine.terms import *
from engine.terms import Ev
from engine.state import *
from engine.state import L, D, I, F


class Missing(AnalysisError):
    """The construct a check is anchored at is gone"""


class Report(object):

    def __init__(self, prop):
        self.prop = prop
        self.obligations = {}       # (rule, construct) -> [total, failed]
        self.failures = []
        self.rules = {}
        self.functions = set()
        self.paths = 0
        self.callsites = set()
        self.notes = []

    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, construct, ok, loc=None, msg=''):
        """one obligation: construct satisfies rule"""
        c = self.obligations.setdefault((rule, construct), [0, 0])
        c[0] += 1
        if not ok:
            c[1] += 1
            f = (rule, construct, '%s:%s' % tuple(loc) if loc else '?', msg)
            if f not in self.failures:
                self.failures.append(f)
        return ok

    def saw(self, A, outcomes):
        """count what an analysis looked at"""
        self.paths += len(outcomes)
        self.functions |= set(A.inlined)
        for o in outcomes:
            for e in flatten(o.events):
                if e.kind == 'call' and e.loc:
                    self.callsites.add(e.loc + (str(e.name),))


# ------------------------------------------------------------- entry states

def fresh(A):
    return A.fresh()


def clear(st):
    """forget the history of a state: what follows starts here"""
    st.trace = ()
    st.path = frozenset()
    return st


ENV_OPAQUE = {
    'ipkg.environments.EnvironmentVariables.__init__',
    'ipkg.environments.EnvironmentVariables.add',
    'ipkg.prefix_rewriters.rewrite_prefix',
    'ipkg.packages.PackageFile.extract',
    'ipkg.files.vopen',
    'ipkg.environments.Environment.uninstall',
    'ipkg.utils.DictFile.save',
    'ipkg.utils.mkdir',
}


def content_of(st, v):
    """the ref of the dictionary content of an instance of a dict subclass"""
    o = st.obj(v)
    return ('ref', o.content) if isinstance(o, I) and o.content is not None else None


def havoc_dict(st, v, name):
    """the dictionary v (or instance of a dict class) may hold anything"""
    c = content_of(st, v) or v
    if not isinstance(st.obj(c), D):
        raise AnalysisError('not a dictionary: %s' % show(v))
    o = st.obj(c)
    st.put(c, D((), (('all', sym(name)),), frozenset(), o.default))


def instance(A, st, qual, args=(), kw=(), keep=None):
    """(state, instance) pairs made by the class's constructor"""
    out = [o for o in A.quiet(lambda: A.new(st, qual, list(args), list(kw))) if o.ok]
    if not out:
        raise Missing('%s cannot be instantiated' % qual)
    return out


def reset(A, st):
    clear(st)
    st.facts = {}
    st.cnt = {}
    A.set_mark(st)
    return st


def environment(A, st, attr='meta', args=None):
    """An environment with any metadata: (state, env, meta)"""
    # the prefix is absolute (others are C43's)
    for f in ('abspath', 'realpath', 'normpath', 'expanduser'):
        A.hooks.setdefault('os.path.' + f, lambda A, st, args, kw, cx, n:
                           [(st, 'v', args[0])] if tuple(args) == (sym('prefix'),) and not kw else None)
    o = instance(A, st, 'ipkg.environments.Environment', args or [sym('prefix')])[0]
    s = o.st
    e = s.obj(o.val)
    m = e.attrs.get(attr)
    if m is None or m[0] != 'ref':
        raise Missing('Environment.%s' % attr)
    havoc_dict(s, m, 'meta')
    s.ver, s.store, s.mlog = {}, {}, {}
    reset(A, s)
    return s, o.val, m


# ------------------------------------------------------------- questions

def values_of(A, st, v, name):
    """what v.name evaluates to (all possible values)"""
    s = st.copy()
    cx = A.cx(s, [v])
    out = []
    for s2, k, w in A.quiet(lambda: A.getattr_(s, v, name, cx, A.node())):
        if k != 'x':
            out.append(s2.freeze(w))
    return out


def same(a, b):
    return strip(a) == strip(b)


def eqv(st, a, b):
    """a and b certainly denote the same value"""
    return strip(st.freeze(a)) == strip(st.freeze(b))


def root(v):
    """the object a chain of items and attributes starts from"""
    while isinstance(v, tuple) and v and v[0] in ('item', 'attr'):
        v = v[1]
    return v


def is_call(e, *names):
    return e.kind == 'call' and e.name in names


def method_named(e, name):
    """a call of a method of that name, whether on an object of unknown class
    or on one of the package's classes"""
    return e.kind == 'call' and isinstance(e.name, str) and (
        e.name == '.' + name or e.name.endswith('.' + name))


def index(events, pred):
    for i, e in enumerate(events):
        if pred(e):
            return i
    return None


def indexes(events, pred):
    return [i for i, e in enumerate(events) if pred(e)]


def deep(events, pred):
    """events, those inside loops included, which satisfy pred"""
    return [e for e in flatten(events) if pred(e)]


def contains(e, pred):
    """the event, or one of an iteration of the loop it is, satisfies pred"""
    return any(pred(x) for x in flatten([e]))


def writes_to(e, base):
    """a change of the container base or of something inside it"""
    return e.kind in ('setitem', 'delitem', 'mut', 'setattr', 'delattr') and e.args and \
        (e.args[0] == base or root(e.args[0]) == base)


def known(path, atom):
    """True/False/None: what the path condition says about an atom"""
    for a, p in path:
        if strip(a) == strip(atom):
            return p
    return None


def holds(path, pred):
    """some (atom, polarity) of the path satisfies pred"""
    return any(pred(a, p) for a, p in path)


def loc_of(A, qual):
    n = A.func_node(qual)
    return (n.file, n.line)


# ------------------------------------------------------------- conditions

def tri(path, f):
    """three-valued truth of a formula under a path condition.  Formulas are
    True/False, ('&', ...), ('|', ...), ('!', f), or an atom of the analysis."""
    if f is True or f is False:
        return f
    if f[0] == '&':
        r = [tri(path, x) for x in f[1:]]
        return False if False in r else None if None in r else True
    if f[0] == '|':
        r = [tri(path, x) for x in f[1:]]
        return True if True in r else None if None in r else False
    if f[0] == '!':
        r = tri(path, f[1])
        return None if r is None else not r
    if f[0] == '?':         # a predicate on (atom, polarity): True, False or None
        for a, p in path:
            r = f[1](strip(a), p)
            if r is not None:
                return r
        return None
    pol = True
    while f[0] == 'not':
        f, pol = f[1], not pol
    f = strip(f)
    for a, p in path:
        if a[0] == 'allof':
            continue
        if strip(a) == f:
            return p == pol
    return None


def neg_allof(path):
    """skip records: the alternatives (one condition false each)"""
    for a, p in path:
        if a[0] == 'allof' and not p:
            return [frozenset([(x, not q)]) for x, q in a[1]]
    return None


def rec_paths(rec):
    """the path conditions under which an iteration behaves like the record"""
    alts = neg_allof(rec[1])
    return alts if alts is not None else [rec[1]]


def truth(v):
    return ('truth', v)


def eq(a, b):
    return mk_eq(a, b)


# ------------------------------------------------------------- finite cases

def consistent(path, valuation):
    """True: every atom of the path has the value the path gives it; False:
    some atom has the other one; None: no atom contradicts, some is unknown.
    valuation(atom) gives True, False or None."""
    unknown = False
    for a, p in path:
        if a[0] == 'allof':
            vals = [(valuation(strip(x)), q) for x, q in a[1]]
            if any(v is not None and v != q for v, q in vals):
                r = False
            elif any(v is None for v, q in vals):
                r = None
            else:
                r = True
        else:
            r = valuation(strip(a))
        if r is None:
            unknown = True
        elif r != p:
            return False
    return None if unknown else True


def order_atom(x, a, b, rel):
    """truth of a comparison of a and b when a is less than (-1), equal to (0)
    or greater than (1) b; None for anything else"""
    if x[0] == 'not':
        r = order_atom(x[1], a, b, rel)
        return None if r is None else not r
    if x[0] == 'truth' and cname(x[1]) in ('cmp',) and set(x[1][2]) == {a, b}:
        return rel != 0
    if x[0] != 'cmp' or len(x) != 4:
        return None
    l, r = x[2], x[3]
    if cname(l) == 'cmp' and set(l[2]) == {a, b} and r[0] == 'c':
        l, r, rel = None, None, (rel if l[2][0] == a else -rel) - r[2]
        rel = (rel > 0) - (rel < 0)
    elif (l, r) == (b, a):
        rel = -rel
    elif (l, r) != (a, b):
        return None
    return {'<': rel < 0, '<=': rel <= 0, '>': rel > 0, '>=': rel >= 0, '==': rel == 0,
            '!=': rel != 0, 'is': None}.get(x[1])


def feasible(o, valuation, members=()):
    """False if the valuation contradicts the path of an outcome, or a loop
    which it completes could not be completed: members(coll) gives one
    valuation for each element of a collection, or None"""
    if consistent(o.st.path, valuation) is False:
        return False
    for e in o.events:
        if e.kind != 'loop' or e.name != 'done' or not members:
            continue
        for m in members(strip(e.args[0])) or ():
            if not any(r[0] in ('next', 'skip') and any(consistent(p, m) is not False for p in rec_paths(r))
                       for r in e.kw):
                return False
    return True


UNKNOWN = object()
PATHS = {'os.path.' + n: getattr(posixpath, n) for n in (
    'isabs', 'normpath', 'split', 'dirname', 'basename', 'join', 'splitext', 'commonprefix')}


def fold(t, env):
    """constant folding of a term when some subterms have known values"""
    t = t if isinstance(t, tuple) else t
    if t in env:
        return env[t]
    if 'model' in env:
        r = env['model'](t, env)
        if r is not UNKNOWN:
            return r
    if t[0] == 'c':
        return t[2]
    if t[0] == 'tup':
        r = [fold(x, env) for x in t[1:]]
        return UNKNOWN if UNKNOWN in r else tuple(r)
    if t[0] in ('not', 'truth', 'isnone'):
        r = fold(t[1], env)
        if r is UNKNOWN:
            return UNKNOWN
        return r is None if t[0] == 'isnone' else not r if t[0] == 'not' else bool(r)
    if t[0] == 'cmp':
        a, b = fold(t[2], env), fold(t[3], env)
        if a is UNKNOWN or b is UNKNOWN:
            return UNKNOWN
        try:
            return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b,
                    '>': lambda: a > b, '>=': lambda: a >= b, 'in': lambda: a in b,
                    'not in': lambda: a not in b, 'is': lambda: a == b}[t[1]]()
        except (TypeError, KeyError):
            return UNKNOWN
    if t[0] == 'item':
        a, b = fold(t[1], env), fold(t[2], env)
        try:
            return UNKNOWN if a is UNKNOWN or b is UNKNOWN else a[b]
        except (TypeError, IndexError, KeyError):
            return UNKNOWN
    if t[0] == 'fmt':
        r = [x if isinstance(x, str) else fold(x[1], env) if x[0] == 's' else UNKNOWN for x in t[1]]
        return ''.join(map(str, r)) if all(isinstance(x, (str, int)) for x in r) else UNKNOWN
    if t[0] == 'L':
        r = []
        for x in t[2]:
            if x[0] == 'one':
                r.append(fold(x[1], env))
                continue
            coll = fold(x[-1], env)
            if not isinstance(coll, (list, tuple, set)):
                return UNKNOWN
            for m in coll:
                if x[0] == 'all':
                    r.append(m)
                    continue
                e = dict(env)
                e['elem', strip(x[3])] = e['elem', x[3]] = m
                e['self',] = list(r)
                c = [foldb(strip(a), e) for a, p in x[2]]
                if None in c:
                    return UNKNOWN
                if all(v == p for v, (a, p) in zip(c, x[2])):
                    r.append(fold(strip(x[1]), e))
        if UNKNOWN in r:
            return UNKNOWN
        return sorted(set(r)) if t[1] in ('set', 'frozenset') else r
    if t[0] == 'call':
        r = [fold(x, env) for x in t[2]]
        if t[1] == 'sorted' and UNKNOWN not in r and len(t[3]) == 1 and t[3][0][0] == 'reverse':
            rev = fold(t[3][0][1], env)
            return UNKNOWN if rev is UNKNOWN else sorted(r[0], reverse=bool(rev))
        if UNKNOWN in r or t[3]:
            return UNKNOWN
        try:
            if t[1] in ('.startswith', '.endswith', '.lower', '.upper', '.strip', '.lstrip', '.rstrip', '.split',
                        '.find', '.count', '.isdigit') and isinstance(r[0], str):
                return getattr(r[0], t[1][1:])(*r[1:])
            if t[1] == 'slice':
                return r[0][slice(*r[1:4])]
            if t[1] in PATHS and all(isinstance(x, str) for x in r):
                return PATHS[t[1]](*r)
            if t[1] in ('.join', '.replace', '.partition', '.rpartition', '.rsplit', '.splitlines') and \
                    isinstance(r[0], str):
                return getattr(r[0], t[1][1:])(*r[1:])
            if t[1] in ('any', 'all', 'int', 'bool', 'abs', 'min', 'max', 'sum'):
                return {'any': any, 'all': all, 'int': int, 'bool': bool, 'abs': abs, 'min': min,
                        'max': max, 'sum': sum}[t[1]](*r)
            if t[1] in ('str', 'unicode') and len(r) == 1 and isinstance(r[0], (str, int)):
                return str(r[0])
            if t[1] == 'len':
                return len(r[0])
            if t[1] == 'sorted' and len(r) == 1:
                return sorted(r[0])
            if t[1] in ('list', 'tuple', 'iter', 'reversed') and len(r) == 1 and isinstance(r[0], (list, tuple)):
                return list(r[0])[::-1 if t[1] == 'reversed' else 1]
            if t[1] == '+':
                return r[0] + r[1]
            if t[1] == 're.sub' and len(r) == 3 and all(isinstance(x, str) for x in r):
                return re.sub(*r)
        except (re.error, TypeError, ValueError, AttributeError):
            return UNKNOWN
    return UNKNOWN


def foldb(t, env):
    r = fold(t, env)
    return None if r is UNKNOWN else bool(r)
