"""C19 - C22: requirements"""
import itertools
from .base import *

REQ = 'ipkg.requirements.Requirement'
PARSE = 'ipkg.requirements.parse'
PARSE_VERSION = 'ipkg.requirements.parse_version'
SIMPLIFY = 'ipkg.requirements.remove_useless_version_selectors'
EXCLUSIVE = 'ipkg.requirements.ExclusiveVersionRequirements'
INVALID = 'ipkg.requirements.InvalidRequirement'
INVALID_PLATFORM = 'ipkg.platforms.InvalidPlatform'
PLATFORM = 'ipkg.platforms.Platform'
OPS = {'==': 'eq', '!=': 'ne', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}
HOLDS = {'eq': lambda x, v: x == v, 'ne': lambda x, v: x != v, 'lt': lambda x, v: x < v,
         'le': lambda x, v: x <= v, 'gt': lambda x, v: x > v, 'ge': lambda x, v: x >= v}
BOUNDS = ('gt', 'ge', 'lt', 'le')


def op(name):
    return ext('operator.' + name)


def need(A, *quals):
    for q in quals:
        A.func_node(q)


def give(v):
    return lambda A, st, args, kw, cx, n: [(st, 'v', v)]


# ------------------------------------------------- simplifying constraints

def group(name, forward):
    """one known constraint and (forward is not None) others with the same
    operator, after or before it"""
    one = ('one', ('tup', op(name), sym(name + '0')))
    if forward is None:
        return [one]
    many = ('many', ('tup', op(name), ('elem', sym(name + '*'))), frozenset(), sym(name + '*'))
    return [one, many] if forward else [many, one]


def shape(bounds, equals, unequal, forward):
    segs = []
    names = [b for b in BOUNDS if b in bounds] + ['ne'] * unequal
    for n in names if forward else reversed(names):
        segs += group(n, forward)
    eqs = [('one', ('tup', op('eq'), sym('eq%d' % i))) for i in range(equals)]
    return ('L', 'list', tuple(eqs + segs if forward else segs + eqs))


# where the known constraint can be, relative to the constraints of other
# operators, and the others with the same operator: none, or looser ones
SPOTS = (1, 2, 3, 4)
OTHERS = {'gt': (), 'ge': (), 'lt': (), 'le': ()}


def others(name, at, many):
    if not many:
        return []
    return [at - 0.5, at - 10] if name in ('gt', 'ge') else [at + 0.5, at + 10]


POINTS = [x * 0.25 for x in range(-4, 26)] + [-100.0, 100.0]


def valuations(bounds, equals, unequal, many):
    spots = SPOTS if not equals else SPOTS[:3]
    for where in itertools.product(spots, repeat=len(bounds)):
        for eqs in {0: [()], 1: [(1,), (2,), (3,)], 2: [(2, 3), (2, 2)]}[equals]:
            for ne in ([()] if not unequal else [(2,)] if not many else [(2.25, 3), (3, 2.25, 2)]):
                env = {op(n): n for n in HOLDS}
                cs = []
                for b, at in zip(bounds, where):
                    env[sym(b + '0')] = at
                    env[sym(b + '*')] = others(b, at, many)
                    cs += [(b, v) for v in [at] + env[sym(b + '*')]]
                for i, v in enumerate(eqs):
                    env[sym('eq%d' % i)] = v
                    cs.append(('eq', v))
                if unequal:
                    env[sym('ne0')] = ne[0]
                    env[sym('ne*')] = list(ne[1:])
                    cs += [('ne', v) for v in ne]
                yield env, cs


def accepts(cs, x):
    return all(HOLDS[o](x, v) for o, v in cs)


class Versions(object):
    """which outcomes of one run a placement of the versions allows.  A
    condition is evaluated once for every placement of the constraints that
    occur in it."""

    def __init__(self, outs):
        self.env, self.memo = {}, {}
        self.atoms = {}
        cases = {}
        for o in outs:
            v = strip(o.ret()) if o.ok else ('x', o.exc())
            pos = neg = 0
            for a, p in o.st.path:
                i = self.atoms.setdefault(a, len(self.atoms))
                if p:
                    pos |= 1 << i
                else:
                    neg |= 1 << i
            loops = tuple((e.name, strip(e.args[0]), frozenset((r[0], frozenset(rec_paths(r))) for r in e.kw))
                          for e in o.events if e.kind == 'loop')
            cases.setdefault((v, pos, neg, loops), o)
        self.cases = [(o, v, pos, neg, loops) for (v, pos, neg, loops), o in cases.items()]
        self.uses = {x: self.symbols(x) for x in list(self.atoms) + [l for c in cases for l in c[3]]}

    @staticmethod
    def symbols(x):
        out, todo = set(), [x]
        while todo:
            y = todo.pop()
            if isinstance(y, tuple) and len(y) == 2 and y[0] == 'sym':
                out.add(y)
            elif isinstance(y, (tuple, frozenset)):
                todo += y
        return sorted(out)

    def once(self, x, f):
        k = x, tuple(self.key.get(s) for s in self.uses[x])
        if k not in self.memo:
            self.memo[k] = f(x)
        return self.memo[k]

    def at(self, env):
        self.env = env
        self.key = {s: tuple(v) if isinstance(v, list) else v for s, v in env.items()}
        true = false = 0
        for a, i in self.atoms.items():
            r = self.once(a, lambda a: consistent(((a, True),), lambda x: self.value(strip(x), self.env)))
            if r is True:
                true |= 1 << i
            elif r is False:
                false |= 1 << i
        for o, v, pos, neg, loops in self.cases:
            if not pos & false and not neg & true and all(self.once(l, self.loop) for l in loops):
                yield o, v

    def loop(self, x):
        kind, coll, recs = x
        ms = self.members(coll)
        if ms is None:
            return True
        goes = lambda m, kinds: any(r[0] in kinds and any(consistent(q, m) is not False for q in r[1]) for r in recs)
        if kind == 'done':
            return all(goes(m, ('next', 'skip')) for m in ms)
        return any(goes(m, ('brk', 'ret', 'exc')) for m in ms)

    def value(self, a, env):
        if a[0] == 'truth' and isinstance(fold(a[1], env), (int, float)):
            return True             # a version is true
        if a[0] == 'isnone' and fold(a[1], env) not in (UNKNOWN, None):
            return False
        r = foldb(a, env)
        if r is None:
            # a condition on an element the loop ended at: some element has it
            for t in subterms(a):
                if isinstance(t, tuple) and t[:1] == ('elem',) and t not in env and \
                        isinstance(fold(t[1], env), list):
                    rs = {self.value(a, dict(list(env.items()) + [(t, m)])) for m in fold(t[1], env)}
                    return False if not rs else rs.pop() if len(rs) == 1 else None
        return r

    def members(self, coll):
        v = fold(coll, self.env)
        if not isinstance(v, list):
            return None
        return [lambda a, e=dict(list(self.env.items()) + [(('elem', coll), m)]): self.value(strip(a), e) for m in v]


def ended_at(o, W):
    """the outcomes that leave a loop at an element need such an element"""
    for e in o.events:
        if e.kind == 'loop' and e.name == 'part':
            ms = W.members(strip(e.args[0]))
            if ms is not None and not any(
                    r[0] in ('brk', 'ret', 'exc') and any(consistent(p, m) is not False for p in rec_paths(r))
                    for m in ms for r in e.kw):
                return False
    return True


def simplified(R, A):
    loc = loc_of(A, SIMPLIFY)
    A.nonempty = frozenset(sym(n + '*') for n in HOLDS)
    for n in range(5):
        for bounds in itertools.combinations(BOUNDS, n):
            for equals in (0, 1, 2):
                for unequal in (0, 1):
                    for forward in (None, True, False) if bounds or unequal else (None,):
                        outs = A.run(A.fresh(), SIMPLIFY, [shape(bounds, equals, unequal, forward)])
                        R.saw(A, outs)
                        place(R, outs, bounds, equals, unequal, forward is not None, loc)


def place(R, outs, bounds, equals, unequal, many, loc):
    what = 'constraints ' + (', '.join(list(bounds) + ['eq'] * equals + ['ne'] * unequal) or 'none')
    W = Versions(outs)
    folded = {}
    for env, cs in valuations(bounds, equals, unequal, many):
        some = False
        okay = [accepts(cs, x) for x in POINTS]
        for o, v in W.at(env):
            some = True
            if o.ok:
                r = fold(v, env)
                good = isinstance(r, (list, tuple)) and all(
                    isinstance(x, (list, tuple)) and len(x) == 2 and x[0] in HOLDS and isinstance(x[1], (int, float))
                    for x in r)
                now = [accepts(r, x) for x in POINTS] if good else None
                R.ob('kept', what, good and not any(n and not k for n, k in zip(now, okay)), loc,
                     'a version is accepted which %s does not allow: %s' % (told(cs), told(r) if good else show(v)))
                R.ob('not-more', what, good and not any(k and not n for n, k in zip(now, okay)), loc,
                     'a version is not accepted which %s allows: %s' % (told(cs), told(r) if good else show(v)))
                R.ob('refused', what, any(okay), loc, 'no version satisfies %s but it is not refused' % told(cs))
            else:
                R.ob('refused', what, o.exc_is(EXCLUSIVE), loc, '%s for %s' % (o.exc(), told(cs)))
                if not equals:
                    R.ob('not-refused', what, not any(okay), loc,
                         '%s is refused though some version satisfies it' % told(cs))
        R.ob('answered', what, some, loc, 'no outcome for %s' % told(cs))


def told(cs):
    names = {v: k for k, v in OPS.items()}
    return ', '.join('%s %s' % (names[o], v) for o, v in cs) or 'no constraint'


class Parts(object):
    """cutting a text gives one part at least"""

    def __contains__(self, coll):
        return whole_split(coll)


# ----------------------------------------------------- parsing constraints

def parsed(R):
    A = analysis()
    need(A, PARSE, PARSE_VERSION, SIMPLIFY)
    A.opaque |= {SIMPLIFY, PARSE_VERSION}
    A.nonempty = Parts()
    outs = A.run(A.fresh(), PARSE, [sym('text')])
    R.saw(A, outs)
    loc = loc_of(A, PARSE)
    n = 0
    for o in outs:
        if not o.ok:
            continue
        n += 1
        v = strip(o.ret())
        if v[0] != 'tup' or len(v) != 4 or cname(v[3]) != SIMPLIFY:
            R.ob('parsed', 'parse', False, loc, 'the constraints are not simplified together: %s' % show(v)[:200])
            continue
        given = strip(v[3][2][0])
        segs = given[2] if given[0] == 'L' else None
        if segs is None:
            R.ob('parsed', 'parse', False, loc, 'constraints of unknown origin: %s' % show(given)[:200])
            continue
        every = any(g[0] == 'many' and not g[2] and cname(g[1]) == PARSE_VERSION and of_elem(g[1], g[3]) and
                    whole_split(g[3]) for g in segs)
        none = not segs and no_text(o)
        R.ob('parsed', 'parse', every or none, loc, 'some constraint of the text is not used: %s' % o.describe()[:200])
        R.ob('parsed', 'parse', group_of(v[1]) == 'name', loc,
             'the name is %s' % show(v[1])[:100])
    if not n:
        raise Missing(PARSE)
    A = analysis()
    A.opaque |= {SIMPLIFY}
    outs = A.run(A.fresh(), PARSE_VERSION, [sym('text')])
    R.saw(A, outs)
    loc = loc_of(A, PARSE_VERSION)
    found = set()
    for o in outs:
        if not o.ok:
            R.ob('operators', 'parse_version', o.exc_is(INVALID), loc, '%s %s' % (o.exc(), o.describe()[:120]))
            continue
        v = strip(o.ret())
        text = None
        for a, p in o.st.path:
            a = strip(a)
            if p and a[0] == 'cmp' and a[1] == '==':
                for x, y in ((a[2], a[3]), (a[3], a[2])):
                    if group_of(x) == 'operator' and y[0] == 'c':
                        text = y[2]
        good = v[0] == 'tup' and len(v) == 3
        R.ob('operators', 'parse_version', good and text in OPS and v[1] == op(OPS[text]), loc,
             'operator %r gives %s' % (text, show(v)[:120]))
        R.ob('operators', 'parse_version', good and cname(v[2]) == 'pkg_resources.parse_version' and
             group_of(v[2][2][0]) == 'version', loc, 'the version is %s' % show(v)[:160])
        found.add(text)
    R.ob('operators', 'parse_version', set(OPS) <= found, loc, 'operators without meaning: %s' %
         ', '.join(sorted(set(OPS) - found)))


def group_of(t):
    """the name of the group of a regular expression match"""
    t = strip(t)
    while cname(t) in ('.strip', '.lower', 'str') and t[2]:
        t = t[2][0]
    if t[0] == 'item' and cname(t[1]) == '.groupdict' and t[2][0] == 'c':
        return t[2][2]
    if cname(t) == '.get' and cname(t[2][0]) == '.groupdict' and t[2][1][0] == 'c':
        return t[2][1][2]
    if cname(t) == '.group' and len(t[2]) == 2 and t[2][1][0] == 'c':
        return t[2][1][2]
    return None


def of_elem(t, coll):
    return any(x == ('elem', strip(coll)) for x in subterms(strip(t)))


def whole_split(coll):
    """all parts of the text of the constraints, cut at commas"""
    coll = strip(coll)
    if cname(coll) == 're.split':
        pat, text = coll[2][0], coll[2][1]
        return len(coll[2]) == 2 and not coll[3] and pat[0] == 'c' and pat[2].replace(r'\s*', '') == ',' and \
            group_of(text) == 'versions'
    if cname(coll) == '.split':
        if len(coll[2]) == 2 and coll[2][1] == const(','):
            return group_of(coll[2][0]) == 'versions'
        pat = coll[2][0]
        if cname(pat) == 're.compile' and len(coll[2]) == 2 and not coll[3]:
            return pat[2][0][0] == 'c' and pat[2][0][2].replace(r'\s*', '') == ',' and \
                group_of(coll[2][1]) == 'versions'
    return False


def no_text(o):
    """the path says there is no text of constraints"""
    for a, p in o.st.path:
        a = strip(a)
        neg = not p
        while a[0] in ('not', 'truth'):
            neg ^= a[0] == 'not'
            a = a[1]
        if a[0] == 'isnone' and group_of(a[1]) == 'versions' and not neg:
            return True
        if neg and (group_of(a) == 'versions' or (a[0] == 'item' and whole_split(a[1]) and a[2] == const(0)) or
                    (a[0] == 'elem' and whole_split(a[1]))):
            return True
        if not neg and a[0] == 'cmp' and a[1] == '==' and const('') in a[2:] and \
                any(x[0] == 'item' and whole_split(x[1]) for x in a[2:]):
            return True
        if not neg and a[0] == 'cmp' and a[1] == '==' and any(whole_split(x) for x in a[2:]) and any(
                x[0] == 'L' and tuple(x[2]) == (('one', const('')),) for x in a[2:]):
            return True
    return False


# ------------------------------------------------------- abstract objects

def requirements(A, names, platforms=None):
    """requirements parsed from unknown texts, with unknown parts.  The parts
    of the requirement parsed from text T are T.name, T.extras, ..."""
    need(A, PARSE, PLATFORM + '.parse', PLATFORM + '.current')

    def parse(A, st, args, kw, cx, n):
        for s in subterms(strip(st.freeze(args[0]))):
            if len(s) == 2 and s[0] == 'sym' and s[1] in names:
                return [(st, 'v', ('tup', sym(s[1] + '.name'), sym(s[1] + '.extras'), sym(s[1] + '.versions')))]
        return [(st, 'v', ('tup', args[0], st.new(L('list')), st.new(L('list'))))]

    def platform(A, st, args, kw, cx, n):
        for s in subterms(strip(('tup',) + tuple(st.freeze(a) for a in args))):
            if len(s) == 2 and s[0] == 'sym' and s[1] in names:
                return [(st, 'v', (platforms or {}).get(s[1]) or sym(s[1] + '.platform'))]
        return [(st, 'v', sym('here'))]
    A.hooks[PARSE] = parse
    A.hooks[PLATFORM + '.parse'] = platform
    A.hooks[PLATFORM + '.current'] = platform


def requirement(A, st, text):
    """the state and value of the requirement read from a text with a platform"""
    for o in A.new(st, REQ, [text]):
        if o.ok and known(o.st.path, ('cmp', 'in', const(':'), text)) is not False:
            return o.st, o.val
    raise Missing(REQ + '.__init__')


def asked(R):
    """satisfied_by_version asks every constraint"""
    A = analysis(raises=False)
    requirements(A, ('R',))
    st, r = requirement(A, A.fresh(), sym('R'))
    VS = sym('R.versions')
    for given in ('text', 'parsed'):
        s = reset(A, st.copy())
        outs = A.method(s, r, 'satisfied_by_version', [sym('v')])
        R.saw(A, outs)
        want = strip(call('pkg_resources.parse_version', (sym('v'),))) if given == 'text' else sym('v')
        for bad in (None, 'first', 'second'):
            W = Asked(want, given == 'text', VS, bad)
            some = False
            for o in outs:
                if not feasible(o, W, W.members) or not ended_at(o, W):
                    continue
                some = True
                got = W.result(o)
                R.ob('asked', 'satisfied_by_version', got is (bad is None), loc_of(A, REQ + '.satisfied_by_version'),
                     'answers %s for a %s version when %s' % (
                         show(o.ret())[:80] if o.ok else o.exc(), given,
                         'every constraint accepts it' if bad is None else 'one constraint does not accept it'))
            R.ob('asked', 'satisfied_by_version', some, loc_of(A, REQ + '.satisfied_by_version'), 'no answer')


class Asked(object):
    """constraints VS applied to a version: every one accepts, but one (bad)"""

    def __init__(self, version, text, VS, bad):
        self.version, self.text, self.VS, self.bad = version, text, VS, bad

    def applied(self, t):
        """op(version, bound) of an element of VS"""
        t = strip(t)
        if cname(t) != '()' or len(t[2]) != 3:
            return False
        f, v, b = t[2]
        return v == self.version and f == ('item', b[1], const(0)) and b[0] == 'item' and b[2] == const(1) and \
            b[1] == ('elem', self.VS)

    def atom(self, a, bad):
        a = strip(a)
        if a[0] == 'not':
            r = self.atom(a[1], bad)
            return None if r is None else not r
        if a[0] == 'truth':
            a = a[1]
        if a[0] == 'isinst' and a[1] == sym('v'):
            return self.text
        if self.applied(a):
            return not bad
        if a == self.VS:
            return True
        return None

    def __call__(self, a):
        # outside of the loop: of the element it ended at
        return self.atom(a, False) if self.bad is None or not self.applied(strip(a)[1]) else None

    def members(self, coll):
        if coll != self.VS:
            return None
        return [lambda a: self.atom(a, self.bad == 'first'), lambda a: self.atom(a, self.bad == 'second')]

    def result(self, o):
        if not o.ok:
            return None
        v = strip(o.ret())
        if v in (TRUE, FALSE):
            return v == TRUE
        if cname(v) == 'all' and len(v[2]) == 1 and v[2][0][0] == 'L':
            segs = v[2][0][2]
            if len(segs) == 1 and segs[0][0] == 'many' and not segs[0][2] and strip(segs[0][3]) == self.VS and \
                    self.applied(segs[0][1]):
                return self.bad is None
        return self(v)


def c19(R):
    R.rule('kept', 'whatever the constraints, the simplified ones accept no version one of them refuses')
    R.rule('not-more', 'whatever the constraints, the simplified ones accept every version all of them accept')
    R.rule('refused', 'constraints which no version satisfies are refused, with the error for that')
    R.rule('not-refused', 'bounds which some version satisfies are not refused')
    R.rule('answered', 'simplifying ends in every case')
    R.rule('parsed', 'every comma separated part of the text of the constraints becomes one, and all are simplified '
           'together')
    R.rule('operators', 'each of the six operators gets its meaning and the version text is parsed')
    R.rule('asked', 'a version satisfies a requirement if every constraint holds for it, else not')
    A = analysis()
    need(A, SIMPLIFY)
    simplified(R, A)
    parsed(R)
    asked(R)
    R.extra = {'cases': 'any number of constraints per operator, abstracted to one and none or some looser ones; '
                        'all orders of the bounds'}


# ------------------------------------------------------------------- C20

class Meets(object):
    """valuation for the question whether an object meets a requirement"""

    def __init__(self, obj, plat, name, version, isdict, has):
        self.obj, self.plat, self.name, self.version, self.isdict, self.has = obj, plat, name, version, isdict, has

    def field(self, t):
        """which field of the object a term is"""
        t = strip(t)
        if t[0] == 'attr' and t[1] == self.obj:
            return t[2]
        if t[0] == 'item' and t[1] == self.obj and t[2][0] == 'c':
            return t[2][2]
        if cname(t) in ('getattr', '.get') and t[2][0] == self.obj and t[2][1][0] == 'c':
            return t[2][1][2]
        return None

    def __call__(self, a):
        a = strip(a)
        if a[0] == 'not':
            r = self(a[1])
            return None if r is None else not r
        if a[0] == 'isinst' and a[1] == self.obj:
            n = show(a[2])
            return self.isdict if n.endswith('dict') else False
        if a[0] == 'isinst' and self.field(a[1]) == 'version':
            return True
        if a[0] == 'hasattr' and a[1] == self.obj:
            return self.has.get(name_in(a[2]))
        if a[0] in ('cmp', 'keyin') and a[1] == 'in' and strip(a[3]) == self.obj:
            return self.has.get(name_in(a[2]))
        if a[0] == 'isnone':
            f = self.field(a[1])
            if f == 'platform':
                return self.plat is None
            return False if f or a[1] in (sym('R.name'), sym('R.platform'), sym('R.versions')) else None
        if a[0] == 'truth':
            f = self.field(a[1])
            if f == 'platform':
                return self.plat is not None
            if f:
                return True
            if cname(a[1]) == SATISFIED:
                return self.version
            return None
        if cname(a) == SATISFIED:
            return self.version
        if a[0] == 'cmp' and a[1] in ('==', '!=', 'is'):
            r = None
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                f = self.field(x)
                if y == sym('R.platform'):
                    if f == 'platform':
                        r = self.plat
                    elif x == const('any'):
                        r = True        # that platform matches every other
                    elif x == NONE:
                        r = False
                if f == 'platform' and y == NONE:
                    r = self.plat is None
                if y == sym('R.name') and (f == 'name' or x == NONE):
                    r = self.name and f == 'name'
            return r if a[1] != '!=' or r is None else not r
        return None

    def result(self, o):
        if not o.ok:
            return None
        v = strip(o.ret())
        if v == NONE:
            return False
        if v in (TRUE, FALSE):
            return v == TRUE
        r = self(v)
        return r if r is not None else self(('truth', v))


SATISFIED = REQ + '.satisfied_by_version'


def name_in(x):
    return x if isinstance(x, str) else x[2] if x[0] == 'c' else None


def c20(R):
    R.rule('exactly', 'an object meets a requirement exactly if it has the name, a platform which matches or none, and '
           'a version satisfying the constraints')
    R.rule('its-version', 'the version which is asked about is that of the object')
    R.rule('kinds', 'metadata dictionaries are asked for their keys, other objects for their attributes')
    R.rule('asked', 'a version satisfies a requirement if every constraint holds for it, else not')
    asked(R)
    A = analysis(raises=False)
    need(A, SATISFIED)
    requirements(A, ('R',))
    st, r = requirement(A, A.fresh(), sym('R'))
    A.opaque.add(SATISFIED)
    obj = sym('obj')
    loc = loc_of(A, REQ + '.satisfied_by')
    outs = A.method(reset(A, st), r, 'satisfied_by', [obj])
    R.saw(A, outs)
    for kind in ('dictionary', 'object'):
        for declared in (('name', 'version', 'platform'), ('name', 'version'), ('platform',), ('version',), ('name',), ()):
            has = {k: k in declared for k in ('name', 'version', 'platform')}
            if kind == 'dictionary' and not has['version']:
                continue
            for name, version, plat in itertools.product((True, False), (True, False),
                                                         (True, False, None) if has['platform'] else (None,)):
                if kind == 'dictionary' and has['platform'] and plat is None:
                    continue
                W = Meets(obj, plat, name, version, kind == 'dictionary', has)
                want = (plat is not False and has['name'] and name and has['version'] and version)
                some = False
                for o in outs:
                    if consistent(o.st.path, W) is False:
                        continue
                    some = True
                    got = W.result(o)
                    R.ob('exactly', kind, got is want, loc, '%s%s %s: the answer is %s (%s)' % (
                        kind, ' with ' + ', '.join(
                            (k if ok else 'wrong ' + k if ok is False else k + ' None')
                            for k, ok in (('name', name), ('version', version), ('platform', plat)) if k in declared),
                        '', got if got is not None else 'unknown', show(o.ret())[:80] if o.ok else o.exc()))
                R.ob('exactly', kind, some, loc, 'no answer')
    n = 0
    for o in outs:
        for e in flatten(o.events):
            if e.kind == 'call' and e.name == SATISFIED:
                n += 1
                v = strip(e.args[-1])
                isd = known(o.st.path, ('isinst', obj, ('ext', 'dict')))
                f = Meets(obj, None, None, None, None, {}).field(v)
                if v == NONE and any(not p and strip(a)[0] in ('cmp', 'keyin', 'hasattr') and 'version' in show(a)
                                     for a, p in o.st.path):
                    continue                # it has none
                R.ob('its-version', 'satisfied_by', f == 'version', e.loc, 'asked about %s' % show(v)[:100])
                kind = 'attr' if v[0] == 'attr' or cname(v) == 'getattr' else 'item'
                R.ob('kinds', 'satisfied_by', isd is None or (kind == 'item') == isd, e.loc, show(v)[:100])
    R.ob('its-version', 'satisfied_by', n > 0, loc, 'the version is never asked about')


# ------------------------------------------------------------------- C21

def parts_of(A, st, r, loc):
    return {k: [strip(st.freeze(v)) for v in values_of(A, st, r, k)] for k in ('name', 'platform', 'extras', 'versions')}


def all_of(segs, coll, but=None):
    """a list holds every element of coll (except those but holds already)"""
    segs = [h for g in segs for h in (segments(g[1]) if g[0] == 'all' else (g,))]
    for g in segs:
        if g[0] == 'all' and strip(g[1]) == coll:
            return True
        if g[0] == 'many' and strip(g[3]) == coll and strip(g[1]) == ('elem', coll):
            if all(not p and strip(a)[0] == 'cmp' and strip(a)[1] == 'in' and strip(a)[2] == ('elem', coll) and
                   but is not None and held(strip(a)[3], but) for a, p in g[2]):
                return True
    return False


def held(x, but):
    x = strip(x)
    if x == but or x == ('self',):
        return True
    if cname(x) in ('list', 'tuple', 'set', 'frozenset', 'sorted') and len(x[2]) == 1:
        return held(x[2][0], but)
    return x[0] == 'L' and all_of(x[2], but)


def segments(v):
    v = strip(v)
    if v[0] == 'L':
        return v[2]
    if cname(v) == '+':
        return segments(v[2][0]) + segments(v[2][1])
    if cname(v) in ('list', 'sorted', 'set', 'frozenset', 'tuple') and len(v[2]) == 1 and not v[3]:
        return segments(v[2][0])
    return (('all', v),)


def c21(R):
    R.rule('constraints', 'the sum has the simplified constraints of both operands, as they were parsed')
    R.rule('extras', 'the sum has the extras of both operands')
    R.rule('name', 'the sum has the name of the operands')
    R.rule('platform', 'each component of the platform of the sum is that of an operand which names it, or any')
    R.rule('refused', 'requirements of different names or platforms that do not match are refused, with an error of '
           'the package')
    R.rule('unchanged', 'no operand is modified')
    R.rule('merged', 'requirements of one name and matching platforms are merged')
    for given in ('requirement', 'text'):
        A = analysis(raises=False)
        requirements(A, ('R', 'Q'))
        A.opaque.add(SIMPLIFY)
        st, r = requirement(A, A.fresh(), sym('R'))
        q = sym('Q')
        if given == 'requirement':
            st, q = requirement(A, st, sym('Q'))
        reset(A, st)
        before = st.copy()
        add = REQ + '.__add__'
        loc = loc_of(A, add)
        outs = A.method(st, r, '__add__', [q])
        R.saw(A, outs)
        merged = 0
        for o in outs:
            path = o.st.path
            colon = lambda t: known(path, ('cmp', 'in', const(':'), t))
            if colon(sym('R.name')) is True or colon(sym('Q')) is False or any(
                    p and strip(a)[0] == 'isinst' and strip(a)[1] == sym('Q') and show(strip(a)[2]) == REQ
                    for a, p in path):
                continue            # names have no colon; a requirement is the other case; texts name a platform
            if given == 'text':
                if any(strip(a)[0] == 'isinst' and strip(a)[1] == q and show(strip(a)[2]).endswith('basestring') and
                       not p for a, p in path):
                    R.ob('refused', 'anything else', not o.ok, loc, o.describe()[:120])
                    continue
            names = known(path, mk_eq(sym('R.name'), sym('Q.name')))
            plats = known(path, mk_eq(sym('R.platform'), sym('Q.platform')))
            if not o.ok:
                if names is True and plats is True:
                    R.ob('merged', given, o.exc_is(INVALID) and any(is_call(e, SIMPLIFY) for e in o.events), loc,
                         '%s though names and platforms match' % o.exc())
                    continue
                R.ob('refused', given, o.exc() in A.classes, loc, o.exc())
                continue
            merged += 1
            R.ob('refused', given, names is True, loc, 'merged though the names may differ: ' + o.describe()[:160])
            R.ob('refused', given, plats is True, loc, 'merged though the platforms may differ: ' + o.describe()[:160])
            for x in (r, q) if given == 'requirement' else (r,):
                R.ob('unchanged', given, parts_of(A, before, x, loc) == parts_of(A, o.st, x, loc) and
                     o.val != x, loc, 'an operand is modified')
            for e in flatten(o.events):
                if e.kind in ('mut', 'setitem', 'delitem'):
                    b = strip(e.args[0])
                    R.ob('unchanged', given, not (b[0] == 'sym' and b[1][:2] in ('R.', 'Q.')), e.loc, repr(e)[:100])
            parts = parts_of(A, o.st, o.val, loc)
            for n in parts['name']:
                R.ob('name', given, n in (sym('R.name'), sym('Q.name')), loc, show(n)[:80])
            for n in parts['extras']:
                s = segments(n)
                X, Y = sym('R.extras'), sym('Q.extras')
                R.ob('extras', given, (all_of(s, X) and all_of(s, Y, X)) or (all_of(s, Y) and all_of(s, X, Y)), loc,
                     'the extras are %s' % show(n)[:160])
            for n in parts['versions']:
                ok = cname(n) == SIMPLIFY
                s = segments(n[2][0]) if ok else ()
                R.ob('constraints', given, ok and all_of(s, sym('R.versions')) and all_of(s, sym('Q.versions')), loc,
                     'the constraints are %s' % show(n)[:160])
        R.ob('merged', given, merged > 0, loc, 'no sum')
    sum_platforms(R)


COMPONENTS = (('os', 'os_name'), ('release', 'os_release'), ('arch', 'architecture'))


def component(A, st, r, attr):
    out = []
    st = st.copy()
    for s, k, p in A.quiet(lambda: A.getattr_(st, r, 'platform', A.cx(st, [r]), A.node())):
        if k != 'x':
            out += [s.freeze(v) for s, j, v in A.quiet(lambda: A.getattr_(s, p, attr, A.cx(s, [p]), A.node()))
                    if j != 'x']
    return out


def sum_platforms(R):
    A = analysis(raises=False)
    st, r, q = with_platforms(A)
    loc = loc_of(A, REQ + '.__add__')
    outs = A.method(st, r, '__add__', [q])
    R.saw(A, outs)
    for vals in itertools.product(*[('any', n) for n, _ in COMPONENTS] * 2):
        env = dict((sym('%s.%s' % (x, n)), vals[i]) for i, (x, n) in enumerate(
            (x, n) for x in 'RQ' for n, _ in COMPONENTS))
        env[sym('R.name')] = env[sym('Q.name')] = 'foo'
        some = False
        for o in outs:
            if not o.ok or consistent(o.st.path, lambda a: foldb(a, env)) is False:
                continue
            some = True
            for i, (n, attr) in enumerate(COMPONENTS):
                want = n if n in (vals[i], vals[i + 3]) else 'any'
                for p in component(A, o.st, o.val, attr):
                    got = fold(strip(p), env)
                    R.ob('platform', attr, got == want, loc, '%s and %s make %r' % (vals[i], vals[i + 3], got))
        R.ob('platform', 'Requirement', some, loc, 'no sum of requirements on matching platforms')


# ------------------------------------------------------------------- C22

def required_equal(o):
    """the equalities which hold when an outcome answers "equal" """
    out = set()
    todo = [(strip(a), p) for a, p in o.st.path if a[0] != 'allof']
    v = strip(o.ret())
    if v != TRUE:
        todo.append((v, True))
    for a, p in todo:
        while a[0] in ('not', 'truth') and not (a[0] == 'truth' and a[1][0] != 'cmp'):
            p ^= a[0] == 'not'
            a = a[1]
        if a[0] == 'cmp' and (a[1], p) in (('==', True), ('!=', False)):
            pair(out, a[2], a[3])
    return out


def pair(out, x, y):
    out.add((x, y))
    out.add((y, x))
    if x[0] == y[0] == 'tup' and len(x) == len(y):
        for u, w in zip(x[1:], y[1:]):
            pair(out, u, w)
    if x[0] == y[0] == 'call' and x[1] == y[1] and len(x[2]) == len(y[2]) == 1 and not x[3] and not y[3] and \
            x[1] in ('tuple', 'list', 'str'):
        out.add((x[2][0], y[2][0]))         # injective on what they are applied to
        out.add((y[2][0], x[2][0]))
    if x[0] == y[0] == 'fmt' and len(x[1]) == len(y[1]):
        ps = [(a, b) for a, b in zip(x[1], y[1]) if not (isinstance(a, str) and a == b)]
        if len(ps) == 1 and not isinstance(ps[0][0], str) and not isinstance(ps[0][1], str):
            pair(out, ps[0][0][1], ps[0][1][1])


def covered(t, eqs, other):
    t = strip(t)
    if t[0] == 'c' or (t, other(t)) in eqs:
        return True
    if t[0] in ('tup',):
        return all(covered(x, eqs, other) for x in t[1:])
    if t[0] == 'fmt':
        return all(isinstance(x, str) or covered(x[1], eqs, other) for x in t[1])
    if t[0] == 'call':
        return all(covered(x, eqs, other) for x in t[2]) and all(covered(x, eqs, other) for _, x in t[3])
    if t[0] in ('ext', 'cls', 'func'):
        return True
    return False


def swap(t):
    """the same term about the other requirement"""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'sym' and t[1].split('.')[0] in ('R', 'Q'):
            return ('sym', {'R': 'Q', 'Q': 'R'}[t[1][0]] + t[1][1:])
        return tuple(swap(x) for x in t)
    if isinstance(t, frozenset):
        return frozenset(swap(x) for x in t)
    return t


def with_platforms(A):
    """requirements R and Q, on platforms with unknown components"""
    st = A.fresh()
    plats = {}
    for n in 'RQ':
        o = instance(A, st, PLATFORM, [sym(n + '.os'), sym(n + '.release'), sym(n + '.arch')])[0]
        st, plats[n] = o.st, o.val
    requirements(A, ('R', 'Q'), plats)
    A.opaque.add(SIMPLIFY)
    st, r = requirement(A, st, sym('R'))
    st, q = requirement(A, st, sym('Q'))
    return reset(A, st), r, q


def c22(R):
    R.rule('hash', 'what the hash of a requirement is made of is equal if the requirements are')
    R.rule('different', '!= is the negation of ==')
    R.rule('total', 'comparing with anything raises nothing')
    R.rule('text', 'a text which is no requirement is different')
    A = analysis(raises=False)
    st, r, q = with_platforms(A)
    eq_, ne_, hash_ = (REQ + '.' + n for n in ('__eq__', '__ne__', '__hash__'))
    hashes = A.method(st.copy(), r, '__hash__', [])
    R.saw(A, hashes)
    equal = A.method(st.copy(), r, '__eq__', [q])
    R.saw(A, equal)
    loc = loc_of(A, hash_)
    n = 0
    for o in equal:
        if not o.ok:
            R.ob('total', '==', False, loc_of(A, eq_), '%s raised' % o.exc())
            continue
        v = strip(o.ret())
        if v in (FALSE, NONE):
            continue
        n += 1
        eqs = required_equal(o)
        for h in hashes:
            if not h.ok:
                R.ob('total', 'hash', False, loc, '%s raised' % h.exc())
                continue
            t = strip(h.ret())
            R.ob('hash', 'Requirement', covered(t, eqs, swap), loc,
                 'the hash %s is not determined by what == compares' % show(t)[:200])
    R.ob('hash', 'Requirement', n > 0 and hashes, loc, 'requirements are never equal')
    # !=
    B = analysis(raises=False)
    st, r, q = with_platforms(B)
    B.hooks[eq_] = give(sym('EQUAL'))
    outs = B.method(st.copy(), r, '__ne__', [q])
    R.saw(B, outs)
    for o in outs:
        for val in (True, False):
            W = lambda a: val if a in (truth(sym('EQUAL')), sym('EQUAL')) else None
            if consistent(o.st.path, W) is False:
                continue
            got = None
            if o.ok:
                v = strip(o.ret())
                got = fold(v, {sym('EQUAL'): val})
            R.ob('different', '!=', got is (not val), loc_of(B, ne_), '!= answers %s when == answers %s' % (
                show(o.ret())[:80] if o.ok else o.exc(), val))
    # anything at all
    for m in ('__eq__', '__ne__'):
        A = analysis()
        A.opaque.add(SIMPLIFY)
        others = simplify_raises()
        st, r, q = with_platforms(A)
        for x in (PARSE, PLATFORM + '.parse'):
            del A.hooks[x]
        A.opaque.discard(SIMPLIFY)
        A.hooks[SIMPLIFY] = lambda A, st, args, kw, cx, n: [(st.copy(), 'v', sym('S'))] + [
            (st.copy(), 'x', ('xinst', e, ())) for e in others]
        A.hooks[PLATFORM + '.current'] = lambda A, st, args, kw, cx, n: [
            (st.copy(), 'v', sym('here')), (st.copy(), 'x', ('xinst', INVALID_PLATFORM, ()))]
        A.hooks['str'] = str_of_text
        outs = A.method(st, r, m, [sym('other')])
        R.saw(A, outs)
        outs = [o for o in outs if not any(p and strip(a)[0] == 'isinst' and strip(a)[1] == sym('other') and
                                           show(strip(a)[2]) == REQ for a, p in o.st.path)]
        outs += A.method(st, r, m, [q])
        for o in outs:
            R.ob('total', m, o.ok, loc_of(A, REQ + '.' + m), '%s raised: %s' % (
                o.exc(), o.describe()[:160]) if not o.ok else '')


def str_of_text(A, st, args, kw, cx, n):
    """str() of an object described by a text with non-ASCII characters"""
    outs = A.x_str(st, list(args), [], cx, n)
    vs = [a for a in args]
    for a in args:
        if st.is_ref(a, I):
            vs += [st.freeze(v) for v in st.obj(a).attrs.values()]
    if any(s == sym('other') for v in vs for s in subterms(v)):
        s = st.copy()
        outs.append((s, 'x', ('xinst', 'UnicodeEncodeError', ())))
    return outs


def simplify_raises():
    """what simplifying constraints may raise"""
    A = analysis()
    out = set()
    for o in A.run(A.fresh(), SIMPLIFY, [sym('constraints')]):
        if not o.ok and o.exc():
            out.add(o.exc())
    return sorted(out)


CHECKS = {'C19': c19, 'C20': c20, 'C21': c21, 'C22': c22}
