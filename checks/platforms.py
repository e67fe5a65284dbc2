"""C24, C49: platforms"""
import itertools
from .base import *

PLATFORM = 'ipkg.platforms.Platform'
INVALID = 'ipkg.platforms.InvalidPlatform'
FIELDS = ('os_name', 'os_release', 'architecture')
# how the two values of a component can be related
PAIRS = {'equal': ('x', 'x'), 'different': ('x', 'xy'), 'different ': ('anyx', 'x'), 'left any': ('any', 'x'),
         'right any': ('x', 'any'), 'both any': ('any', 'any')}


def two(A):
    st = A.fresh()
    out = []
    for n in '12':
        o = instance(A, st, PLATFORM, [sym(f + n) for f in FIELDS])[0]
        st = o.st
        out.append(o.val)
    return reset(A, st), out[0], out[1]


def placements():
    for rel in itertools.product(sorted(PAIRS), repeat=3):
        env = {}
        for f, r in zip(FIELDS, rel):
            env[sym(f + '1')], env[sym(f + '2')] = PAIRS[r]
        yield rel, env, not any(r.startswith('different') for r in rel)


def atoms(env, more):
    def valuation(a):
        r = more(a)
        return r if r is not None else foldb(a, env)
    return valuation


def answer(o, env):
    if not o.ok:
        return None
    v = fold(strip(o.ret()), env)
    return bool(v) if v is not UNKNOWN else None


def kinds(text=None, platform=None):
    def more(a):
        if a[0] == 'isinst' and a[1] == sym('other'):
            n = show(a[2])
            if n == PLATFORM:
                return platform
            if n in ('basestring', 'str', 'unicode'):
                return text
        return None
    return more


def judge(R, rule, A, method, outs, more, wanted, what):
    loc = loc_of(A, PLATFORM + '.' + method)
    for rel, env, match in placements():
        W = atoms(env, more)
        want = wanted(match)
        some = False
        for o in outs:
            if consistent(o.st.path, W) is False:
                continue
            some = True
            got = answer(o, env)
            R.ob(rule, what, got is want, loc, 'the answer is %s for components that are %s' % (
                got if o.ok and got is not None else o.exc() or show(o.ret())[:80], ', '.join(rel)))
        R.ob(rule, what, some, loc, 'no answer')


def c24(R):
    R.rule('match', 'two platforms match exactly if each pair of components is equal or one of the pair is any')
    R.rule('symmetric', 'matching the other way round gives the same')
    R.rule('different', '!= is the negation of the match')
    R.rule('text', 'comparing with a text is comparing with the platform it names')
    R.rule('no-platform', 'a malformed text, and anything that is no platform, is different')
    R.rule('names', 'any names the platform with three components any, three parts name a platform, nothing else does')
    A = analysis(raises=False)
    st, a, b = two(A)
    for what, x, y in (('self, other', a, b), ('other, self', b, a)):
        outs = A.method(st.copy(), x, '__eq__', [y])
        R.saw(A, outs)
        judge(R, 'match' if x == a else 'symmetric', A, '__eq__', outs, kinds(), lambda m: m, what)
    outs = A.method(st.copy(), a, '__ne__', [b])
    R.saw(A, outs)
    judge(R, 'different', A, '__ne__', outs, kinds(), lambda m: not m, 'self, other')
    # texts
    other = sym('other')
    for good in (True, False):
        A = analysis(raises=False)
        st, a, b = two(A)
        A.func_node(PLATFORM + '.parse')

        def parse(A, st, args, kw, cx, n):
            if any(s == other for x in args for s in subterms(x)):
                return [(st, 'v', b)] if good else [(st, 'x', ('xinst', INVALID, ()))]
            return None
        A.hooks[PLATFORM + '.parse'] = parse
        for m, neg in (('__eq__', False), ('__ne__', True)):
            outs = A.method(st.copy(), a, m, [other])
            R.saw(A, outs)
            if good:
                judge(R, 'text', A, m, outs, kinds(text=True, platform=False), lambda x: x != neg, m)
            else:
                judge(R, 'no-platform', A, m, outs, kinds(text=True, platform=False), lambda x: neg, m + ' malformed')
    # anything else; and nothing is raised, whatever it is
    for m, neg in (('__eq__', False), ('__ne__', True)):
        A = analysis()
        st, a, b = two(A)
        outs = A.method(st.copy(), a, m, [other])
        R.saw(A, outs)
        judge(R, 'no-platform', A, m, outs, kinds(text=False, platform=False), lambda x: neg, m + ' anything else')
        for o in outs:
            if any(p and strip(x)[0] == 'isinst' and show(strip(x)[2]) == PLATFORM for x, p in o.st.path):
                continue
            R.ob('no-platform', m, o.ok, loc_of(A, PLATFORM + '.' + m), '%s raised: %s' % (o.exc(), o.describe()[:160]))
    names(R)


def names(R):
    A = analysis(raises=False)
    text = sym('text')
    outs = A.run(A.fresh(), PLATFORM + '.parse', [('cls', PLATFORM), text])
    R.saw(A, outs)
    loc = loc_of(A, PLATFORM + '.parse')
    anys = parts = 0
    for o in outs:
        if not o.ok:
            R.ob('names', 'parse', o.exc_is(INVALID), loc, '%s raised: %s' % (o.exc(), o.describe()[:160]))
            continue
        vs = [values_of(A, o.st, o.val, f) for f in FIELDS]
        if any(len(v) != 1 for v in vs):
            R.ob('names', 'parse', False, loc, 'unknown components')
            continue
        vs = [strip(v[0]) for v in vs]
        isany = None
        three = False
        for x, p in o.st.path:
            x = strip(x)
            if x[0] == 'cmp' and x[1] == '==':
                l, r = x[2], x[3]
                for u, w in ((l, r), (r, l)):
                    if w == const('any') and plain(u) == text:
                        isany = p
                    if w == const(3) and cname(u) == 'len' and cut(u[2][0]) == text and p:
                        three = True
        if all(v == const('any') for v in vs):
            anys += 1
            R.ob('names', 'any', isany is True, loc, 'any platform for a text which may not be any')
            continue
        parts += 1
        R.ob('names', 'three parts', all(v[0] == 'item' and cut(v[1]) == text and v[2] == const(i)
                                         for i, v in enumerate(vs)), loc,
             'the components are %s' % ', '.join(show(v)[:60] for v in vs))
        R.ob('names', 'three parts', three, loc, 'components of a text that may not have three parts')
        R.ob('names', 'any', isany is False, loc, 'any is not taken for the platform any')
    R.ob('names', 'any', anys > 0, loc, 'no text names the platform any')
    R.ob('names', 'three parts', parts > 0, loc, 'no text names a platform')


def plain(t):
    """the text a normalised text is made of"""
    t = strip(t)
    while cname(t) in ('.lower', '.strip', 'str') and len(t[2]) == 1:
        t = t[2][0]
    return t


def cut(t):
    """the text which is cut at dashes"""
    t = strip(t)
    if cname(t) == '.split' and t[2][1:] == (const('-'),) and not t[3]:
        return plain(t[2][0])
    return None


# what a system may say of itself
SAYS = ('debian', '13.1', 'x86_64', 'trixie/sid', 'Debian', 'red-hat', 'A/b-C', 'i86pc')


def c49(R):
    R.rule('separate', 'no part of the current platform holds a dash, which separates the parts')
    R.rule('file-name', 'the name of a package file holds no slash, whatever the platform')
    R.rule('case', 'nor upper case, because platforms are read in lower case')
    R.rule('itself', 'a part that needs no change is what the system says')
    A = analysis(raises=False)
    outs = A.run(A.fresh(), PLATFORM + '.current', [('cls', PLATFORM)])
    R.saw(A, outs)
    loc = loc_of(A, PLATFORM + '.current')
    n = 0
    made = set()
    for o in outs:
        if not o.ok:
            R.ob('separate', 'current: unknown systems', o.exc_is(INVALID), loc, '%s raised: %s' % (
                o.exc(), o.describe()[:160]))
            continue
        n += 1
        for f in FIELDS:
            for v in values_of(A, o.st, o.val, f):
                v = strip(v)
                leaves = said(v)
                if leaves:
                    made.add(f)
                for text in SAYS:
                    got = fold(v, dict((l, text) for l in leaves))
                    what = f + ' of a system saying ' + text
                    known = isinstance(got, str)
                    R.ob('separate', what, known and '-' not in got, loc, 'is %s, if %s' % (
                        repr(got) if known else show(v)[:100], o.describe()[:100]))
                    if known:
                        R.ob('case', what, got == got.lower(), loc, 'is %r' % got)
                        R.ob('itself', what, not leaves or text not in SAYS[:3] or got == text, loc, 'is %r' % got)
    for f in FIELDS:
        R.ob('itself', f, f in made, loc, 'is always the same')
    R.ob('itself', 'current', n > 0, loc, 'no system has a platform')
    keys = ('name', 'version', 'revision', 'platform')
    values = [sym(k) for k in keys]
    A = analysis(raises=False)
    outs = A.run(A.fresh(), 'ipkg.packages.make_filename', [], list(zip(keys, values)))
    R.saw(A, outs)
    loc = loc_of(A, 'ipkg.packages.make_filename')
    R.ob('file-name', 'make_filename', any(o.ok for o in outs), loc, 'no file name')
    for o in outs:
        for p in SAYS:
            if not o.ok:
                continue
            env = dict(zip(values, ('foo', '1.0', '2', 'os-%s-arch' % p)))
            if consistent(o.st.path, lambda a: foldb(a, env)) is False:
                continue
            got = fold(strip(o.ret()), env)
            known = isinstance(got, str)
            R.ob('file-name', 'make_filename: ' + p, known and '/' not in got, loc, 'is %s' % (
                repr(got) if known else show(o.ret())[:200]))
            R.ob('file-name', 'make_filename: ' + p, known and (
                '/' in p or got == 'foo-1.0-2-os-%s-arch.ipkg' % p), loc, 'is %s' % got)


def said(v):
    """the texts in v which are not made from other texts"""
    if v[0] == 'item' or v[0] == 'call' and not v[1].startswith('.'):
        if fold(v, {}) is UNKNOWN and (v[0] == 'item' or not any(said(x) for x in v[2])):
            return {v}
    out = set()
    if v[0] == 'call':
        for x in v[2]:
            out |= said(x)
    elif v[0] == 'fmt':
        for x in v[1]:
            if not isinstance(x, str):
                out |= said(x[1])
    elif v[0] in ('tup', 'bin', 'concat'):
        for x in v[1:]:
            if isinstance(x, tuple):
                out |= said(x)
    return out


CHECKS = {'C24': c24, 'C49': c49}
