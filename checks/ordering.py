"""C25: comparing packages"""
import itertools
from .base import *

MIXIN = 'ipkg.mixins.NameVersionRevisionComparable'
SPEC = 'ipkg.utils.parse_package_spec'
OPS = ('__eq__', '__ne__', '__lt__', '__gt__', '__le__', '__ge__')
FIELDS = ('name', 'version', 'revision')
OTHER = sym('other')


def comparables(A):
    """the operators of every class of packages: {operator: function}"""
    A.func_node(SPEC)
    if MIXIN not in A.classes:
        raise Missing(MIXIN)
    out = {}
    for q in sorted(A.classes):
        if MIXIN not in A.mro(q):
            continue
        impl = {}
        for m in OPS:
            for c in A.mro(q):
                if c in A.classes and m in A.classes[c].ns:
                    impl[m] = c
                    break
        out.setdefault(tuple(sorted(impl.items())), q)
    return [(q, dict(i)) for i, q in out.items()]


class Case(object):
    """how self and the other compare"""

    def __init__(self, kind, name, version, revision, given=FIELDS):
        # version, revision: (equal texts, -1 / 0 / 1)
        self.kind, self.name, self.version, self.revision, self.given = kind, name, version, revision, given
        self.env = {}
        names = {1: 'n', 2: 'n' if name else 'm'}
        for i in (1, 2):
            self.env[sym('name%d' % i)] = names[i]
            for f, (same, order) in (('version', version), ('revision', revision)):
                t = sym('%s%d' % (f, i))
                # texts are only compared for equality
                text = 'a' if i == 1 or same else 'ab'
                value = 10 if i == 1 else 10 - order
                self.env[t] = text
                for x in (t, call('str', (t,)), call('unicode', (t,))):
                    self.env[strip(x)] = text
                    self.env[strip(call('pkg_resources.parse_version', (x,)))] = value
                self.env['isnone', t] = False
                self.env['truth', t] = True
        for f in FIELDS:
            t = ('attr', OTHER, f)
            s = sym(f + '2')
            for k, v in list(self.env.items()):
                if s in subterms(k):
                    self.env[strip(subst(k, s, t))] = v

    def __call__(self, a):
        a = strip(a)
        if a[0] == 'not':
            r = self(a[1])
            return None if r is None else not r
        if a[0] == 'hasattr' and a[1] == OTHER:
            return self.kind == 'package'
        if a[0] == 'isinst' and a[1] == OTHER:
            n = show(a[2])
            if n in ('basestring', 'str', 'unicode'):
                return self.kind == 'spec'
            return self.kind == 'package' and None
        return foldb(a, self.env)

    def expected(self):
        """{operator: answer or None where the statement leaves it open}"""
        if self.kind == 'nothing' or not self.name:
            e, l, g = False, False, False
        else:
            v = 'version' in self.given
            r = 'revision' in self.given
            e = (not v or self.version[0]) and (not r or self.revision[0])
            if not v:
                l = g = False
            elif not self.version[0]:
                if self.version[1] == 0:
                    l = g = None        # two ways to write one version
                else:
                    l, g = self.version[1] < 0, self.version[1] > 0
            elif r:
                l, g = self.revision[1] < 0, self.revision[1] > 0
            else:
                l = g = False
        return {'__eq__': e, '__ne__': not e, '__lt__': l, '__gt__': g}

    def told(self):
        if self.kind == 'nothing':
            return 'something that is no package'
        rel = lambda f, x: '%s %s' % (f, 'equal' if x[0] else {-1: 'less', 0: 'written otherwise', 1: 'greater'}[x[1]])
        return '%s with %s%s' % ('a package' if self.kind == 'package' else 'a spec', 'the same name' if self.name
                                 else 'another name', ''.join(', ' + rel(f, getattr(self, f)) for f in FIELDS[1:]
                                                              if f in self.given))


def cases():
    rel = [(True, 0), (False, -1), (False, 0), (False, 1)]
    for name, v, r in itertools.product((True, False), rel, rel):
        yield Case('package', name, v, r)
        yield Case('spec', name, v, r)
    for name, v in itertools.product((True, False), rel):
        yield Case('spec', name, v, (False, -1), ('name', 'version'))
    for name in (True, False):
        yield Case('spec', name, (False, -1), (False, 1), ('name',))
    yield Case('nothing', False, (False, 1), (False, -1), ())


def answers(R, q, m, given):
    A = analysis(raises=False)

    def spec(A, st, args, kw, cx, n):
        if len(args) != 1 or args[0] != OTHER:
            return None
        items = [(const('name'), sym('name2')), (const('operator'), const('==') if 'version' in given else NONE)]
        items += [(const(f), sym(f + '2') if f in given else NONE) for f in FIELDS[1:]]
        return [(st, 'v', st.new(D(items)))]
    A.hooks[SPEC] = spec
    st = A.fresh()
    me = st.new(I(q, {f: sym(f + '1') for f in FIELDS}))
    outs = A.method(reset(A, st), me, m, [OTHER])
    R.saw(A, outs)
    return outs


def c25(R):
    R.rule('exact', 'name, version and revision decide an operator as the statement says')
    R.rule('consistent', '< and > do not hold both, nor together with ==')
    R.rule('or-equal', '<= is < or ==, >= is > or ==')
    R.rule('negation', '!= is the negation of ==')
    A = analysis()
    for q, impl in comparables(A):
        loc = {m: loc_of(A, impl[m] + '.' + m) if m in impl else None for m in OPS}
        for m in OPS:
            R.ob('exact', '%s%s' % (q, m), m in impl, None, 'the operator is not defined')
        if any(m not in impl for m in OPS):
            continue
        table = {}
        for given in (FIELDS, FIELDS[:2], FIELDS[:1]):
            for m in OPS:
                table[m, given] = answers(R, q, m, given)
        for c in cases():
            got = {}
            for m in OPS:
                vals = set()
                for o in table[m, c.given if c.kind == 'spec' else FIELDS]:
                    if consistent(o.st.path, c) is False:
                        continue
                    v = fold(strip(o.ret()), c.env) if o.ok else UNKNOWN
                    if v is UNKNOWN and o.ok:
                        v = c(strip(o.ret()))
                        v = UNKNOWN if v is None else v
                    vals.add('unknown' if v is UNKNOWN else bool(v) if v is not None else False)
                got[m] = vals.pop() if len(vals) == 1 else 'unknown'
            what = q.split('.')[-1]
            want = c.expected()
            for m in ('__eq__', '__lt__', '__gt__'):
                if want[m] is not None:
                    R.ob('exact', what + m, got[m] is want[m], loc[m], 'compared with %s the answer is %s' % (
                        c.told(), got[m]))
            R.ob('negation', what + '__ne__', got['__ne__'] is (not got['__eq__']) and got['__eq__'] != 'unknown',
                 loc['__ne__'], 'compared with %s == is %s and != is %s' % (c.told(), got['__eq__'], got['__ne__']))
            R.ob('consistent', what, [got[m] for m in ('__eq__', '__lt__', '__gt__')].count(True) <= 1 and
                 'unknown' not in got.values(), loc['__lt__'], 'compared with %s: %s' % (c.told(), got))
            for m, n in (('__le__', '__lt__'), ('__ge__', '__gt__')):
                R.ob('or-equal', what + m, got[m] is (got[n] is True or got['__eq__'] is True), loc[m],
                     'compared with %s: %s' % (c.told(), got))


CHECKS = {'C25': c25}
