"""Values and atoms of the abstract domain.

A value is a hashable tuple whose first item is its kind:
  ('c', type, v)            a constant
  ('sym', name)             an unknown the check introduced (a parameter)
  ('attr', b, n) ('item', b, k) ('elem', coll) ('wit', coll) ('last', coll)
                            components of other values; elem is the generic
                            element of a loop, wit the one a loop stopped at
  ('call', f, args, kw, k)  result of a library operation (k-th identical one)
  ('cmp', op, a, b) ('not', a) ('fmt', parts) ('tup', items)
  ('ref', address)          an object of the abstract heap
  ('func'/'bound'/'cls'/'mod'/'ext'/'meth', ...)   callables and namespaces
"""
from .pyast import U

NONE = ('c', 'none', None)
TRUE = ('c', 'bool', True)
FALSE = ('c', 'bool', False)


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, int):
        return ('c', 'int', v)
    if isinstance(v, float):
        return ('c', 'float', v)
    if isinstance(v, str):
        return ('c', 'str', str(v))
    if isinstance(v, tuple):
        return ('tup',) + tuple(const(x) for x in v)
    return ('c', 'other', repr(v))


def is_c(v):
    return v[0] == 'c'


def is_str(v):
    return v[:2] == ("c", "str")


def is_num(v):
    return v[0] == 'c' and v[1] in ('int', 'bool', 'float')


def tup(*items):
    return ('tup',) + items


def sym(name):
    return ('sym', name)


def ext(name):
    return ('ext', name)


def call(name, args=(), kw=(), k=0):
    return ('call', name, tuple(args), tuple(kw), k)


def cname(t):
    """name of the operation a call term stands for, or None"""
    return t[1] if isinstance(t, tuple) and t and t[0] == 'call' else None


def subterms(t):
    yield t
    if isinstance(t, (tuple, frozenset)):
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                for y in subterms(x):
                    yield y
    elif isinstance(t, Ev):
        for y in subterms(t.key()):
            yield y


_REFS = {}


def has_ref(t):
    """does the term refer to objects of the heap?"""
    if not isinstance(t, (tuple, frozenset)):
        return False
    r = _REFS.get(t)
    if r is None:
        if len(_REFS) > 400000:
            _REFS.clear()
        r = isinstance(t, tuple) and len(t) == 2 and t[0] == 'ref' or any(has_ref(x) for x in t)
        _REFS[t] = r
    return r


_MENT = {}


def mentions(t, s):
    if t == s:
        return True
    if isinstance(t, (tuple, frozenset)):
        k = (t, s)
        r = _MENT.get(k)
        if r is None:
            if len(_MENT) > 400000:
                _MENT.clear()
            r = False
            for x in t:
                if x == s or isinstance(x, (tuple, frozenset, Ev)) and mentions(x, s):
                    r = True
                    break
            _MENT[k] = r
        return r
    if isinstance(t, Ev):
        return mentions(t.key(), s)
    return False


_LAST = {}


def mentions_last(t):
    if isinstance(t, (tuple, frozenset)):
        r = _LAST.get(t)
        if r is None:
            if len(_LAST) > 400000:
                _LAST.clear()
            r = isinstance(t, tuple) and len(t) > 1 and t[0] == 'last' or any(mentions_last(x) for x in t)
            _LAST[t] = r
        return r
    if isinstance(t, Ev):
        return mentions_last(t.key())
    return False


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        if not mentions(t, a):
            return t
        r = tuple(subst(x, a, b) if isinstance(x, (tuple, frozenset, Ev)) else x for x in t)
        return r if r != t else t
    if isinstance(t, frozenset):
        return frozenset(subst(x, a, b) for x in t)
    if isinstance(t, Ev):
        k = subst(t.key(), a, b)
        return t if k == t.key() else Ev(k[0], k[1], k[2], k[3], k[4], t.loc)
    return t


def size(t, limit=400):
    n = 0
    stack = [t]
    while stack:
        x = stack.pop()
        n += 1
        if n > limit:
            return n
        if isinstance(x, (tuple, frozenset)):
            stack.extend(x)
    return n


def strip(t):
    """Forget versions: two reads of the same place at different times, or two
    identical calls, become equal."""
    if isinstance(t, tuple):
        if t and t[0] == 'call' and len(t) >= 5:
            return ('call', t[1], strip(t[2]), strip(t[3]))
        if t and t[0] == 'item' and len(t) == 4:
            return ('item', strip(t[1]), strip(t[2]))
        if t and t[0] in ('wit', 'last', 'elem') and len(t) >= 2:
            return ('elem', strip(t[1]))
        return tuple(strip(x) if isinstance(x, (tuple, frozenset, Ev)) else x for x in t)
    if isinstance(t, frozenset):
        return frozenset(strip(x) for x in t)
    return t


class Ev(object):
    """An effect.  kind: call, setitem, delitem, setattr, mut, print, loop.
    The location is not part of its identity."""
    __slots__ = ('kind', 'name', 'args', 'kw', 'res', 'loc')

    def __init__(self, kind, name, args=(), kw=(), res=None, loc=None):
        self.kind, self.name, self.args, self.kw, self.res, self.loc = \
            kind, name, args, kw, res, loc

    def key(self):
        return (self.kind, self.name, self.args, self.kw, self.res)

    def __eq__(self, o):
        return isinstance(o, Ev) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.kind == 'loop':
            return '<loop %s over %s %s>' % (self.name, show(self.args[0]),
                                             [(r[0], list(r[2])) for r in self.kw])
        return '<%s %s(%s%s) %s>' % (self.kind, self.name, ', '.join(show(a) for a in self.args),
                                     ''.join(', %s=%s' % (k, show(v)) for k, v in self.kw),
                                     '%s:%s' % self.loc if self.loc else '')


def show(v, d=0):
    """A readable rendering of a value."""
    if not isinstance(v, tuple) or not v:
        if isinstance(v, frozenset):
            return '{%s}' % ', '.join(sorted(show(x) for x in v))
        return str(v)
    k = v[0]
    if d > 12:
        return '...'
    s = lambda x: show(x, d + 1)
    try:
        if k == 'c':
            return repr(v[2])
        if k in ('sym', 'ext', 'mod', 'cls'):
            return str(v[1])
        if k == 'attr':
            return '%s.%s' % (s(v[1]), v[2])
        if k == 'item':
            return '%s[%s]' % (s(v[1]), s(v[2]))
        if k in ('elem', 'wit', 'last'):
            return '%s(%s)' % (k, s(v[1]))
        if k == 'call':
            n = v[1] if isinstance(v[1], str) else s(v[1])
            return '%s(%s)' % (n, ', '.join([s(a) for a in v[2]] + ['%s=%s' % (a, s(b)) for a, b in v[3]]))
        if k == 'cmp':
            return '(%s %s %s)' % (s(v[2]), v[1], s(v[3]))
        if k == 'not':
            return 'not %s' % s(v[1])
        if k == 'tup':
            return '(%s)' % ', '.join(s(x) for x in v[1:])
        if k == 'fmt':
            return 'fmt(%s)' % ' '.join(repr(p) if isinstance(p, str) else s(p[1]) for p in v[1])
        if k == 'I':
            return '<%s #%s>' % (v[1], v[2])
        if k == 'L':
            out = []
            for g in v[2]:
                if g[0] == 'one':
                    out.append(s(g[1]))
                elif g[0] == 'all':
                    out.append('*' + s(g[1]))
                else:
                    out.append('%s for all %s%s' % (s(g[1]), s(g[3]), ' if ' + ' and '.join(
                        sorted(('' if p else 'not ') + s(a) for a, p in g[2])) if g[2] else ''))
            return '[%s]' % ', '.join(out)
        if k == 'eq':
            return '%s == %s' % (s(v[1]), s(v[2]))
        if k == 'func':
            return v[1]
        if k == 'bound':
            return '%s of %s' % (s(v[1]), s(v[2]))
    except Exception:
        pass
    return '(%s)' % ' '.join(s(x) if isinstance(x, tuple) else str(x) for x in v)
