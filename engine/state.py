"""Abstract states: heap, path facts, effects so far."""
from .terms import *
from .terms import Ev
from . import model


class L(object):
    """list, set, ... : segments ('one', v), ('all', opaque collection),
    ('many', v, conditions, coll): v for every element of coll satisfying the
    conditions."""
    __slots__ = ('kind', 'segs')

    def __init__(self, kind, segs=()):
        self.kind, self.segs = kind, tuple(segs)

    def exact(self):
        return all(s[0] == 'one' for s in self.segs)

    def sig(self, f):
        return ('L', self.kind) + tuple(
            ('many', f(s[1]), f(s[2]), f(s[3])) if s[0] == 'many' else (s[0], f(s[1]))
            for s in self.segs)


class D(object):
    """dict: known items, segments of unknown ones, keys known to be absent"""
    __slots__ = ('items', 'base', 'dels', 'default')

    def __init__(self, items=(), base=(), dels=frozenset(), default=None):
        self.items, self.base, self.dels, self.default = tuple(items), tuple(base), dels, default

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return D(**d)

    def sig(self, f):
        return ('D', tuple((f(k), f(v)) for k, v in self.items), tuple(f(s) for s in self.base),
                frozenset(f(x) for x in self.dels), f(self.default) if self.default else None)


class I(object):
    """instance: class, attributes, address of its dict content"""
    __slots__ = ('cls', 'attrs', 'content')

    def __init__(self, cls, attrs=None, content=None):
        self.cls, self.attrs, self.content = cls, attrs or {}, content

    def sig(self, f):
        return ('I', self.cls, tuple(sorted((k, f(v)) for k, v in self.attrs.items())),
                f(('ref', self.content)) if self.content is not None else None)


class F(object):
    """local variables of a function activation or module"""
    __slots__ = ('vars', 'parent')

    def __init__(self, vars=None, parent=None):
        self.vars, self.parent = vars or {}, parent

    def sig(self, f):
        return ('F', tuple(sorted((k, f(v)) for k, v in self.vars.items())),
                f(('ref', self.parent)) if self.parent is not None else None)


# operations that give an object, never None
NONNULL = ('open', 'file', 'io.open', 'StringIO', 'StringIO.StringIO', 'cStringIO.StringIO', 'io.BytesIO', 'BytesIO',
           'tarfile.open', 'tarfile.TarFile', 'zipfile.ZipFile', 'requests.get', 'subprocess.Popen',
           'hashlib.sha512', 'hashlib.sha384', 'hashlib.sha256', 'hashlib.sha224', 'hashlib.sha1', 'hashlib.md5',
           'hashlib.new')
BOOLKINDS = ('cmp', 'isnone', 'isinst', 'hasattr', 'truth', 'keyin')


def mk_not(x):
    if x[0] == 'not':
        return x[1] if x[1][0] in BOOLKINDS else ('truth', x[1])
    if x == TRUE:
        return FALSE
    if x == FALSE:
        return TRUE
    return ('not', x)


class St(object):
    __slots__ = ('interp', 'heap', 'facts', 'trace', 'nxt', 'ver', 'store', 'fsv', 'mlog', 'cnt',
                 'loops', 'path')

    def __init__(self, interp):
        self.interp = interp
        self.heap = {}
        self.facts = {}
        self.trace = ()
        self.nxt = 1
        self.ver = {}
        self.store = {}
        self.fsv = 0
        self.mlog = {}
        self.cnt = {}
        self.loops = ()
        self.path = frozenset()

    def copy(self):
        n = St.__new__(St)
        n.interp = self.interp
        n.heap = dict(self.heap)
        n.facts = dict(self.facts)
        n.trace = self.trace
        n.nxt = self.nxt
        n.ver = dict(self.ver)
        n.store = dict(self.store)
        n.fsv = self.fsv
        n.mlog = dict(self.mlog)
        n.cnt = dict(self.cnt)
        n.loops = self.loops
        n.path = self.path
        self.interp.tick()
        return n

    # heap
    def obj(self, a):
        if isinstance(a, tuple):
            a = a[1]
        o = self.heap.get(a)
        if o is None:
            o = self.interp.base[a]
        return o

    def put(self, a, o):
        if isinstance(a, tuple):
            a = a[1]
        self.heap[a] = o

    def new(self, o):
        a = self.nxt
        self.nxt += 1
        self.heap[a] = o
        return ('ref', a)

    def is_ref(self, v, T=None):
        return v[0] == 'ref' and (T is None or isinstance(self.obj(v), T))

    # effects
    def emit(self, ev):
        self.trace = (self.trace, ev)

    def events(self):
        out = []
        t = self.trace
        while t:
            t, e = t
            out.append(e)
        out.reverse()
        return out

    def bump(self, base):
        """The content of an unknown object changes."""
        self.ver[base] = self.ver.get(base, 0) + 1
        for a in [a for a in self.facts if self._content(a, base)]:
            del self.facts[a]
        for k in [k for k in self.store if k[0] == base]:
            del self.store[k]

    def _content(self, atom, base):
        if atom[0] == 'cmp' and atom[1] == 'in' and mentions(atom[3], base):
            return True
        if atom[0] == 'truth' and (atom[1] == base or not isinstance(atom[1], tuple)):
            return True
        for t in subterms(atom):
            if not isinstance(t, tuple):
                continue
            if t and t[0] == 'call' and len(t) > 2 and t[1] == 'len' and t[2] == (base,):
                return True
            if t and t[0] == 'item' and len(t) > 2 and t[1] == base:
                return True
        return False

    def mkitem(self, base, key):
        v = self.store.get((base, key))
        if v is not None:
            return v
        n = self.ver.get(base, 0)
        return ('item', base, key, n) if n else ('item', base, key)

    # freezing: containers are replaced by their content
    def freeze(self, v, depth=0):
        if not isinstance(v, tuple):
            return v
        if v[0] == 'ref':
            o = self.obj(v)
            if depth > 6:
                return v
            if isinstance(o, L):
                return ('L', o.kind, tuple(self._fseg(s, depth) for s in o.segs))
            if isinstance(o, D):
                return ('D', tuple((self.freeze(k, depth + 1), self.freeze(x, depth + 1))
                                   for k, x in o.items), o.base, o.dels)
            return v
        if v[0] == 'tup':
            return ('tup',) + tuple(self.freeze(x, depth + 1) for x in v[1:])
        return v

    def _fseg(self, s, depth):
        if s[0] == 'many':
            return ('many', self.freeze(s[1], depth + 1), s[2], s[3])
        return (s[0], self.freeze(s[1], depth + 1))

    # comparing states
    def canon(self, roots, extra=True):
        ren = {}
        out = []
        queue = []
        base = self.interp.baselimit

        def f(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == 'ref':
                    a = v[1]
                    if a not in self.heap:
                        return ('ref', 'base', a)
                    if a not in ren:
                        ren[a] = len(ren)
                        queue.append(a)
                    return ('ref', ren[a])
                if not has_ref(v):
                    return v
                return tuple(f(x) if isinstance(x, (tuple, frozenset)) else x for x in v)
            if isinstance(v, frozenset):
                return frozenset(f(x) for x in v) if has_ref(v) else v
            return v
        head = f(tuple(roots))
        while queue:
            a = queue.pop(0)
            out.append((ren[a], self.heap[a].sig(f)))
        r = (head, tuple(out))
        if extra:
            r += (frozenset((f(a), p) for a, p in self.facts.items()),
                  frozenset((f(k), v) for k, v in self.ver.items()),
                  frozenset((f(k), f(v)) for k, v in self.store.items()), self.fsv,
                  frozenset((f(k), f(v)) for k, v in self.mlog.items()))
        return r

    def canonv(self, v):
        return self.canon((v,), False)

    def substall(self, a, b, keep=()):
        """Replace the term a by b everywhere in the local heap and facts."""
        for k, o in list(self.heap.items()):
            if k in keep:
                continue
            if isinstance(o, L):
                segs = tuple(s if s[0] == 'many' and s[3] == a[1] else subst(s, a, b)
                             for s in o.segs)
                if segs != o.segs:
                    self.heap[k] = L(o.kind, segs)
            elif isinstance(o, D):
                items = subst(o.items, a, b)
                base = tuple(s if s[0] == 'many' and s[-1] == a[1] else subst(s, a, b)
                             for s in o.base)
                if items != o.items or base != o.base:
                    self.heap[k] = o.but(items=items, base=base)
            elif isinstance(o, I):
                if any(mentions(v, a) for v in o.attrs.values()):
                    self.heap[k] = I(o.cls, {n: subst(v, a, b) for n, v in o.attrs.items()}, o.content)
            elif isinstance(o, F):
                if any(mentions(v, a) for v in o.vars.values()):
                    self.heap[k] = F({n: subst(v, a, b) for n, v in o.vars.items()}, o.parent)
        if any(mentions(k, a) for k in self.facts):
            self.facts = {subst(k, a, b): p for k, p in self.facts.items()}
        if any(mentions(k, a) or mentions(v, a) for k, v in self.store.items()):
            self.store = {subst(k, a, b): subst(v, a, b) for k, v in self.store.items()}
        if any(mentions(k, a) or mentions(v, a) for k, v in self.mlog.items()):
            self.mlog = {subst(k, a, b): subst(v, a, b) for k, v in self.mlog.items()}

    def hvs(self, uid):
        """the unknowns of the loop uid that the heap mentions"""
        out = set()
        for o in self.heap.values():
            if isinstance(o, L):
                vs = o.segs
            elif isinstance(o, D):
                vs = (o.items, o.base)
            elif isinstance(o, I):
                vs = tuple(o.attrs.values())
            elif isinstance(o, F):
                vs = tuple(o.vars.values())
            else:
                continue
            for x in subterms(tuple(vs)):
                if isinstance(x, tuple) and len(x) == 3 and x[0] == 'hv' and x[2] == uid:
                    out.add(x[1])
        return out

    # ---------------------------------------------------------- facts
    def atom(self, v):
        """(atom, polarity) deciding the truth of v, or a bool"""
        pol = True
        while v[0] == 'not':
            v, pol = v[1], not pol
        if v[0] == 'c':
            return bool(v[2]) == pol
        if v[0] == 'tup':
            return (len(v) > 1) == pol
        if v[0] in ('func', 'bound', 'cls', 'mod', 'ext', 'meth', 'super', 'xinst'):
            if v[0] == 'ext' and v[1] in ('os.environ',):
                return ('truth', v), pol
            return pol
        if v[0] == 'fmt' and any(isinstance(p, str) and p for p in v[1]):
            return pol
        if v[0] == 'ref':
            o = self.obj(v)
            if isinstance(o, L):
                if any(s[0] == 'one' for s in o.segs):
                    return pol
                if not o.segs:
                    return not pol
                return ('truth', self.freeze(v)), pol
            if isinstance(o, D) or (isinstance(o, I) and o.content is not None):
                d = o if isinstance(o, D) else self.obj(o.content)
                if d.items:
                    return pol
                if not d.base:
                    return not pol
                return ('truth', v), pol
            return pol
        if v[0] == 'L':
            if any(s[0] == 'one' for s in v[2]):
                return pol
            if not v[2]:
                return not pol
        if v[0] in BOOLKINDS:
            if v[0] == 'truth':
                r = self.atom(v[1]) if v[1][0] in ('c', 'tup', 'not', 'ref') + BOOLKINDS else None
                if isinstance(r, bool):
                    return r == pol
                if r is not None:
                    return r[0], r[1] == pol
            return v, pol
        if v[0] == 'call' and v[1] == 'len':
            r = self.atom(('truth', v[2][0]))
            return r == pol if isinstance(r, bool) else (r[0], r[1] == pol)
        return ('truth', v), pol

    def known(self, v):
        """True, False or None: what the facts say of the truth of v"""
        a = self.atom(v)
        if isinstance(a, bool):
            return a
        atom, pol = a
        r = self.decide(atom)
        return None if r is None else r == pol

    def assume(self, v, value):
        """Record that v is true or false; False if that is impossible."""
        a = self.atom(v)
        if isinstance(a, bool):
            return a == value
        atom, pol = a
        want = value == pol
        r = self.decide(atom)
        if r is not None:
            return r == want
        self.facts[atom] = want
        self.path = self.path | frozenset([(atom, want)])
        return True

    def decide(self, a):
        r = self.facts.get(a)
        if r is not None:
            return r
        k = a[0]
        F_ = self.facts
        if k == 'cmp':
            op, x, y = a[1], a[2], a[3]
            if op in ('==', 'is'):
                if x == y:
                    return True
                if is_c(x) and is_c(y):
                    return x[2] == y[2]
                cx, cy = concrete_kind(x), concrete_kind(y)
                if cx and cy and cx != cy:
                    return False
                if cx == 'fn' and cy == 'fn':
                    return False
                if is_c(x):
                    x, y = y, x
                if is_c(y):
                    if F_.get(('truth', x)) is False and y[2]:
                        return False
                    if F_.get(('truth', x)) is True and not y[2]:
                        return False
                    if F_.get(('isnone', x)) is True and y != NONE:
                        return False
                    for f, p in F_.items():
                        if p and f[0] == 'cmp' and f[1] == '==' and f[2] == x and is_c(f[3]) and f[3] != y:
                            return False
                if op == '==':
                    if F_.get(('cmp', '<', x, y)) or F_.get(('cmp', '<', y, x)):
                        return False
                    if F_.get(('cmp', '<', x, y)) is False and F_.get(('cmp', '<', y, x)) is False:
                        return True
            elif op == '<':
                if x == y:
                    return False
                if is_num(x) and is_num(y):
                    return x[2] < y[2]
                if is_str(x) and is_str(y):
                    return x[2] < y[2]
                e = self.facts.get(mk_eq(x, y))
                if e is True:
                    return False
                if F_.get(('cmp', '<', y, x)) is True:
                    return False
                if e is False and F_.get(('cmp', '<', y, x)) is False:
                    return True
            elif op == 'in':
                if y[0] == 'L':
                    if not y[2]:
                        return False
                    for s in y[2]:
                        if s[0] == 'one' and s[1] == x:
                            return True
        elif k == 'isnone':
            x = a[1]
            if x[0] != 'sym' and x[0] not in ('attr', 'item', 'elem', 'wit', 'last', 'call', 'hv'):
                return x == NONE
            if term_type(x):
                return False
            if x[0] == 'call' and x[1] in NONNULL:
                return False
            if F_.get(('truth', x)) is True:
                return False
            for f, p in F_.items():
                if p and f[0] == 'isinst' and f[1] == x:
                    return False
                if p and f[0] == 'cmp' and f[1] in ('==', 'is') and f[2] == x and is_c(f[3]):
                    return f[3] == NONE
                # a value something was taken from
                if f[0] == 'cmp' and any(y[0] == 'item' and y[1] == x for y in f[2:4]):
                    return False
        elif k == 'truth':
            x = a[1]
            if x[0] in BOOLKINDS:
                return self.decide(x)
            if F_.get(('isnone', x)) is True:
                return False
            if x[0] == 'call' and x[1] in NONNULL:
                return True
            for f, p in F_.items():
                if p and f[0] == 'cmp' and f[1] in ('==', 'is') and f[2] == x and is_c(f[3]):
                    return bool(f[3][2])
                if p and f[0] == 'cmp' and f[1] == 'in' and f[3] == x:
                    return True
        elif k == 'isinst':
            return self.interp.isinst_facts(self, a[1], a[2])
        return None


def concrete_kind(v):
    if v[0] == 'c':
        return {'int': 'num', 'bool': 'num', 'float': 'num'}.get(v[1], v[1])
    if v[0] in ('tup', 'fmt'):
        return v[0] if v[0] == 'tup' else 'str'
    if v[0] in ('func', 'cls', 'mod', 'bound'):
        return 'fn'
    if v[0] == 'ext':
        return 'fn' if v[1].startswith('operator.') else None
    return None


def term_type(v):
    """type name of a value where it is evident"""
    k = v[0]
    if k == 'c':
        return {'none': 'NoneType'}.get(v[1], v[1])
    if k == 'fmt':
        return 'str'
    if k == 'tup':
        return 'tuple'
    if k == 'L':
        return v[1]
    if k == 'D':
        return 'dict'
    if k == 'func':
        return 'function'
    if k == 'bound':
        return 'method'
    if k in BOOLKINDS or k == 'not':
        return 'bool'
    if k == 'call' and isinstance(v[1], str):
        if v[1] in model.STR_RESULT:
            return 'str'
        if v[1] in model.LIST_RESULT:
            return 'list'
    return None


def mk_eq(a, b):
    if a == b:
        return TRUE
    if is_c(a) and is_c(b):
        return const(a[2] == b[2])
    if is_c(a):
        a, b = b, a
    if b == NONE:
        return ('isnone', a)
    # len(x) == 0
    if cname(a) == 'len' and b == const(0):
        return mk_not(('truth', a[2][0]))
    # x[:n] == 'const of n characters'
    if cname(a) == 'slice' and is_str(b) and a[2][1] in (NONE, const(0)) and \
       a[2][2] == const(len(b[2])):
        return ('call', '.startswith', (a[2][0], b), (), 0)
    if cname(a) == 'slice' and is_str(b) and a[2][2] == NONE and \
       a[2][1] == const(-len(b[2])):
        return ('call', '.endswith', (a[2][0], b), (), 0)
    if b == TRUE and a[0] in BOOLKINDS + ('not',):
        return a
    if b == FALSE and a[0] in BOOLKINDS + ('not',):
        return mk_not(a)
    if not is_c(b) and repr(b) < repr(a):
        a, b = b, a
    return ('cmp', '==', a, b)


def mk_lt(a, b):
    if a == b:
        return FALSE
    if is_num(a) and is_num(b) or is_str(a) and is_str(b):
        return const(a[2] < b[2])
    # 0 < len(x), len(x) < 1
    if cname(b) == 'len' and a == const(0):
        return ('truth', b[2][0])
    if cname(a) == 'len' and b == const(1):
        return mk_not(('truth', a[2][0]))
    if cname(a) == 'len' and b == const(0):
        return FALSE
    return ('cmp', '<', a, b)


def mk_in(a, b):
    return ('cmp', 'in', a, b)


def mk_is(a, b):
    if a == b:
        return TRUE
    if b == NONE:
        return ('isnone', a)
    if a == NONE:
        return ('isnone', b)
    if concrete_kind(a) and concrete_kind(b):
        return mk_eq(a, b)
    if b in (TRUE, FALSE) and (a[0] in BOOLKINDS or a[0] == 'not'):
        return a if b == TRUE else mk_not(a)
    if is_c(a) or not is_c(b) and repr(b) < repr(a):
        a, b = b, a
    return ('cmp', 'is', a, b)
