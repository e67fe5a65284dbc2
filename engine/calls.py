"""Attributes, subscripts, calls, and the library."""
from .pyast import N, AnalysisError
from .terms import *
from .terms import Ev
from .state import *
from .state import L, D, I, F
from .exprs import src, mk_fmt
from . import model

DICT_METHODS = set('''get keys values items iterkeys itervalues iteritems update pop clear copy
setdefault has_key popitem __getitem__ __setitem__ __contains__ __len__ __iter__
__delitem__ viewkeys viewitems viewvalues __init__'''.split())


class Calls(object):

    # -------------------------------------------------------- classes
    def mro(self, q):
        """names of the classes an instance of q belongs to"""
        out = []
        c = self.classes.get(q)
        if c is None:
            return [q]
        out.append(q)
        for b in c.bases:
            if b[0] == 'cls':
                out += [x for x in self.mro(b[1]) if x not in out]
            elif b[0] == 'ext':
                out += [b[1]] if b[1] not in out else []
        return out

    def find_method(self, q, name, after=None):
        m = self.mro(q)
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for c in m:
            ci = self.classes.get(c)
            if ci is not None and name in ci.ns:
                return ci.ns[name]
        return None

    def bind(self, f, selfv, cls):
        if f[0] == 'func':
            return ('bound', f, selfv)
        if f[0] == 'cmeth':
            return ('bound', f[1], ('cls', cls))
        if f[0] == 'smeth':
            return f[1]
        return f

    def isinst_facts(self, st, v, T):
        """isinstance(v, T) by what is known, else None"""
        if T[0] == 'tup':
            rs = [self.isinst_facts(st, v, t) for t in T[1:]]
            if True in rs:
                return True
            return False if all(r is False for r in rs) else None
        r = st.facts.get(('isinst', v, T))
        if r is not None:
            return r
        name = T[1] if T[0] in ('cls', 'ext') else None
        if name is None:
            return None
        if v[0] == 'ref':
            o = st.obj(v)
            if isinstance(o, I):
                return self.is_sub(o.cls, name)
            if isinstance(o, L):
                return name in (o.kind, 'object', 'list' if o.kind == 'list' else o.kind)
            if isinstance(o, D):
                return name in ('dict', 'object') or (name == 'collections.defaultdict' and o.default is not None)
            return None
        t = term_type(v)
        if t is not None:
            if name == t or name == 'object':
                return True
            if t == 'str':
                return name in ('str', 'basestring', 'unicode')
            if t == 'bool':
                return name in ('bool', 'int')
            if t == 'function':
                return name in ('types.FunctionType', 'function')
            if t == 'list' and name in ('tuple', 'set'):
                return False
            return False
        if v[0] == 'cls':
            return name in ('type', 'object', 'types.TypeType')
        if v[0] == 'xinst':
            if v[1] == '?':
                return None
            return name in self.exc_mro(v[1])
        if v == ('ext', 'os.environ'):
            return False
        if v[0] == 'ext':
            return None
        # other facts about the same value
        for f, p in st.facts.items():
            if f[0] != 'isinst' or f[1] != v:
                continue
            tt = f[2][1:] if f[2][0] == 'tup' else (f[2],)
            tn = [x[1] for x in tt if x[0] in ('cls', 'ext')]
            if p and tn and all(self.is_sub(x, name) for x in tn):
                return True
            if p and tn and all(self.disjoint(x, name) for x in tn):
                return False
            if not p and tn and any(self.is_sub(name, x) for x in tn):
                return False
        if st.facts.get(('isnone', v)) is True:
            return False
        for f, p in st.facts.items():
            if p and f[0] == 'cmp' and f[1] == '==' and f[2] == v and is_c(f[3]):
                return self.isinst_facts(st, f[3], T)
        return None

    def is_sub(self, a, b):
        if a == b or b == 'object':
            return True
        if a in self.classes:
            m = self.mro(a)
            if b in m:
                return True
            return any(b in model.exc_bases(x) for x in m if x not in self.classes)
        if b == 'basestring':
            return a in ('str', 'unicode')
        if b == 'dict':
            return a == 'collections.defaultdict'
        return b in model.exc_bases(a) if a in model.EXC else False

    PRIM = set('str basestring unicode int list dict tuple set bool float file '
               'types.FunctionType collections.defaultdict'.split())

    def disjoint(self, a, b):
        """no value is an instance of both (single inheritance is assumed of
        library types; repository classes may be combined by subclasses only
        if one extends the other)"""
        if self.is_sub(a, b) or self.is_sub(b, a):
            return False
        pa, pb = a in self.PRIM, b in self.PRIM
        if pa and pb:
            return True
        if pa or pb:
            c = b if pa else a
            prim = a if pa else b
            return c in self.classes and not any(x in self.PRIM for x in self.mro(c))
        return a in self.classes and b in self.classes and not (set(self.mro(a)) & set(self.mro(b)) - {'object'})

    # ------------------------------------------------------ attributes
    def getattr_(self, st, v, name, cx, n):
        k = v[0]
        if k == 'ref':
            o = st.obj(v)
            if isinstance(o, I):
                return self.inst_attr(st, v, o, name, cx, n)
            return [(st, 'v', ('meth', v, name))]
        if k == 'mod':
            f = st.obj(self.modframe[v[1]])
            if name in f.vars:
                return [(st, 'v', f.vars[name])]
            if v[1] + '.' + name in self.src:
                return [(st, 'v', self.import_name(v[1] + '.' + name, st))]
            self.unresolved.append((n.file, n.line, '%s.%s' % (v[1], name)))
            return [(st, 'x', ('xinst', 'AttributeError', ()))]
        if k == 'cls':
            f = self.find_method(v[1], name)
            if f is not None:
                if f[0] == 'cmeth':
                    return [(st, 'v', ('bound', f[1], v))]
                if f[0] == 'smeth':
                    return [(st, 'v', f[1])]
                return [(st, 'v', f)]
            if name == '__name__':
                return [(st, 'v', const(v[1].rsplit('.', 1)[1]))]
            if name == '__mro__':
                return [(st, 'v', ('attr', v, name))]
            for b in self.mro(v[1]):
                if b == 'dict' and name in DICT_METHODS:
                    return [(st, 'v', ('ext', 'dict.' + name))]
                if b in ('object', 'Exception', 'dict') and name == '__init__':
                    return [(st, 'v', ('ext', b + '.__init__'))]
            return [(st, 'v', ('attr', v, name))]
        if k == 'ext':
            return [(st, 'v', self.extern(v[1] + '.' + name))]
        if k == 'func':
            fi = self.funcs[v[1]]
            if name in ('func_name', '__name__'):
                return [(st, 'v', const(fi.name))]
            if name in ('__doc__', 'func_doc'):
                return [(st, 'v', const(fi.doc))]
            return [(st, 'v', ('attr', v, name))]
        if k == 'bound' and name in ('func_name', '__name__'):
            return self.getattr_(st, v[1], name, cx, n)
        if k == 'super':
            selfv = v[2]
            cls = st.obj(selfv).cls if st.is_ref(selfv, I) else selfv[1]
            f = self.find_method(cls, name, v[1])
            if f is not None:
                return [(st, 'v', self.bind(f, selfv, cls))]
            return [(st, 'v', ('meth', ('superobj', selfv, v[1]), name))]
        if k in ('c', 'tup', 'fmt', 'superobj', 'L', 'D'):
            return [(st, 'v', ('meth', v, name))]
        if k == 'xinst':
            return [(st, 'v', ('attr', v, name))]
        # an unknown value
        s = st.store.get((v, name))
        if s is not None:
            return [(st, 'v', s)]
        if self.catches(cx, 'AttributeError'):
            out = []
            for s2, b in self.br(st, ('hasattr', v, const(name))):
                out.append((s2, 'v', ('attr', v, name)) if b else
                           (s2, 'x', ('xinst', 'AttributeError', ())))
            return out
        return [(st, 'v', ('attr', v, name))]

    def inst_attr(self, st, v, o, name, cx, n):
        cls = o.cls
        f = self.find_method(cls, name)
        if f is not None and f[0] == 'prop':
            return self.call(st, ('bound', f[1], v), [], [], [], cx, n)
        if name in o.attrs:
            return [(st, 'v', o.attrs[name])]
        if f is not None:
            return [(st, 'v', self.bind(f, v, cls))]
        if name == '__class__':
            return [(st, 'v', ('cls', cls))]
        if name == '__dict__':
            return [(st, 'v', ('attr', v, '__dict__'))]
        if '*' in o.attrs:           # unknown further attributes
            return [(st, 'v', ('attr', v, name))]
        if o.content is not None and name in DICT_METHODS:
            return [(st, 'v', ('meth', v, name))]
        g = self.find_method(cls, '__getattr__')
        if g is not None:
            return self.call(st, self.bind(g, v, cls), [const(name)], [], [], cx, n)
        if self.is_exc_class(cls) and name in ('args', 'message', 'errno', 'strerror'):
            return [(st, 'v', ('attr', v, name))]
        if all(b in self.classes or b == 'object' for b in self.mro(cls)):
            return [(st, 'x', ('xinst', 'AttributeError', (name,)))]
        return [(st, 'v', ('meth', v, name))]

    def setattr_(self, st, v, name, val, cx, n):
        if st.is_ref(v, I):
            o = st.obj(v)
            f = self.find_method(o.cls, '__setattr__')
            if f is not None:
                return [(s, 'next', None) if k == 'v' else (s, 'exc', x) for s, k, x in
                        self.call(st, self.bind(f, v, o.cls), [const(name), val], [], [], cx, n)]
            a = dict(o.attrs)
            a[name] = val
            st.put(v, I(o.cls, a, o.content))
            if v[1] < self.mark:
                st.emit(Ev('setattr', name, (v, st.freeze(val)), (), None, (n.file, n.line)))
            return [(st, 'next', None)]
        st.emit(Ev('setattr', name, (st.freeze(v), st.freeze(val)), (), None, (n.file, n.line)))
        if v[0] not in ('cls', 'mod', 'ext', 'func'):
            st.store[(v, name)] = val
        return [(st, 'next', None)]

    # ------------------------------------------------------ subscripts
    def content(self, st, v):
        """address of the dict behind a value, or None"""
        if v[0] == 'superobj':
            v = v[1]
        if st.is_ref(v, D):
            return v
        if st.is_ref(v, I) and st.obj(v).content is not None:
            return ('ref', st.obj(v).content)
        return None

    def getitem(self, st, v, key, cx, n):
        if st.is_ref(v, I):
            o = st.obj(v)
            f = self.find_method(o.cls, '__getitem__')
            if f is not None:
                return self.call(st, self.bind(f, v, o.cls), [key], [], [], cx, n)
        d = self.content(st, v)
        if d is not None:
            return self.d_get(st, d, key, cx, n, None)
        if key[0] == 'slice':
            return self.slice_(st, v, key)
        if v[0] == 'tup' and is_num(key):
            try:
                return [(st, 'v', v[1:][key[2]])]
            except IndexError:
                return [(st, 'x', ('xinst', 'IndexError', ()))]
        segs = None
        if st.is_ref(v, L):
            segs = st.obj(v).segs
            v = st.freeze(v)
        elif v[0] == 'L':
            segs = v[2]
        if segs is not None and is_num(key):
            i = key[2]
            if all(s[0] == 'one' for s in segs):
                try:
                    return [(st, 'v', segs[i][1])]
                except IndexError:
                    return [(st, 'x', ('xinst', 'IndexError', ()))]
            if 0 <= i < len(segs) and all(s[0] == 'one' for s in segs[:i + 1]):
                return [(st, 'v', segs[i][1])]
            if i < 0 and all(s[0] == 'one' for s in segs[i:]):
                return [(st, 'v', segs[i][1])]
        if is_str(v) and is_num(key):
            try:
                return [(st, 'v', const(v[2][key[2]]))]
            except IndexError:
                return [(st, 'x', ('xinst', 'IndexError', ()))]
        fk = st.freeze(key)
        if cname(v) == 'os.path.split' and is_num(key):
            nm = {0: 'os.path.dirname', 1: 'os.path.basename', -1: 'os.path.basename'}.get(key[2])
            if nm:
                return [(st, 'v', call(nm, v[2]))]
        if self.catches(cx, 'KeyError', 'LookupError') and not is_num(fk):
            out = []
            for s, b in self.br(st, mk_in(fk, src(v))):
                out.append((s, 'v', s.mkitem(v, fk)) if b else (s, 'x', ('xinst', 'KeyError', ())))
            return out
        if self.catches(cx, 'IndexError') and is_num(fk):
            s2 = st.copy()
            return [(st, 'v', st.mkitem(v, fk)), (s2, 'x', ('xinst', 'IndexError', ()))]
        if v == ('ext', 'os.environ') and self.may_fail('os.environ') and st.known(mk_in(fk, v)) is None:
            s2 = st.copy()
            s2.assume(mk_in(fk, v), False)
            return [(st, 'v', st.mkitem(v, fk)), (s2, 'x', ('xinst', 'KeyError', ()))]
        return [(st, 'v', st.mkitem(v, fk))]

    def slice_(self, st, v, key):
        lo, hi, step = key[1:]
        if all(x == NONE or is_num(x) for x in (lo, hi, step)):
            sl = slice(lo[2], hi[2], step[2])
            if v[0] == 'tup':
                return [(st, 'v', ('tup',) + v[1:][sl])]
            if is_str(v):
                return [(st, 'v', const(v[2][sl]))]
            if st.is_ref(v, L):
                o = st.obj(v)
                if o.exact():
                    return [(st, 'v', st.new(L(o.kind, o.segs[sl])))]
                if (lo[2] or 0) == 0 and hi == NONE and step == NONE:
                    return [(st, 'v', st.new(L(o.kind, o.segs)))]
                if hi == NONE and step == NONE and lo[2] > 0 and \
                   all(s[0] == 'one' for s in o.segs[:lo[2]]):
                    return [(st, 'v', st.new(L(o.kind, o.segs[lo[2]:])))]
        if st.is_ref(v, L) and lo == NONE and hi == NONE and step == NONE:
            o = st.obj(v)
            return [(st, 'v', st.new(L(o.kind, o.segs)))]
        if lo == const(0):
            lo = NONE
        if lo == NONE and hi == NONE and step == NONE:
            return [(st, 'v', v)]
        return [(st, 'v', call('slice', (st.freeze(v), st.freeze(lo), st.freeze(hi), st.freeze(step))))]

    def d_in(self, st, d, key):
        o = st.obj(d)
        for k, v in o.items:
            if st.freeze(k) == key:
                return [(st, 'v', TRUE)]
        if key in o.dels:
            return [(st, 'v', FALSE)]
        maybe = [k for k, v in o.items if not (is_c(k) and is_c(key))]
        if not o.base:
            if not maybe:
                return [(st, 'v', FALSE)]
            if len(maybe) <= 12:
                pend = [st]
                out = []
                for k in maybe:
                    nxt = []
                    for s in pend:
                        for s2, b in self.br(s, mk_eq(s.freeze(k), key)):
                            if b:
                                out.append((s2, 'v', TRUE))
                            else:
                                nxt.append(s2)
                    pend = nxt
                return out + [(s, 'v', FALSE) for s in pend]
        if len(o.base) == 1 and o.base[0][0] == 'all' and not maybe:
            return [(st, 'v', mk_in(key, o.base[0][1]))]
        return [(st, 'v', mk_in(key, st.freeze(d)))]

    def d_get(self, st, d, key, cx, n, default):
        """value under a key; default None: a missing key is a KeyError"""
        o = st.obj(d)
        fk = st.freeze(key)
        for k, v in o.items:
            if st.freeze(k) == fk:
                return [(st, 'v', v)]
        maybe = [(k, v) for k, v in o.items if not (is_c(k) and is_c(fk))]

        def missing(s):
            if default is not None:
                return [(s, 'v', default)]
            if o.default is not None:
                out = []
                for s2, k2, v2 in self.call(s, o.default, [], [], [], cx, n):
                    if k2 == 'v':
                        oo = s2.obj(d)
                        s2.put(d, oo.but(items=oo.items + ((key, v2),)))
                    out.append((s2, k2, v2))
                return out
            return [(s, 'x', ('xinst', 'KeyError', (show(fk),)))]
        if fk in o.dels or (not o.base and not maybe):
            return missing(st)
        if not o.base and len(maybe) <= 8:
            pend = [st]
            out = []
            for k, v in maybe:
                nxt = []
                for s in pend:
                    for s2, b in self.br(s, mk_eq(s.freeze(k), fk)):
                        if b:
                            out.append((s2, 'v', v))
                        else:
                            nxt.append(s2)
                pend = nxt
            for s in pend:
                if default is None and o.default is None and not self.catches(cx, 'KeyError', 'LookupError') \
                   and not self.dict_exact:
                    continue
                out += missing(s)
            if not out:
                return [(st, 'v', ('item', st.freeze(d), fk))]
            return out
        if o.default is not None and o.base == () and not maybe:
            return missing(st)
        if o.default is not None and any(b[0] == 'many' for b in o.base) and default is None:
            # a defaultdict filled in a loop: the entry for this key
            return [(st, 'v', ('item', st.freeze(d), fk))]
        if len(o.base) == 1 and o.base[0][0] == 'all' and not maybe:
            t = o.base[0][1]
            if default is None and o.default is None and not self.catches(cx, 'KeyError', 'LookupError'):
                return [(st, 'v', st.mkitem(t, fk))]
            out = []
            for s, b in self.br(st, mk_in(fk, t)):
                out += [(s, 'v', s.mkitem(t, fk))] if b else missing(s)
            return out
        t = st.freeze(d)
        if default is None:
            return [(st, 'v', ('item', t, fk))]
        out = []
        for s, b in self.br(st, mk_in(fk, t)):
            out += [(s, 'v', ('item', t, fk))] if b else missing(s)
        return out

    dict_exact = False

    def d_set(self, st, d, key, val):
        o = st.obj(d)
        fk = st.freeze(key)
        items = []
        done = False
        for k, v in o.items:
            if st.freeze(k) == fk:
                items.append((k, val))
                done = True
            else:
                items.append((k, v))
        if not done:
            items.append((key, val))
        st.put(d, o.but(items=tuple(items), dels=o.dels - {fk}))

    def setitem(self, st, v, key, val, cx, n):
        if st.is_ref(v, I):
            o = st.obj(v)
            f = self.find_method(o.cls, '__setitem__')
            if f is not None:
                return [(s, 'next', None) if k == 'v' else (s, 'exc', x) for s, k, x in
                        self.call(st, self.bind(f, v, o.cls), [key, val], [], [], cx, n)]
        d = self.content(st, v)
        loc = (n.file, n.line)
        if d is not None:
            self.d_set(st, d, key, val)
            if d[1] < self.mark:
                owner = v if st.is_ref(v, I) else d
                st.emit(Ev('setitem', 'setitem', (owner, st.freeze(key), st.freeze(val)), (), None, loc))
                st.facts.pop(('truth', v), None)
            return [(st, 'next', None)]
        if st.is_ref(v, L):
            o = st.obj(v)
            if o.exact() and is_num(key) and -len(o.segs) <= key[2] < len(o.segs):
                segs = list(o.segs)
                segs[key[2]] = ('one', val)
                st.put(v, L(o.kind, segs))
            elif key == ('slice', NONE, NONE, NONE):
                st.put(v, L(o.kind, self.segs_of(st, val)))
            else:
                st.put(v, L(o.kind, [('all', ('hv', 'list', n.uid))]))
            self.mutated(st, v, 'setitem', (key, val), n)
            return [(st, 'next', None)]
        fk, fv = st.freeze(key), st.freeze(val)
        st.emit(Ev('setitem', 'setitem', (v, fk, fv), (), None, loc))
        keep = {k: x for k, x in st.store.items()
                if not (k[0] == v and not (is_c(k[1]) and is_c(fk) and k[1] != fk))}
        st.bump(v)
        for k, x in keep.items():
            st.store[k] = x
        st.store[(v, fk)] = val
        st.facts[mk_in(fk, v)] = True
        return [(st, 'next', None)]

    def delitem(self, st, v, key, cx, n):
        d = self.content(st, v)
        loc = (n.file, n.line)
        fk = st.freeze(key)
        if st.is_ref(v, I) and d is None:
            f = self.find_method(st.obj(v).cls, '__delitem__')
            if f is not None:
                return [(s, 'next', None) if k == 'v' else (s, 'exc', x) for s, k, x in
                        self.call(st, self.bind(f, v, st.obj(v).cls), [key], [], [], cx, n)]
        if d is not None:
            o = st.obj(d)
            st.put(d, o.but(items=tuple((k, x) for k, x in o.items if st.freeze(k) != fk),
                            dels=o.dels | {fk}))
            if d[1] < self.mark:
                st.emit(Ev('delitem', 'delitem', (v, fk), (), None, loc))
            return [(st, 'next', None)]
        if st.is_ref(v, L):
            o = st.obj(v)
            if o.exact() and is_num(key) and -len(o.segs) <= key[2] < len(o.segs):
                segs = list(o.segs)
                del segs[key[2]]
                st.put(v, L(o.kind, segs))
            else:
                st.put(v, L(o.kind, [('all', ('hv', 'list', n.uid))]))
            self.mutated(st, v, 'delitem', (key,), n)
            return [(st, 'next', None)]
        st.emit(Ev('delitem', 'delitem', (v, fk), (), None, loc))
        st.bump(v)
        st.facts[mk_in(fk, v)] = False
        return [(st, 'next', None)]

    def mutated(self, st, ref, name, args, n):
        """a list or set was changed: an effect if it existed before"""
        if ref[1] < self.mark:
            st.emit(Ev('mut', name, (ref,) + tuple(st.freeze(a) for a in args), (), None, (n.file, n.line)))

    # ------------------------------------------------------------ calls
    def call(self, st, f, args, kw, star, cx, n):
        k = f[0]
        if k == 'func':
            return self.call_func(st, f, args, kw, star, cx, n)
        if k == 'bound':
            return self.call(st, f[1], [f[2]] + args, kw, star, cx, n)
        if k == 'cls':
            return self.instantiate(st, f[1], args, kw, star, cx, n)
        if k == 'cmeth' or k == 'smeth' or k == 'prop':
            return self.call(st, f[1], args, kw, star, cx, n)
        if k == 'meth':
            return self.call_meth(st, f[1], f[2], args, kw, star, cx, n)
        if k == 'ext':
            return self.call_ext(st, f[1], args, kw, star, cx, n)
        if k == 'attr':
            return self.call_opaque_meth(st, f[1], f[2], args, kw, star, cx, n)
        if k == 'call' and f[1] == 'functools.partial':
            return self.call(st, f[2][0], list(f[2][1:]) + args, list(f[3]) + kw, star, cx, n)
        if k == 'call' and f[1] in ('operator.itemgetter', 'operator.attrgetter') and len(f[2]) == 1 and len(args) == 1:
            if f[1] == 'operator.itemgetter':
                return self.getitem(st, args[0], f[2][0], cx, n)
            return self.getattr_(st, args[0], f[2][0][2], cx, n)
        if k == 'call' and f[1] == 'operator.methodcaller' and args:
            out = []
            for s, k2, m in self.getattr_(st, args[0], f[2][0][2], cx, n):
                out += self.call(s, m, list(f[2][1:]), list(f[3]), [], cx, n) if k2 == 'v' else [(s, k2, m)]
            return out
        if st.is_ref(f, I):
            m = self.find_method(st.obj(f).cls, '__call__')
            if m is not None:
                return self.call(st, self.bind(m, f, st.obj(f).cls), args, kw, star, cx, n)
        if f == NONE:
            return [(st, 'x', ('xinst', 'TypeError', ()))]
        # an unknown callable
        return self.opaque_call(st, '()', [f] + args, kw, star, cx, n, ('?',), False)

    def freeze_args(self, st, args, kw, star):
        a = tuple(st.freeze(x) for x in args)
        k = tuple(sorted((x, st.freeze(y)) for x, y in kw))
        for s in star:
            d = self.content(st, s)
            if d is not None and not st.obj(d).base:
                k = tuple(sorted(k + tuple((kk[2] if is_str(kk) else kk, st.freeze(vv))
                                           for kk, vv in st.obj(d).items)))
            else:
                k = k + (('**', st.freeze(s)),)
        return a, k

    def may_fail(self, name):
        return self.raises and not self.booting and (self.raises_only is None or name in self.raises_only)

    def opaque_call(self, st, name, args, kw, star, cx, n, raises, fs, result=None):
        a, k = self.freeze_args(st, args, kw, star)
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, st, a, k, cx, n)
            if r is not None:
                return r
        self.calls_seen.add((n.file, n.line, name))
        key = ('call', name, a, k)
        c = st.cnt.get(key, 0)
        st.cnt[key] = c + 1
        res = ('call', name, a, k, c) if result is None else result
        ev = Ev('call', name, a, k, ('call', name, a, k, c), (n.file, n.line))
        st.emit(ev)
        if fs:
            st.fsv += 1
        # containers handed to unknown code may change
        out = []
        if self.may_fail(name):
            if name == '.read' and a and any(x[:1] == ('call',) and x[1].startswith('requests.')
                                             for x in subterms(a[0]) if isinstance(x, tuple) and len(x) > 1
                                             and isinstance(x[1], str)):
                raises = tuple(raises) + ('requests.packages.urllib3.exceptions.HTTPError',)
            for e in raises:
                s2 = st.copy()
                s2.emit(Ev('failed', name, a, k, None, (n.file, n.line)))
                out.append((s2, 'x', ('xinst', e, ())))
        return [(st, 'v', res)] + out

    def call_func(self, st, f, args, kw, star, cx, n):
        fi = self.funcs[f[1]]
        qual = fi.qual
        h = self.hooks.get(qual)
        if h is not None:
            a, k = self.freeze_args(st, args, kw, star)
            r = h(self, st, a, k, cx, n)
            if r is not None:
                return r
        if qual in self.opaque or fi.name in self.opaque and False:
            return self.opaque_repo(st, fi, f, args, kw, star, cx, n)
        if f[1] in cx.stack or len(cx.stack) >= self.max_depth:
            return self.opaque_repo(st, fi, f, args, kw, star, cx, n)
        self.inlined[qual] = self.inlined.get(qual, 0) + 1
        b = self.bind_args(st, fi, f[3], args, kw, star, cx, n)
        if b is None:
            return [(st, 'x', ('xinst', 'TypeError', (qual,)))]
        vars_ = b
        globs = frozenset(x for s in own(fi) if s.t == 'Global' for x in s.names)
        if fi.is_gen:
            vars_['<yield>'] = st.new(L('list'))
        ref = st.new(F(vars_, f[2]))
        cx2 = Cx_(frame=ref[1], module=fi.module, cls=fi.cls, fn=fi, stack=cx.stack + (f[1],),
                  frames=cx.frames + (cx.frame,), catch=cx.catch, exc=None, globals=globs)
        node = fi.node
        out = []
        if node.t == 'Lambda':
            return self.ev(node.body, st, cx2)
        for s, k, v in self.block(node.body, st, cx2):
            if k == 'exc':
                out.append((s, 'x', v))
            elif fi.is_gen:
                out.append((s, 'v', vars_['<yield>']))
            elif k == 'ret':
                out.append((s, 'v', v))
            else:
                out.append((s, 'v', NONE))
        return self.merge_vals(out, cx)

    def merge_vals(self, outs, cx):
        if len(outs) < 3:
            return outs
        seen = set()
        res = []
        for s, k, v in outs:
            if k == 'v':
                key = (s.canon(self.roots(cx) + (v,)), s.trace, s.path)
                if key in seen:
                    continue
                seen.add(key)
            res.append((s, k, v))
        return res

    def opaque_repo(self, st, fi, f, args, kw, star, cx, n):
        """a repository function analysed elsewhere (or recursively): an effect"""
        # positional form, so that keyword and positional calls look alike
        b = self.bind_args(st, fi, f[3], args, kw, star, cx, n)
        if b is not None and not fi.vararg and not fi.kwarg:
            args = [b[p] for p in fi.params if isinstance(p, str)]
            kw, star = [], []
        return self.opaque_call(st, fi.qual, args, kw, star, cx, n, ('?',), True)

    def bind_args(self, st, fi, defaults, args, kw, star, cx, n):
        params = fi.params
        vars_ = {}
        args = list(args)
        if any(a[0] == 'star' for a in args):
            # f(*unknown): parameters become its items
            i = [a[0] for a in args].index('star')
            sv = args[i][1]
            args = args[:i] + [st.mkitem(sv, const(j)) for j in range(len(params) - i)] \
                if not fi.vararg else args
        if len(args) > len(params) and not fi.vararg:
            return None
        for p, a in zip(params, args):
            if isinstance(p, str):
                vars_[p] = a
            else:
                for e, x in zip(p.elts, self.unpack(a, len(p.elts), st, cx)[0][2]):
                    vars_[e.id] = x
        extra = args[len(params):]
        if fi.vararg:
            if any(a[0] == 'star' for a in extra):
                segs = []
                for a in extra:
                    segs += [('all', a[1])] if a[0] == 'star' else [('one', a)]
                vars_[fi.vararg] = ('L', 'tuple', tuple(segs)) if len(segs) > 1 or segs[0][0] == 'one' else segs[0][1]
            else:
                vars_[fi.vararg] = ('tup',) + tuple(extra)
        rest = []
        for k, v in kw:
            if k in params:
                if k in vars_:
                    return None
                vars_[k] = v
            elif fi.kwarg:
                rest.append((const(k), v))
            else:
                return None
        base = []
        for s in star:
            d = self.content(st, s)
            if d is not None and not st.obj(d).base:
                for k, v in st.obj(d).items:
                    if is_str(k) and k[2] in params:
                        vars_[k[2]] = v
                    elif fi.kwarg:
                        rest.append((k, v))
                    else:
                        return None
            else:
                if d is not None:
                    rest += list(st.obj(d).items)
                    base += list(st.obj(d).base)
                    t = st.freeze(s)
                else:
                    base.append(('all', s))
                    t = s
                for p in params:
                    if isinstance(p, str) and p not in vars_:
                        vars_[p] = st.mkitem(t, const(p))
        if fi.kwarg:
            vars_[fi.kwarg] = st.new(D(rest, base))
        nd = len(defaults)
        for i, p in enumerate(params):
            if isinstance(p, str) and p not in vars_:
                j = i - (len(params) - nd)
                if j < 0:
                    return None
                vars_[p] = defaults[j]
        return vars_

    def instantiate(self, st, q, args, kw, star, cx, n):
        h = self.hooks.get(q)
        if h is not None:
            a, k = self.freeze_args(st, args, kw, star)
            r = h(self, st, a, k, cx, n)
            if r is not None:
                return r
        m = self.mro(q)
        new = self.find_method(q, '__new__')
        ref = st.new(I(q, {}))
        if 'dict' in m or 'collections.defaultdict' in m:
            d = st.new(D())
            st.put(ref, I(q, {}, d[1]))
        init = self.find_method(q, '__init__')
        if init is not None:
            out = []
            for s, k, v in self.call(st, self.bind(init, ref, q), args, kw, star, cx, n):
                out.append((s, 'v', ref) if k == 'v' else (s, k, v))
            return out
        if 'dict' in m:
            self.dict_init(st, st.obj(ref).content, args, kw, star)
        elif args:
            o = st.obj(ref)
            a = dict(o.attrs)
            a['args'] = ('tup',) + tuple(args)
            st.put(ref, I(q, a, o.content))
            if not self.is_exc_class(q) and all(b in self.classes or b == 'object' for b in m):
                return [(st, 'x', ('xinst', 'TypeError', (q,)))]
        return [(st, 'v', ref)]

    def dict_init(self, st, addr, args, kw, star):
        d = ('ref', addr) if not isinstance(addr, tuple) else addr
        for a in args:
            self.dict_update(st, d, a)
        for k, v in kw:
            self.d_set(st, d, const(k), v)
        for s in star:
            self.dict_update(st, d, s)

    def dict_update(self, st, d, a):
        c = self.content(st, a)
        if c is not None:
            o = st.obj(c)
            if o.base:
                t = st.obj(d)
                st.put(d, t.but(base=t.base + tuple(b for b in o.base if b not in t.base),
                                dels=frozenset() if t.base else o.dels))
            for k, v in o.items:
                self.d_set(st, d, k, v)
            return
        segs = self.segs_of(st, a)
        if segs and all(s[0] == 'one' and s[1][0] == 'tup' and len(s[1]) == 3 for s in segs):
            for s in segs:
                self.d_set(st, d, s[1][1], s[1][2])
            return
        if all(s[0] == 'many' and s[1][0] == 'tup' and len(s[1]) == 3 for s in segs) and segs:
            t = st.obj(d)
            st.put(d, t.but(base=t.base + tuple(('many', s[1][1], s[1][2], s[2], s[3]) for s in segs)))
            return
        if segs == [] or a == NONE:
            return
        t = st.obj(d)
        # known keys may be overwritten by unknown ones
        items = t.items
        b = ('all', a)
        if items:
            # keep known values only where the update cannot reach them
            st.put(d, D((), ((('all', st.freeze(d)),) if items or t.base else ()) + (b,), frozenset(), t.default))
        else:
            st.put(d, t.but(base=t.base + ((b,) if b not in t.base else ()), dels=frozenset()))


def own(fi):
    from .absint import own_nodes
    return own_nodes(fi.node) if fi.node.t == 'FunctionDef' else ()


def Cx_(**kw):
    from .absint import Cx
    return Cx(**kw)
