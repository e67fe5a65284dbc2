"""Builtin and library functions."""
from .pyast import AnalysisError
from .terms import *
from .terms import Ev
from .state import *
from .state import L, D, I, F
from .exprs import src, mk_fmt
from . import model

COLL = {'list': 'list', 'tuple': 'tuple', 'set': 'set', 'frozenset': 'set', 'collections.deque': 'list'}
OPER = {'operator.eq': 'Eq', 'operator.ne': 'NotEq', 'operator.lt': 'Lt', 'operator.gt': 'Gt',
        'operator.le': 'LtE', 'operator.ge': 'GtE'}
IGNORED = ('logging.', 'warnings.warn')


class Library(object):

    def call_ext(self, st, name, args, kw, star, cx, n):
        h = self.hooks.get(name)
        if h is not None:
            a, k = self.freeze_args(st, args, kw, star)
            r = h(self, st, a, k, cx, n)
            if r is not None:
                return r
        m = getattr(self, 'x_' + name.replace('.', '_'), None)
        if m is not None:
            r = m(st, args, kw, cx, n) if not star else None
            if r is not None:
                return r
        if name in OPER and len(args) == 2:
            return self.compare(st, OPER[name], args[0], args[1], cx, n)
        if name in COLL and len(args) <= 1 and not kw:
            return self.x_coll(st, COLL[name], args, cx, n)
        if name.startswith('dict.') and args and self.content(st, args[0]) is not None:
            return self.super_meth(st, ('superobj', args[0], 'dict'), name[5:], args[1:], kw, star, cx, n)
        if name in ('object.__init__', 'Exception.__init__', 'dict.__init__') and args:
            return self.super_meth(st, ('superobj', args[0], name.split('.')[0]), '__init__', args[1:], kw, star, cx, n)
        if name == 'object.__setattr__' and len(args) == 3:
            return self.super_meth(st, ('superobj', args[0], 'object'), '__setattr__', args[1:], kw, star, cx, n)
        if name == 'object' and not args:
            return [(st, 'v', st.new(I('object', {})))]
        if name.startswith('str.') and args:
            return self.getcall(st, args[0], name[4:], args[1:], kw, star, cx, n)
        if name in ('collections.OrderedDict',):
            return self.x_dict(st, args, kw, cx, n)
        if name == 'SystemExit':
            return [(st, 'v', ('xinst', name, tuple(st.freeze(a) for a in args)))]
        if name in model.EXC or name in model.CANON_EXC:
            return [(st, 'v', ('xinst', model.CANON_EXC.get(name, name), ()))]
        if name.startswith('os.environ.'):
            return self.call_opaque_meth(st, ('ext', 'os.environ'), name[11:], args, kw, star, cx, n)
        if name.startswith(('sys.stdout.', 'sys.stderr.')):
            if name.endswith('.write'):
                st.emit(Ev('print', 'write', tuple(st.freeze(a) for a in args), (), None, (n.file, n.line)))
            return [(st, 'v', NONE)]
        if name in model.EXITS:
            st.emit(Ev('call', name, tuple(st.freeze(a) for a in args), (), None, (n.file, n.line)))
            return [(st, 'x', ('xinst', 'SystemExit', tuple(st.freeze(a) for a in args)))]
        args, kw = model.positional(name, args, kw)
        if name in model.FSREAD:
            a, k = self.freeze_args(st, args, kw, star)
            t = ('call', name, a, k, st.fsv)
            out = [(st, 'v', t)]
            if self.may_fail(name):
                for e in model.FSREAD[name]:
                    s2 = st.copy()
                    s2.emit(Ev('failed', name, a, k, None, (n.file, n.line)))
                    out.append((s2, 'x', ('xinst', e, ())))
            return out
        if name.startswith('hashlib.'):
            a, k = self.freeze_args(st, args, kw, star)
            return self.new_hash(st, name, a)
        if name == 'StringIO':
            key = ('StringIO',)
            c = st.cnt.get(key, 0)
            st.cnt[key] = c + 1
            return [(st, 'v', call(name, tuple(st.freeze(a) for a in args), (), c))]
        if name in model.PURE:
            a, k = self.freeze_args(st, args, kw, star)
            return [(st, 'v', ('call', name, a, k, 0))]
        if name in model.ACT:
            exc, fs = model.ACT[name]
            return self.opaque_call(st, name, args, kw, star, cx, n, exc, fs)
        if name.startswith('logging.') or name == 'warnings.warn':
            return [(st, 'v', ('call', name, (), (), 0))]
        return self.opaque_call(st, name, args, kw, star, cx, n, ('?',), True)

    def new_hash(self, st, name, a):
        key = ('hash', name)
        c = st.cnt.get(key, 0)
        st.cnt[key] = c + 1
        data = a
        if name == 'hashlib.new':
            nm = a[:1]
            data = a[1:]
            if is_str(nm[0]):
                name, nm = 'hashlib.' + nm[0][2], ()
            t = call(name, nm, (), c)
        else:
            t = call(name, (), (), c)
        if data:
            st.mlog[t] = tuple(data)
        return [(st, 'v', t)]

    def getcall(self, st, v, name, args, kw, star, cx, n):
        out = []
        for s, k, m in self.getattr_(st, v, name, cx, n):
            out += self.call(s, m, args, kw, star, cx, n) if k == 'v' else [(s, k, m)]
        return out

    # ------------------------------------------------------ collections
    def x_coll(self, st, kind, args, cx, n):
        if not args:
            return [(st, 'v', ('tup',) if kind == 'tuple' else st.new(L(kind)))]
        a = args[0]
        if st.is_ref(a, I) and st.obj(a).content is None:
            f = self.find_method(st.obj(a).cls, '__iter__')
            if f is not None:
                out = []
                for s, k, v in self.call(st, self.bind(f, a, st.obj(a).cls), [], [], [], cx, n):
                    out += self.x_coll(s, kind, [v], cx, n) if k == 'v' else [(s, k, v)]
                return out
        segs = list(self.segs_of(st, a))
        if kind == 'tuple' and all(g[0] == 'one' for g in segs):
            return [(st, 'v', ('tup',) + tuple(g[1] for g in segs))]
        if kind == 'set':
            new = []
            for g in segs:
                if g not in new:
                    new.append(g)
            segs = new
        if cname(a) in ('sorted', 'reversed') and kind == 'list':
            return [(st, 'v', a)]
        return [(st, 'v', st.new(L(kind, segs)))]

    cur_cx = None

    def x_dict(self, st, args, kw, cx, n):
        d = st.new(D())
        self.dict_init(st, d, args, kw, [])
        return [(st, 'v', d)]

    def x_collections_defaultdict(self, st, args, kw, cx, n):
        d = st.new(D(default=args[0] if args and args[0] != NONE else None))
        self.dict_init(st, d, args[1:], kw, [])
        return [(st, 'v', d)]

    def x_len(self, st, args, kw, cx, n):
        v = args[0]
        if is_str(v):
            return [(st, 'v', const(len(v[2])))]
        if v[0] == 'tup':
            return [(st, 'v', const(len(v) - 1))]
        if st.is_ref(v, L) and st.obj(v).exact() and st.obj(v).kind != 'set':
            return [(st, 'v', const(len(st.obj(v).segs)))]
        d = self.content(st, v)
        if d is not None and not st.obj(d).base and all(is_c(k) for k, x in st.obj(d).items):
            return [(st, 'v', const(len(st.obj(d).items)))]
        if st.is_ref(v, I):
            f = self.find_method(st.obj(v).cls, '__len__')
            if f is not None:
                return self.call(st, self.bind(f, v, st.obj(v).cls), [], [], [], cx, n)
        return [(st, 'v', call('len', (st.freeze(v),)))]

    def x_reversed(self, st, args, kw, cx, n):
        v = args[0]
        segs = self.segs_of(st, v)
        if all(g[0] == 'one' for g in segs):
            return [(st, 'v', st.new(L('list', segs[::-1])))]
        return [(st, 'v', call('reversed', (st.freeze(v),)))]

    def x_sorted(self, st, args, kw, cx, n):
        v = args[0]
        if st.is_ref(v, I):
            return None
        k = dict(kw)
        for i, nm in ((1, 'cmp'), (2, 'key'), (3, 'reverse')):
            if len(args) > i:
                k[nm] = args[i]
        k = {a: b for a, b in k.items() if not (a in ('cmp', 'key') and b == NONE
                                               or a == 'reverse' and b == FALSE)}
        segs = self.segs_of(st, v)
        if len(segs) <= 1 and all(g[0] == 'one' for g in segs):
            return [(st, 'v', st.new(L('list', segs)))]
        fv = st.freeze(v)
        while cname(fv) in ('list', 'tuple', 'set', 'frozenset') and fv[2]:
            fv = fv[2][0]
        if fv[0] == 'L' and fv[1] != 'set':
            fv = ('L', 'list', fv[2])
        return [(st, 'v', call('sorted', (fv,), sorted((a, st.freeze(b)) for a, b in k.items())))]

    def each(self, st, coll, f, kind, cx, n, keep=None):
        """result of applying f to every element"""
        res = st.new(L(kind))
        cx2 = self.comp_frame(st, cx)
        st.put(cx2.frame, F({'<result>': res, '<coll>': coll}, cx.frame))
        out = []

        def body(s):
            v = s.obj(cx2.frame).vars['<x>']
            outs = []
            for s2, k, r in f(s, v, cx2):
                if k == 'x':
                    outs.append((s2, 'exc', r))
                    continue
                if r is not None:
                    o = s2.obj(res)
                    s2.put(res, L(o.kind, o.segs + (('one', r),)))
                outs.append((s2, 'next', None))
            return outs

        def bind(s, e):
            fr = s.obj(cx2.frame)
            d = dict(fr.vars)
            d['<x>'] = e
            s.put(cx2.frame, F(d, fr.parent))
            return [(s, 'next', None)]
        for s, k, v in self.for_value(st, cx2, coll, bind, body, n, None):
            out.append((s, 'v', res) if k == 'next' else (s, 'x', v))
        return out

    def x_map(self, st, args, kw, cx, n):
        if len(args) != 2 or args[0] == NONE:
            return None
        return self.each(st, args[1], lambda s, v, c: self.call(s, args[0], [v], [], [], c, n), 'list', cx, n)

    def x_filter(self, st, args, kw, cx, n):
        if len(args) != 2:
            return None

        def f(s, v, c):
            if args[0] == NONE:
                rs = [(s, 'v', v)]
            else:
                rs = self.call(s, args[0], [v], [], [], c, n)
            out = []
            for s2, k, r in rs:
                if k == 'x':
                    out.append((s2, k, r))
                    continue
                for s3, k3, t in self.truth(s2, r, c, n):
                    if k3 == 'x':
                        out.append((s3, k3, t))
                        continue
                    for s4, b in self.br(s3, t):
                        out.append((s4, 'v', v if b else None))
            return out
        return self.each(st, args[1], f, 'list', cx, n)

    def x_zip(self, st, args, kw, cx, n):
        segs = [self.segs_of(st, a) for a in args]
        if segs and all(g[0] == 'one' for s in segs for g in s):
            return [(st, 'v', st.new(L('list', [('one', ('tup',) + tuple(g[1] for g in r))
                                                for r in zip(*segs)])))]
        return [(st, 'v', call('zip', tuple(st.freeze(a) for a in args)))]

    def x_enumerate(self, st, args, kw, cx, n):
        segs = self.segs_of(st, args[0])
        if all(g[0] == 'one' for g in segs) and len(args) == 1:
            return [(st, 'v', st.new(L('list', [('one', tup(const(i), g[1])) for i, g in enumerate(segs)])))]
        return [(st, 'v', call('enumerate', tuple(st.freeze(a) for a in args)))]

    def x_range(self, st, args, kw, cx, n):
        if all(is_num(a) for a in args) and args:
            r = range(*[a[2] for a in args])
            if len(r) <= 40:
                return [(st, 'v', st.new(L('list', [('one', const(i)) for i in r])))]
        return None

    def x_quant(self, which, st, args, kw, cx, n):
        want = which == 'any'

        def body(s):
            v = s.obj(cx2.frame).vars['<x>']
            out = []
            for s2, k, t in self.truth(s, v, cx2, n):
                if k == 'x':
                    out.append((s2, 'exc', t))
                    continue
                for s3, b in self.br(s2, t):
                    out.append((s3, 'ret', const(want)) if b == want else (s3, 'next', None))
            return out
        cx2 = self.comp_frame(st, cx)

        def bind(s, e):
            s.put(cx2.frame, F({'<x>': e}, cx.frame))
            return [(s, 'next', None)]
        out = []
        for s, k, v in self.for_value(st, cx2, args[0], bind, body, n, None):
            out.append((s, 'x', v) if k == 'exc' else (s, 'v', v if k == 'ret' else const(not want)))
        return out

    def x_any(self, st, args, kw, cx, n):
        return self.x_quant('any', st, args, kw, cx, n)

    def x_all(self, st, args, kw, cx, n):
        return self.x_quant('all', st, args, kw, cx, n)

    def x_iter(self, st, args, kw, cx, n):
        if len(args) == 1:
            if st.is_ref(args[0], L):
                return [(st, 'v', st.new(L('list', st.obj(args[0]).segs)))]
            return [(st, 'v', args[0])]
        return [(st, 'v', call('iter', tuple(st.freeze(a) for a in args)))]

    def x_next(self, st, args, kw, cx, n):
        v = args[0]
        outs = []
        if st.is_ref(v, L):
            outs = self.next_(st, v, cx, n)
        else:
            fv = st.freeze(v)
            s2 = st.copy()
            outs = [(st, 'v', ('item', src(fv), const(0))), (s2, 'x', ('xinst', 'StopIteration', ()))]
        if len(args) > 1:
            return [(s, 'v', r) if k == 'v' else (s, 'v', args[1]) for s, k, r in outs]
        return outs

    def x_minmax(self, which, st, args, kw):
        k = dict(kw)
        if len(args) == 1:
            segs = self.segs_of(st, args[0])
            if len(segs) == 1 and segs[0][0] == 'one':
                return [(st, 'v', segs[0][1])]
            a = (src(st.freeze(args[0])),)
        else:
            a = tuple(st.freeze(x) for x in args)
        return [(st, 'v', call(which, a, sorted((x, st.freeze(y)) for x, y in k.items())))]

    def x_max(self, st, args, kw, cx, n):
        return self.x_minmax('max', st, args, kw)

    def x_min(self, st, args, kw, cx, n):
        return self.x_minmax('min', st, args, kw)

    # ------------------------------------------------------------ types
    def x_isinstance(self, st, args, kw, cx, n):
        v, T = args
        fv = st.freeze(v) if not st.is_ref(v, (L, D)) else v
        types = list(T[1:]) if T[0] == 'tup' else [T]
        if any(t[0] not in ('cls', 'ext') for t in types):
            return [(st, 'v', ('isinst', st.freeze(v), T))]
        rs = [self.isinst_facts(st, fv, t) for t in types]
        if True in rs:
            return [(st, 'v', TRUE)]
        unk = [t for t, r in zip(types, rs) if r is None]
        if not unk:
            return [(st, 'v', FALSE)]
        if len(unk) == 1:
            return [(st, 'v', ('isinst', fv, unk[0]))]
        out = []
        pend = [st]
        for t in unk:
            nxt = []
            for s in pend:
                for s2, b in self.br(s, ('isinst', fv, t)):
                    if b:
                        out.append((s2, 'v', TRUE))
                    else:
                        nxt.append(s2)
            pend = nxt
        return out + [(s, 'v', FALSE) for s in pend]

    def x_issubclass(self, st, args, kw, cx, n):
        a, b = args
        if a[0] == 'cls' and b[0] in ('cls', 'ext'):
            return [(st, 'v', const(self.is_sub(a[1], b[1])))]
        t = call('issubclass', (st.freeze(a), st.freeze(b)))
        if self.catches(cx, 'TypeError'):
            s2 = st.copy()
            return [(st, 'v', t), (s2, 'x', ('xinst', 'TypeError', ()))]
        return [(st, 'v', t)]

    def x_hasattr(self, st, args, kw, cx, n):
        v, a = args
        if v[0] == 'ref' and is_str(a):
            if st.is_ref(v, I):
                o = st.obj(v)
                if a[2] in o.attrs or self.find_method(o.cls, a[2]) is not None:
                    return [(st, 'v', TRUE)]
                g = self.find_method(o.cls, '__getattr__')
                if g is not None:
                    out = []
                    for s, k, r in self.call(st, self.bind(g, v, o.cls), [a], [], [], cx, n):
                        out.append((s, 'v', const(k == 'v')))
                    return out
                if '*' in o.attrs:
                    return [(st, 'v', ('hasattr', v, a))]
                return [(st, 'v', FALSE)]
            return [(st, 'v', FALSE)]
        if term_type(v) in ('str', 'list', 'dict', 'tuple', 'int', 'bool', 'NoneType'):
            return [(st, 'v', FALSE)]
        return [(st, 'v', ('hasattr', st.freeze(v), st.freeze(a)))]

    def x_vars(self, st, args, kw, cx, n):
        return self.getattr_(st, args[0], '__dict__', cx, n) if len(args) == 1 else None

    def x_getattr(self, st, args, kw, cx, n):
        v, a = args[:2]
        if not is_str(a):
            return [(st, 'v', call('getattr', (st.freeze(v), st.freeze(a))))]
        if len(args) == 3:
            if v[0] == 'ref':
                out = []
                for s, k, r in self.getattr_(st, v, a[2], cx, n):
                    if k == 'x' and 'AttributeError' in self.exc_mro(self.exc_class(s, r)):
                        out.append((s, 'v', args[2]))
                    else:
                        out.append((s, k, r))
                return out
            if v[0] in ('cls', 'mod', 'func', 'ext'):
                return self.getattr_(st, v, a[2], cx, n)
            out = []
            for s, b in self.br(st, ('hasattr', st.freeze(v), a)):
                out += self.getattr_(s, v, a[2], cx, n) if b else [(s, 'v', args[2])]
            return out
        return self.getattr_(st, v, a[2], cx, n)

    def x_setattr(self, st, args, kw, cx, n):
        v, a, x = args
        if not is_str(a):
            st.emit(Ev('setattr', '?', (st.freeze(v), st.freeze(a), st.freeze(x)), (), None, (n.file, n.line)))
            return [(st, 'v', NONE)]
        return [(s, 'v', NONE) if k == 'next' else (s, 'x', r)
                for s, k, r in self.setattr_(st, v, a[2], x, cx, n)]

    def x_super(self, st, args, kw, cx, n):
        return [(st, 'v', ('super', args[0][1], args[1]))]

    def x_type(self, st, args, kw, cx, n):
        if len(args) == 1 and st.is_ref(args[0], I):
            return [(st, 'v', ('cls', st.obj(args[0]).cls))]
        return None

    def x_callable(self, st, args, kw, cx, n):
        if args[0][0] in ('func', 'bound', 'cls', 'meth'):
            return [(st, 'v', TRUE)]
        return None

    def x_str(self, st, args, kw, cx, n):
        if not args:
            return [(st, 'v', const(''))]
        out = []
        for s, k, v in self.to_str(st, args[0], cx, n):
            if k == 'v':
                v = v if v[0] in ('fmt', 'c') or term_type(v) == 'str' else call('str', (v,))
            out.append((s, k, v))
        return out

    def x_repr(self, st, args, kw, cx, n):
        return [(st, 'v', call('repr', (st.freeze(args[0]),)))]

    def x_bool(self, st, args, kw, cx, n):
        if not args:
            return [(st, 'v', FALSE)]
        out = []
        for s, k, t in self.truth(st, args[0], cx, n):
            if k == 'x':
                out.append((s, k, t))
                continue
            kn = s.known(t)
            if kn is not None:
                out.append((s, 'v', const(kn)))
            else:
                a, pol = s.atom(t)
                out.append((s, 'v', a if pol and a[0] in BOOLKINDS else mk_not(a) if not pol else ('truth', a)))
        return out

    def x_operator_not_(self, st, args, kw, cx, n):
        out = []
        for s, k, v in self.x_bool(st, args, kw, cx, n):
            out.append((s, k, mk_not(v) if k == 'v' else v))
        return out

    def x_int(self, st, args, kw, cx, n):
        if args and is_c(args[0]) and not kw and len(args) == 1:
            try:
                return [(st, 'v', const(int(args[0][2])))]
            except (ValueError, TypeError):
                return [(st, 'x', ('xinst', 'ValueError', ()))]
        t = call('int', tuple(st.freeze(a) for a in args))
        if self.catches(cx, 'ValueError', 'TypeError'):
            s2 = st.copy()
            return [(st, 'v', t), (s2, 'x', ('xinst', 'ValueError', ()))]
        return [(st, 'v', t)]

    def x_operator_contains(self, st, args, kw, cx, n):
        return self.contains(st, args[1], args[0], cx, n)

    def x_operator_add(self, st, args, kw, cx, n):
        return self.binop(n, 'Add', st, args[0], args[1], cx)

    def x_sum(self, st, args, kw, cx, n):
        return [(st, 'v', call('sum', tuple(st.freeze(a) for a in args)))]

    def x_reduce(self, st, args, kw, cx, n):
        segs = self.segs_of(st, args[1])
        if not all(g[0] == 'one' for g in segs):
            return None
        vals = ([args[2]] if len(args) > 2 else []) + [g[1] for g in segs]
        if not vals:
            return None
        states = [(st, 'v', vals[0])]
        for v in vals[1:]:
            nxt = []
            for s, k, a in states:
                nxt += self.call(s, args[0], [a, v], [], [], cx, n) if k == 'v' else [(s, k, a)]
            states = nxt
        return states

    # -------------------------------------------------------- libraries
    def x_os_path_join(self, st, args, kw, cx, n):
        parts = []
        for a in args:
            a = st.freeze(a)
            if cname(a) == 'os.path.join' and not parts:
                parts += list(a[2])
            else:
                parts.append(a)
        if len(parts) > 1:
            # trailing constant relative components are one path
            flat = [parts[0]]
            for p in parts[1:]:
                if is_str(p) and '/' in p[2] and not p[2].startswith('/'):
                    flat += [const(x) for x in p[2].split('/')]
                else:
                    flat.append(p)
            parts = flat
        if len(parts) == 1:
            return [(st, 'v', parts[0])]
        return [(st, 'v', call('os.path.join', tuple(parts)))]

    def x_os_path_split(self, st, args, kw, cx, n):
        a = st.freeze(args[0])
        return [(st, 'v', tup(self.dirname(a), self.basename(a)))]

    def dirname(self, a):
        if cname(a) == 'os.path.join' and len(a[2]) > 1 and self.simple_name(a[2][-1]):
            return call('os.path.join', a[2][:-1]) if len(a[2]) > 2 else a[2][0]
        return call('os.path.dirname', (a,))

    def basename(self, a):
        if cname(a) == 'os.path.join' and len(a[2]) > 1 and self.simple_name(a[2][-1]):
            return a[2][-1]
        return call('os.path.basename', (a,))

    def simple_name(self, p):
        return is_str(p) and '/' not in p[2]

    def x_os_path_dirname(self, st, args, kw, cx, n):
        return [(st, 'v', self.dirname(st.freeze(args[0])))]

    def x_os_path_basename(self, st, args, kw, cx, n):
        return [(st, 'v', self.basename(st.freeze(args[0])))]

    def x_os_environ_get(self, st, args, kw, cx, n):
        return self.call_opaque_meth(st, ('ext', 'os.environ'), 'get', args, kw, [], cx, n)

    def x_os_getenv(self, st, args, kw, cx, n):
        return self.call_opaque_meth(st, ('ext', 'os.environ'), 'get', args, kw, [], cx, n)

    def x_functools_partial(self, st, args, kw, cx, n):
        return [(st, 'v', ('call', 'functools.partial', tuple(args), tuple(kw), 0))]

    def x_functools_wraps(self, st, args, kw, cx, n):
        return [(st, 'v', ('call', 'functools.wraps', (), (), 0))]

    def x_os_walk(self, st, args, kw, cx, n):
        return None

    def x_itertools_chain(self, st, args, kw, cx, n):
        segs = []
        for a in args:
            segs += self.segs_of(st, a)
        return [(st, 'v', st.new(L('list', segs)))]

    def x_itertools_takewhile(self, st, args, kw, cx, n):
        return None

    def x_copy_copy(self, st, args, kw, cx, n):
        v = args[0]
        if st.is_ref(v, L):
            o = st.obj(v)
            return [(st, 'v', st.new(L(o.kind, o.segs)))]
        if st.is_ref(v, D):
            o = st.obj(v)
            return [(st, 'v', st.new(D(o.items, o.base, o.dels, o.default)))]
        return None

    def x_platform(self, *a):
        return None
