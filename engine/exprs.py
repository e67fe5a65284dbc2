"""Expressions."""
import re
from .pyast import N, AnalysisError
from .terms import *
from .terms import Ev
from .state import *
from .state import L, D, I, F
from . import model

OPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'Mod': '%', 'Pow': '**', 'LShift': '<<',
       'RShift': '>>', 'BitOr': '|', 'BitXor': '^', 'BitAnd': '&', 'FloorDiv': '//'}
DUNDER = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'),
          'Mod': ('__mod__', '__rmod__'), 'BitOr': ('__or__', '__ror__'),
          'BitAnd': ('__and__', '__rand__'), 'Mult': ('__mul__', '__rmul__'),
          'BitXor': ('__xor__', '__rxor__')}
CMP = {'Eq': ('__eq__', '__eq__'), 'NotEq': ('__ne__', '__ne__'), 'Lt': ('__lt__', '__gt__'),
       'Gt': ('__gt__', '__lt__'), 'LtE': ('__le__', '__ge__'), 'GtE': ('__ge__', '__le__')}
SPEC = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d+))?[hlL]?(?P<c>[diouxXeEfFgGcrs%])')


def mk_fmt(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        else:
            if p[0] == 's' and p[1][0] == 'fmt':
                for q in p[1][1]:
                    if isinstance(q, str) and out and isinstance(out[-1], str):
                        out[-1] += q
                    else:
                        out.append(q)
            elif p[0] == 's' and p[1][0] == 'c' and p[1][1] in ('str', 'int'):
                s = str(p[1][2])
                if out and isinstance(out[-1], str):
                    out[-1] += s
                elif s:
                    out.append(s)
            else:
                out.append(p)
    if not out:
        return const('')
    if all(isinstance(p, str) for p in out):
        return const(''.join(out))
    return ('fmt', tuple(out))


class Exprs(object):

    # outcome: (state, 'v', value) or (state, 'x', exception)
    def evs(self, nodes, st, cx):
        res = [(st, [])]
        out = []
        for n in nodes:
            nxt = []
            for s, vals in res:
                for s2, k, v in self.ev(n, s, cx):
                    if k == 'x':
                        out.append((s2, 'x', v))
                    else:
                        nxt.append((s2, vals + [v]))
            res = nxt
        return out + [(s, 'v', vals) for s, vals in res]

    def ev(self, n, st, cx):
        m = getattr(self, 'e_' + n.t, None)
        if m is None:
            raise AnalysisError('%s:%s: expression %s is not supported' % (n.file, n.line, n.t))
        return m(n, st, cx)

    def e_Num(self, n, st, cx):
        return [(st, 'v', const(n.n))]

    def e_Str(self, n, st, cx):
        return [(st, 'v', const(n.s))]

    def e_Index(self, n, st, cx):
        return self.ev(n.value, st, cx)

    def e_Slice(self, n, st, cx):
        parts = [n.lower, n.upper, n.step]
        out = []
        for s, k, v in self.evs([p for p in parts if p is not None], st, cx):
            if k == 'x':
                out.append((s, k, v))
                continue
            it = iter(v)
            out.append((s, 'v', ('slice',) + tuple(next(it) if p is not None else NONE
                                                   for p in parts)))
        return out

    def e_ExtSlice(self, n, st, cx):
        return [(st, 'v', ('hv', 'slice', n.uid))]

    def e_Ellipsis(self, n, st, cx):
        return [(st, 'v', ('hv', 'ellipsis', n.uid))]

    def e_Repr(self, n, st, cx):
        return [(s, k, v if k == 'x' else call('repr', (s.freeze(v),)))
                for s, k, v in self.ev(n.value, st, cx)]

    def e_Name(self, n, st, cx):
        if n.id == 'None':
            return [(st, 'v', NONE)]
        if n.id == 'True':
            return [(st, 'v', TRUE)]
        if n.id == 'False':
            return [(st, 'v', FALSE)]
        v = self.lookup(n.id, st, cx)
        if v is not None:
            return [(st, 'v', v)]
        self.unresolved.append((n.file, n.line, n.id))
        return [(st, 'x', ('xinst', 'NameError', (n.id,)))]

    def lookup(self, name, st, cx):
        a = cx.frame
        if cx.fn is not None and name in cx.globals:
            a = self.modframe[cx.module]
        while a is not None:
            f = st.obj(a)
            if name in f.vars:
                return f.vars[name]
            a = f.parent
        m = st.obj(self.modframe[cx.module])
        if name in m.vars:
            return m.vars[name]
        if name in model.BUILTINS:
            return ('ext', self.alias(name))
        return None

    def e_Tuple(self, n, st, cx):
        return [(s, k, v if k == 'x' else ('tup',) + tuple(v))
                for s, k, v in self.evs(n.elts, st, cx)]

    def e_List(self, n, st, cx):
        return [(s, k, v if k == 'x' else s.new(L('list', [('one', x) for x in v])))
                for s, k, v in self.evs(n.elts, st, cx)]

    def e_Set(self, n, st, cx):
        return [(s, k, v if k == 'x' else s.new(L('set', [('one', x) for x in v])))
                for s, k, v in self.evs(n.elts, st, cx)]

    def e_Dict(self, n, st, cx):
        out = []
        both = [x for p in zip(n.keys, n.values) for x in p]
        for s, k, v in self.evs(both, st, cx):
            if k == 'x':
                out.append((s, k, v))
            else:
                items = {}
                for a, b in zip(v[::2], v[1::2]):
                    items[a] = b
                out.append((s, 'v', s.new(D(items.items()))))
        return out

    def e_Lambda(self, n, st, cx):
        out = []
        for s, k, vals in self.evs(n.args.defaults, st, cx):
            out.append((s, k, vals if k == 'x' else self.make_func(n, vals, s, cx)))
        return out

    def e_BoolOp(self, n, st, cx):
        isand = n.op.t == 'And'
        pend = [st]
        out = []
        for i, e in enumerate(n.values):
            last = i == len(n.values) - 1
            nxt = []
            for s in pend:
                for s2, k, v in self.ev(e, s, cx):
                    if k == 'x' or last:
                        out.append((s2, k, v))
                        continue
                    for s3, k3, t in self.truth(s2, v, cx, n):
                        if k3 == 'x':
                            out.append((s3, k3, t))
                            continue
                        for s4, b in self.br(s3, t):
                            if b == isand:
                                nxt.append(s4)
                            else:
                                out.append((s4, 'v', const(b) if v[0] in BOOLKINDS + ('not',) else v))
            pend = nxt
        return out

    def e_UnaryOp(self, n, st, cx):
        out = []
        for s, k, v in self.ev(n.operand, st, cx):
            if k == 'x':
                out.append((s, k, v))
            elif n.op.t == 'Not':
                for s2, k2, t in self.truth(s, v, cx, n):
                    if k2 == 'x':
                        out.append((s2, k2, t))
                        continue
                    kn = s2.known(t)
                    if kn is not None:
                        out.append((s2, 'v', const(not kn)))
                    else:
                        a, pol = s2.atom(t)
                        out.append((s2, 'v', mk_not(a) if pol else a))
            elif is_num(v):
                x = v[2]
                out.append((s, 'v', const({'USub': lambda: -x, 'UAdd': lambda: +x,
                                           'Invert': lambda: ~x}[n.op.t]())))
            else:
                out.append((s, 'v', call(n.op.t, (v,))))
        return out

    def e_IfExp(self, n, st, cx):
        out = []
        for s, k, b in self.cond(n.test, st, cx):
            if k == 'x':
                out.append((s, k, b))
            else:
                out += self.ev(n.body if b else n.orelse, s, cx)
        return out

    def e_Yield(self, n, st, cx):
        out = []
        res = self.ev(n.value, st, cx) if n.value else [(st, 'v', NONE)]
        for s, k, v in res:
            if k == 'x':
                out.append((s, k, v))
                continue
            ref = s.obj(cx.frame).vars['<yield>']
            o = s.obj(ref)
            s.put(ref, L(o.kind, o.segs + (('one', v),)))
            out.append((s, 'v', NONE))
        return out

    # ---------------------------------------------------- operators
    def e_BinOp(self, n, st, cx):
        out = []
        for s, k, v in self.evs([n.left, n.right], st, cx):
            if k == 'x':
                out.append((s, k, v))
            else:
                out += self.binop(n, n.op.t, s, v[0], v[1], cx)
        return out

    def binop(self, n, op, st, a, b, cx):
        if op in DUNDER:
            for x, y, m in ((a, b, DUNDER[op][0]), (b, a, DUNDER[op][1])):
                if st.is_ref(x, I):
                    f = self.find_method(st.obj(x).cls, m)
                    if f is not None:
                        return self.call(st, self.bind(f, x, st.obj(x).cls), [y], [], [], cx, n)
        if op == 'Mod' and (is_str(a) or a[0] == 'fmt' or term_type(a) == 'str'
                            or not is_num(a) and not is_num(b)):
            return self.percent(n, st, a, b, cx)
        if op == 'Add':
            if is_c(a) and is_c(b):
                if is_num(a) and is_num(b):
                    return [(st, 'v', const(a[2] + b[2]))]
                if is_str(a) and is_str(b):
                    return [(st, 'v', const(a[2] + b[2]))]
            if a[0] == 'tup' and b[0] == 'tup':
                return [(st, 'v', a + b[1:])]
            la = st.is_ref(a, L) or a[0] in ('tup', 'L') or term_type(a) == 'list'
            lb = st.is_ref(b, L) or b[0] in ('tup', 'L') or term_type(b) == 'list'
            if la or lb:
                segs = list(self.segs_of(st, a)) + list(self.segs_of(st, b))
                kind = 'tuple' if a[0] == 'tup' or b[0] == 'tup' else 'list'
                return [(st, 'v', st.new(L(kind, segs)))]
            if 'str' in (term_type(a), term_type(b)):
                return [(st, 'v', mk_fmt([('s', a), ('s', b)]))]
        if is_num(a) and is_num(b):
            try:
                x, y = a[2], b[2]
                r = {'Sub': lambda: x - y, 'Mult': lambda: x * y, 'BitOr': lambda: x | y,
                     'BitAnd': lambda: x & y, 'BitXor': lambda: x ^ y, 'Div': lambda: x // y,
                     'Mod': lambda: x % y, 'Pow': lambda: x ** y, 'LShift': lambda: x << y,
                     'RShift': lambda: x >> y, 'FloorDiv': lambda: x // y}[op]()
                return [(st, 'v', const(r))]
            except (KeyError, ZeroDivisionError):
                pass
        if op in ('Sub', 'BitOr', 'BitAnd') and (st.is_ref(a, L) or a[0] == 'L') and \
           (st.is_ref(b, L) or b[0] == 'L' or op != 'Sub'):
            return [(st, 'v', self.setop(st, op, a, b))]
        if op == 'Mult' and (is_str(a) or is_str(b)):
            x, y = (a, b) if is_str(a) else (b, a)
            if is_num(y):
                return [(st, 'v', const(x[2] * y[2]))]
        return [(st, 'v', call(OPS[op], (st.freeze(a), st.freeze(b))))]

    def setop(self, st, op, a, b):
        sa, sb = list(self.segs_of(st, a)), list(self.segs_of(st, b))
        if op == 'BitOr':
            return st.new(L('set', sa + [s for s in sb if s not in sa]))
        fb = ('L', 'set', tuple(sb))
        if len(sb) == 1 and sb[0][0] == 'all':
            fb = sb[0][1]
        keep = op == 'BitAnd'
        segs = []
        for s in sa:
            if s[0] == 'all':
                e = ('elem', s[1])
                segs.append(('many', e, frozenset([(mk_in(e, fb), keep)]), s[1]))
            elif s[0] == 'many':
                segs.append(('many', s[1], s[2] | frozenset([(mk_in(s[1], fb), keep)]), s[3]))
            else:
                segs.append(('many', s[1], frozenset([(mk_in(s[1], fb), keep)]), ('L', 'list', (s,))))
        return st.new(L('set', segs))

    def percent(self, n, st, a, b, cx):
        fa = a
        if not is_str(fa):
            t = call('%', (a, st.freeze(b)))
            if self.fmt_raises:
                out = [(st.copy(), 'x', ('xinst', e, ())) for e in ('KeyError', 'TypeError', 'ValueError')]
                return out + [(st, 'v', t)]
            if self.catches(cx, 'KeyError', 'TypeError', 'ValueError'):
                s2 = st.copy()
                return [(st, 'v', t), (s2, 'x', ('xinst', '?', ('StopIteration',)))]
            return [(st, 'v', t)]
        parts = []
        pos = 0
        args = list(b[1:]) if b[0] == 'tup' else [b]
        i = 0
        outs = None
        text = fa[2]
        keys = []
        for m in SPEC.finditer(text):
            parts.append(text[pos:m.start()])
            pos = m.end()
            c = m.group('c')
            if c == '%':
                parts.append('%')
                continue
            if m.group('key') is not None:
                keys.append(m.group('key'))
                v = ('KEY', m.group('key'))
            else:
                if i >= len(args):
                    return [(st, 'x', ('xinst', 'TypeError', ()))]
                v = args[i]
                i += 1
            kind = 's' if c == 's' and not m.group('w') and not m.group('p') else 'r' if c == 'r' else '%' + (
                m.group('flags') or '') + (m.group('w') or '') + c
            parts.append((kind, v))
        parts.append(text[pos:])
        if i < len(args) and not keys and b[0] == 'tup':
            return [(st, 'x', ('xinst', 'TypeError', ()))]
        res = [(st, [])]
        out = []
        for p in parts:
            nxt = []
            for s, acc in res:
                if isinstance(p, str):
                    nxt.append((s, acc + [p]))
                elif p[1][0] == 'KEY':
                    for s2, k, v in self.getitem(s, b, const(p[1][1]), cx, n):
                        if k == 'x':
                            out.append((s2, k, v))
                        else:
                            nxt.append((s2, acc + [(p[0], v)]))
                else:
                    nxt.append((s, acc + [p]))
            res = nxt
        for s, acc in res:
            todo = [(s, [])]
            for p in acc:
                nxt = []
                for x, done in todo:
                    if isinstance(p, str):
                        nxt.append((x, done + [p]))
                    elif p[0] == 's':
                        for x2, k, v in self.to_str(x, p[1], cx, n):
                            if k == 'x':
                                out.append((x2, k, v))
                            else:
                                nxt.append((x2, done + [('s', v)]))
                    else:
                        nxt.append((x, done + [(p[0], x.freeze(p[1]))]))
                todo = nxt
            for x, done in todo:
                out.append((x, 'v', mk_fmt(done)))
        return out

    def to_str(self, st, v, cx, n):
        """str(v)"""
        if v[0] == 'c':
            return [(st, 'v', const(str(v[2])) if v[1] in ('str', 'int', 'bool', 'none') else call('str', (v,)))]
        if v[0] == 'fmt':
            return [(st, 'v', v)]
        if st.is_ref(v, I) and '__str__' not in self.no_str:
            f = self.find_method(st.obj(v).cls, '__str__')
            if f is not None and not self.is_exc_class(st.obj(v).cls):
                return self.call(st, self.bind(f, v, st.obj(v).cls), [], [], [], cx, n)
        return [(st, 'v', st.freeze(v))]

    no_str = ()

    def is_exc_class(self, cls):
        return 'BaseException' in self.exc_mro(cls)

    def e_Compare(self, n, st, cx):
        out = []
        pend = [(s, k, v) for s, k, v in self.ev(n.left, st, cx)]
        for i, (op, right) in enumerate(zip(n.ops, n.comparators)):
            last = i == len(n.ops) - 1
            nxt = []
            for s, k, left in pend:
                if k == 'x':
                    out.append((s, k, left))
                    continue
                for s2, k2, r in self.ev(right, s, cx):
                    if k2 == 'x':
                        out.append((s2, k2, r))
                        continue
                    for s3, k3, v in self.compare(s2, op.t, left, r, cx, n):
                        if k3 == 'x' or last:
                            out.append((s3, k3, v))
                            continue
                        for s4, b in self.br(s3, v):
                            if b:
                                nxt.append((s4, 'v', r))
                            else:
                                out.append((s4, 'v', FALSE))
            pend = nxt
        return out

    def compare(self, st, op, a, b, cx, n):
        if op in CMP and self.inline_ops:
            for x, y, m, other in ((a, b, CMP[op][0], b), (b, a, CMP[op][1], a)):
                if st.is_ref(x, I):
                    o = st.obj(x)
                    f = self.find_method(o.cls, m)
                    if f is not None:
                        return self.call(st, self.bind(f, x, o.cls), [y], [], [], cx, n)
            if op == 'NotEq' and (st.is_ref(a, I) or st.is_ref(b, I)):
                # Python 2: without __ne__ instances differ unless identical
                x = a if st.is_ref(a, I) else b
                if not self.extends_builtin(st.obj(x).cls):
                    return [(st, 'v', mk_not(mk_is(st.freeze(a), st.freeze(b))))]
        fa, fb = st.freeze(a), st.freeze(b)
        if op in ('In', 'NotIn'):
            res = self.contains(st, a, b, cx, n)
            if op == 'In':
                return res
            out = []
            for s, k, v in res:
                if k == 'x':
                    out.append((s, k, v))
                else:
                    kn = s.known(v)
                    out.append((s, 'v', const(not kn) if kn is not None else mk_not(v)))
            return out
        if fa[0] == 'tup' and fb[0] == 'tup' and op in ('Eq', 'NotEq'):
            if len(fa) != len(fb):
                return [(st, 'v', const(op == 'NotEq'))]
            # conjunction of the components
            pend = [st]
            out = []
            for x, y in zip(a[1:], b[1:]):
                nxt = []
                for s in pend:
                    for s2, k, v in self.compare(s, 'Eq', x, y, cx, n):
                        if k == 'x':
                            out.append((s2, k, v))
                            continue
                        for s3, t in self.br(s2, v):
                            if t:
                                nxt.append(s3)
                            else:
                                out.append((s3, 'v', const(op == 'NotEq')))
                pend = nxt
            return out + [(s, 'v', const(op == 'Eq')) for s in pend]
        return [(st, 'v', self.rel(op, fa, fb))]

    def rel(self, op, a, b):
        if op == 'Eq':
            return mk_eq(a, b)
        if op == 'NotEq':
            return mk_not(mk_eq(a, b))
        if op == 'Is':
            return mk_is(a, b)
        if op == 'IsNot':
            return mk_not(mk_is(a, b))
        if op == 'Lt':
            return mk_lt(a, b)
        if op == 'Gt':
            return mk_lt(b, a)
        if op == 'LtE':
            return mk_not(mk_lt(b, a))
        return mk_not(mk_lt(a, b))

    def extends_builtin(self, cls):
        return any(c in ('dict', 'list', 'set', 'str', 'tuple') for c in self.mro(cls))

    def contains(self, st, x, coll, cx, n):
        """x in coll"""
        if st.is_ref(coll, I):
            o = st.obj(coll)
            f = self.find_method(o.cls, '__contains__')
            if f is not None:
                return self.call(st, self.bind(f, coll, o.cls), [x], [], [], cx, n)
            if o.content is not None:
                return self.contains(st, x, ('ref', o.content), cx, n)
            f = self.find_method(o.cls, '__iter__')
            if f is not None:
                out = []
                for s, k, v in self.call(st, self.bind(f, coll, o.cls), [], [], [], cx, n):
                    if k == 'x':
                        out.append((s, k, v))
                    else:
                        out += self.contains(s, x, v, cx, n)
                return out
        fx = st.freeze(x)
        if st.is_ref(coll, D):
            return self.d_in(st, coll, fx)
        if is_str(coll) and is_str(fx):
            return [(st, 'v', const(fx[2] in coll[2]))]
        segs = None
        if coll[0] == 'tup':
            segs = [('one', v) for v in coll[1:]]
        elif st.is_ref(coll, L):
            segs = list(st.obj(coll).segs)
        elif coll[0] == 'L':
            segs = list(coll[2])
        elif cname(coll) in ('.keys', '.iterkeys', '.viewkeys') and len(coll[2]) == 1:
            return self.contains(st, x, coll[2][0], cx, n)
        if segs is not None and len(segs) <= 12 and all(s[0] == 'one' for s in segs):
            pend = [st]
            out = []
            for seg in segs:
                nxt = []
                for s in pend:
                    for s2, k, v in self.compare(s, 'Eq', x, seg[1], cx, n):
                        if k == 'x':
                            out.append((s2, k, v))
                            continue
                        for s3, b in self.br(s2, v):
                            if b:
                                out.append((s3, 'v', TRUE))
                            else:
                                nxt.append(s3)
                pend = nxt
            return out + [(s, 'v', FALSE) for s in pend]
        if segs is not None:
            if len(segs) == 1 and segs[0][0] == 'all':
                return [(st, 'v', mk_in(fx, src(segs[0][1])))]
            return [(st, 'v', mk_in(fx, st.freeze(coll) if coll[0] != 'L' else coll))]
        return [(st, 'v', mk_in(fx, src(coll)))]

    # ---------------------------------------------- comprehensions
    def e_ListComp(self, n, st, cx):
        return self.comp(n, st, cx, 'list')

    def e_GeneratorExp(self, n, st, cx):
        return self.comp(n, st, cx, 'gen')

    def e_SetComp(self, n, st, cx):
        return self.comp(n, st, cx, 'set')

    def comp_frame(self, st, cx):
        ref = st.new(F({}, cx.frame))
        return cx.but(frame=ref[1], frames=cx.frames + (cx.frame,), globals=frozenset()
                      if cx.fn is None else cx.globals)

    def comp(self, n, st, cx, kind):
        res = st.new(L('list' if kind == 'gen' else kind))
        cx2 = self.comp_frame(st, cx)
        # keep the result reachable when states are compared
        st.put(cx2.frame, F({'<result>': res}, cx.frame))

        def leaf(s):
            out = []
            for s2, k, v in self.ev(n.elt, s, cx2):
                if k == 'x':
                    out.append((s2, 'exc', v))
                else:
                    o = s2.obj(res)
                    s2.put(res, L(o.kind, o.segs + (('one', v),)))
                    out.append((s2, 'next', None))
            return out
        return [(s, 'v', res) if k == 'next' else (s, 'x', v)
                for s, k, v in self.comp_loops(n.generators, 0, st, cx2, leaf, n)]

    def e_DictComp(self, n, st, cx):
        res = st.new(D())
        cx2 = self.comp_frame(st, cx)
        st.put(cx2.frame, F({'<result>': res}, cx.frame))

        def leaf(s):
            out = []
            for s2, k, v in self.evs([n.key, n.value], s, cx2):
                if k == 'x':
                    out.append((s2, 'exc', v))
                else:
                    out += self.setitem(s2, res, v[0], v[1], cx2, n)
            return out
        return [(s, 'v', res) if k == 'next' else (s, 'x', v)
                for s, k, v in self.comp_loops(n.generators, 0, st, cx2, leaf, n)]

    def comp_loops(self, gens, i, st, cx, leaf, n):
        """outcomes of running leaf for every binding of the generators"""
        if i == len(gens):
            return leaf(st)
        g = gens[i]
        out = []

        def body(s):
            pend = [s]
            res = []
            for c in g.ifs:
                nxt = []
                for x in pend:
                    for x2, k, b in self.cond(c, x, cx):
                        if k == 'x':
                            res.append((x2, 'exc', b))
                        elif b:
                            nxt.append(x2)
                        else:
                            res.append((x2, 'next', None))
                pend = nxt
            for x in pend:
                res += self.comp_loops(gens, i + 1, x, cx, leaf, n)
            return res
        for s, k, v in self.ev(g.iter, st, cx):
            if k == 'x':
                out.append((s, 'exc', v))
                continue
            out += self.for_value(s, cx, v, lambda x, e: self.assign(g.target, e, x, cx), body, n, None)
        return out

    # -------------------------------------------------- subscripts
    def e_Subscript(self, n, st, cx):
        out = []
        for s, k, v in self.evs([n.value, n.slice], st, cx):
            if k == 'x':
                out.append((s, k, v))
            else:
                out += self.getitem(s, v[0], v[1], cx, n)
        return out

    def e_Attribute(self, n, st, cx):
        out = []
        for s, k, v in self.ev(n.value, st, cx):
            if k == 'x':
                out.append((s, k, v))
            else:
                out += self.getattr_(s, v, self.mangle(n.attr, cx), cx, n)
        return out

    def e_Call(self, n, st, cx):
        # any(...) and all(...) over a comprehension stop at the first hit
        if n.func.t == 'Name' and n.func.id in ('any', 'all') and len(n.args) == 1 and \
           n.args[0].t in ('GeneratorExp', 'ListComp') and not n.keywords and \
           self.lookup(n.func.id, st, cx) == ('ext', n.func.id):
            return self.quant(n.func.id, n.args[0], st, cx)
        out = []
        for s, k, f in self.ev(n.func, st, cx):
            if k == 'x':
                out.append((s, k, f))
                continue
            extra = [x for x in (n.starargs, n.kwargs) if x is not None]
            for s2, k2, v in self.evs(list(n.args) + [x.value for x in n.keywords] + extra, s, cx):
                if k2 == 'x':
                    out.append((s2, k2, v))
                    continue
                na, nk = len(n.args), len(n.keywords)
                args = v[:na]
                kw = [(x.arg, y) for x, y in zip(n.keywords, v[na:na + nk])]
                rest = v[na + nk:]
                star = []
                if n.starargs is not None:
                    sv = rest.pop(0)
                    segs = list(self.segs_of(s2, sv))
                    if all(g[0] == 'one' for g in segs):
                        args = args + [g[1] for g in segs]
                    else:
                        args = args + [('star', s2.freeze(sv))]
                if n.kwargs is not None:
                    star = [rest.pop(0)]
                out += self.call(s2, f, args, kw, star, cx, n)
        return out

    def quant(self, which, g, st, cx):
        """any/all as the loop they are"""
        cx2 = self.comp_frame(st, cx)
        want = which == 'any'

        def leaf(s):
            return [(s2, 'exc', b) if k == 'x' else (s2, 'ret', const(want)) if b == want
                    else (s2, 'next', None) for s2, k, b in self.cond(g.elt, s, cx2)]
        out = []
        for s, k, v in self.comp_loops(g.generators, 0, st, cx2, leaf, g):
            if k == 'exc':
                out.append((s, 'x', v))
            elif k == 'ret':
                out.append((s, 'v', v))
            else:
                out.append((s, 'v', const(not want)))
        return out


def src(v):
    """The collection whose elements are those of v"""
    while True:
        n = cname(v)
        if n in ('sorted', 'list', 'tuple', 'set', 'frozenset', 'reversed', 'iter') and v[2]:
            v = v[2][0]
        elif n in ('.keys', '.iterkeys', '.viewkeys', '.copy') and len(v[2]) == 1:
            v = v[2][0]
        elif n == '.union' and False:
            v = v[2][0]
        elif v[0] == 'L' and len(v[2]) == 1 and v[2][0][0] == 'all':
            v = v[2][0][1]
        else:
            return v
