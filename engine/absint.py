"""Abstract interpretation of ipkg's modules.

Flow- and path-sensitive dataflow analysis over the terms of terms.py: branches
on unknown conditions split the abstract state and record the condition as a
fact (property simulation); functions of the repository are analysed at their
call sites; loops over unknown collections are analysed once per abstract state
until nothing new appears, for a generic element standing for every element.
Nothing of the repository is executed and no solver is involved."""
from .pyast import N, U, AnalysisError
from .terms import *
from .terms import Ev
from .state import *
from . import model
from .state import St, L, D, I, F
from .calls import Calls
from .loops import Loops
from .exprs import Exprs
from .methods import Methods
from .library import Library


class FuncInfo(object):
    def __init__(self, node, module, cls, qual, defaults):
        self.node, self.module, self.cls, self.qual = node, module, cls, qual
        self.defaults = defaults
        a = node.args
        self.params = [p.id if p.t == 'Name' else p for p in a.args]
        self.vararg, self.kwarg = a.vararg, a.kwarg
        self.name = node.name if node.t == 'FunctionDef' else '<lambda>'
        self.doc = None
        if node.t == 'FunctionDef':
            b = node.body[0]
            if b.t == 'Expr' and b.value.t == 'Str':
                self.doc = str(b.value.s)
            self.is_gen = any(x.t == 'Yield' for x in own_nodes(node))
        else:
            self.is_gen = False


def own_nodes(fn):
    """nodes of a function without those of nested functions"""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if n.t in ('FunctionDef', 'ClassDef', 'Lambda'):
            continue
        for v in n.f.values():
            if isinstance(v, N):
                stack.append(v)
            elif isinstance(v, list):
                stack.extend(e for e in v if isinstance(e, N))


class ClassInfo(object):
    def __init__(self, qual, bases, ns, module, node):
        self.qual, self.bases, self.ns, self.module, self.node = qual, bases, ns, module, node
        self.name = node.name


class Cx(object):
    """Where evaluation takes place (never part of a state)."""
    __slots__ = ('frame', 'module', 'cls', 'fn', 'stack', 'frames', 'catch', 'exc', 'globals')

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return Cx(**d)


class Interp(Exprs, Calls, Methods, Library, Loops):

    def __init__(self, mods, opaque=(), raises=True, inline_ops=True, max_depth=40, budget=400000):
        self.src = {}
        for path, node in mods.items():
            if path.endswith('__main__.py') or path == 'setup.py':
                continue
            name = path[:-3].replace('/', '.')
            if name.endswith('.__init__'):
                name = name[:-9]
            self.src[name] = (node, path)
        self.packages = set(n for n, (x, p) in self.src.items() if p.endswith('__init__.py'))
        self.opaque = set(opaque)
        self.raises = raises
        self.raises_only = None     # names of calls which may fail (None: all)
        self.log_events = False     # calls of loggers are events
        self.inline_ops = inline_ops
        self.max_depth = max_depth
        self.budget = budget
        self.hooks = {}          # name -> function(st, args, kw, cx, node) or None
        self.base = {}
        self.baselimit = 0
        self.modframe = {}
        self.classes = {}
        self.funcs = {}
        self.transitions = []
        self.inlined = {}        # functions analysed: qual -> number of contexts
        self.calls_seen = set()
        self.loops_seen = 0
        self.raise_sites = {}
        self.fmt_raises = False
        self.unresolved = []
        self.booting = True
        self.mark = 0
        st = St(self)
        st.nxt = 1
        self.load_all(st)
        self.base = st.heap
        self.baselimit = st.nxt
        self.boot = st
        self.boot_events = st.events()
        self.booting = False

    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise AnalysisError('the analysis exceeds its budget of abstract states')

    def fresh(self):
        st = St(self)
        st.nxt = self.baselimit + 1
        st.heap = {}
        self.mark = self.baselimit + 1
        return st

    def set_mark(self, st):
        """From here on, changes of the objects allocated so far are effects."""
        self.mark = st.nxt

    # ------------------------------------------------------- modules
    def load_all(self, st):
        for name in sorted(self.src):
            self.load_module(name, st)

    def load_module(self, name, st):
        if name in self.modframe:
            return
        node, path = self.src[name]
        ref = st.new(F({'__name__': const(name), '__file__': const(path)}, None))
        self.modframe[name] = ref[1]
        cx = Cx(frame=ref[1], module=name, cls=None, fn=None, stack=(), frames=(), catch=(),
                exc=None, globals=frozenset())
        outs = self.block(node.body, st, cx)
        good = [o for o in outs if o[1] == 'next']
        if not good:
            raise AnalysisError('module %s does not load: %s' % (
                name, '; '.join(show(o[2]) for o in outs)))
        # module level code has one outcome; states are merged into st in place
        if good[0][0] is not st:
            s = good[0][0]
            for k in St.__slots__:
                setattr(st, k, getattr(s, k))

    def mod_value(self, name):
        return ('mod', name)

    def import_name(self, module, st):
        """value of an absolute module name"""
        if module in self.src:
            self.load_module(module, st)
            return ('mod', module)
        return ('ext', self.alias(module))

    def extern(self, n):
        n = self.alias(n)
        return const(model.CONSTANTS[n]) if n in model.CONSTANTS else ('ext', n)

    def alias(self, n):
        if n in model.ALIAS:
            return model.ALIAS[n]
        if n.startswith('__builtin__.'):
            return self.alias(n[12:])
        if n.startswith('posixpath.'):
            return 'os.path.' + n[10:]
        if n.startswith('operator.__') and n.endswith('__'):
            return 'operator.' + n[11:-2]
        return n

    # ---------------------------------------------------- statements
    # outcome: (state, kind, value), kind in next ret brk cont exc
    def block(self, stmts, st, cx):
        states = [st]
        out = []
        for s in stmts:
            nxt = []
            for x in states:
                for o in self.stmt(s, x, cx):
                    if o[1] == 'next':
                        nxt.append(o[0])
                    else:
                        out.append(o)
            states = self.dedupe(nxt, cx) if len(nxt) > 1 else nxt
            if not states:
                break
        return out + [(x, 'next', None) for x in states]

    def dedupe(self, states, cx):
        """Join states no later step can distinguish."""
        if len(states) < 3:
            return states
        seen = {}
        out = []
        for s in states:
            k = (s.canon(self.roots(cx)), s.trace)
            if k not in seen:
                seen[k] = s
                out.append(s)
        return out

    def roots(self, cx):
        return tuple(('ref', a) for a in (cx.frame,) + tuple(cx.frames))

    def stmt(self, n, st, cx):
        m = getattr(self, 's_' + n.t, None)
        if m is None:
            raise AnalysisError('%s:%s: statement %s is not supported' % (n.file, n.line, n.t))
        return m(n, st, cx)

    def s_Pass(self, n, st, cx):
        return [(st, 'next', None)]

    def s_Global(self, n, st, cx):
        return [(st, 'next', None)]

    def s_Break(self, n, st, cx):
        return [(st, 'brk', None)]

    def s_Continue(self, n, st, cx):
        return [(st, 'cont', None)]

    def s_Expr(self, n, st, cx):
        return [(s, 'next', None) if k == 'v' else (s, 'exc', v)
                for s, k, v in self.ev(n.value, st, cx)]

    def s_Return(self, n, st, cx):
        if n.value is None:
            return [(st, 'ret', NONE)]
        return [(s, 'ret', v) if k == 'v' else (s, 'exc', v)
                for s, k, v in self.ev(n.value, st, cx)]

    def s_Print(self, n, st, cx):
        out = []
        for s, k, v in self.evs(n.values, st, cx):
            if k == 'x':
                out.append((s, 'exc', v))
            else:
                s.emit(Ev('print', 'print', tuple(s.freeze(x) for x in v), (), None, (n.file, n.line)))
                out.append((s, 'next', None))
        return out

    def s_Assert(self, n, st, cx):
        out = []
        for s, k, v in self.ev(n.test, st, cx):
            if k == 'x':
                out.append((s, 'exc', v))
                continue
            for s2, b in self.br(s, v):
                out.append((s2, 'next', None) if b else
                           (s2, 'exc', ('xinst', 'AssertionError', ())))
        return out

    def s_Exec(self, n, st, cx):
        raise AnalysisError('%s:%s: exec' % (n.file, n.line))

    def s_Assign(self, n, st, cx):
        out = []
        for s, k, v in self.ev(n.value, st, cx):
            if k == 'x':
                out.append((s, 'exc', v))
                continue
            todo = [s]
            for t in n.targets:
                nxt = []
                for x in todo:
                    for o in self.assign(t, v, x, cx):
                        if o[1] == 'next':
                            nxt.append(o[0])
                        else:
                            out.append(o)
                todo = nxt
            out += [(x, 'next', None) for x in todo]
        return out

    def s_AugAssign(self, n, st, cx):
        # read, compute, write back
        out = []
        t = n.target
        if t.t == 'Name':
            reads = [(s, k, (None, v)) for s, k, v in
                     self.ev(N('Name', {'id': t.id}, n.line, n.col, n.file), st, cx)]
        elif t.t == 'Attribute':
            reads = []
            for s, k, v in self.ev(t.value, st, cx):
                if k == 'x':
                    reads.append((s, k, v))
                    continue
                for s2, k2, v2 in self.getattr_(s, v, self.mangle(t.attr, cx), cx, n):
                    reads.append((s2, k2, v2 if k2 == 'x' else (v, v2)))
        else:
            reads = []
            for s, k, v in self.evs([t.value, t.slice], st, cx):
                if k == 'x':
                    reads.append((s, k, v))
                    continue
                for s2, k2, v2 in self.getitem(s, v[0], v[1], cx, n):
                    reads.append((s2, k2, v2 if k2 == 'x' else (tuple(v), v2)))
        for s, k, v in reads:
            if k == 'x':
                out.append((s, 'exc', v))
                continue
            place, old = v
            for s2, k2, v2 in self.ev(n.value, s, cx):
                if k2 == 'x':
                    out.append((s2, 'exc', v2))
                    continue
                for s3, k3, v3 in self.augop(n, s2, old, v2, cx):
                    if k3 == 'x':
                        out.append((s3, 'exc', v3))
                    elif t.t == 'Name':
                        out += self.setname(t.id, v3, s3, cx)
                    elif t.t == 'Attribute':
                        out += self.setattr_(s3, place, self.mangle(t.attr, cx), v3, cx, n)
                    else:
                        out += self.setitem(s3, place[0], place[1], v3, cx, n)
        return out

    def augop(self, n, st, old, v, cx):
        if n.op.t == 'Add' and st.is_ref(old, L):
            o = st.obj(old)
            st.put(old, L(o.kind, o.segs + tuple(self.segs_of(st, v))))
            self.mutated(st, old, '+=', (v,), n)
            return [(st, 'v', old)]
        if st.is_ref(old, L) and n.op.t in ('Sub', 'BitOr', 'BitAnd'):
            return self.binop(n, n.op.t, st, old, v, cx)
        if n.op.t == 'Add' and old[0] in ('sym', 'attr', 'item', 'elem') and (
                st.is_ref(v, L) and st.obj(v).kind == 'list' or v[0] == 'L' and v[1] == 'list'):
            # only a list takes a list: it is changed in place
            st.emit(Ev('mut', 'extend', (st.freeze(old), st.freeze(v)), (), None, (n.file, n.line)))
        return self.binop(n, n.op.t, st, old, v, cx)

    def s_Delete(self, n, st, cx):
        states = [(st, 'next', None)]
        for t in n.targets:
            nxt = []
            for s, k, v in states:
                if k != 'next':
                    nxt.append((s, k, v))
                elif t.t == 'Name':
                    f = s.obj(cx.frame)
                    d = dict(f.vars)
                    d.pop(t.id, None)
                    s.put(cx.frame, F(d, f.parent))
                    nxt.append((s, 'next', None))
                elif t.t == 'Subscript':
                    for s2, k2, v2 in self.evs([t.value, t.slice], s, cx):
                        if k2 == 'x':
                            nxt.append((s2, 'exc', v2))
                        else:
                            nxt += self.delitem(s2, v2[0], v2[1], cx, n)
                elif t.t == 'Attribute':
                    for s2, k2, v2 in self.ev(t.value, s, cx):
                        if k2 == 'x':
                            nxt.append((s2, 'exc', v2))
                            continue
                        s2.emit(Ev('delattr', t.attr, (v2,), (), None, (n.file, n.line)))
                        if s2.is_ref(v2, I):
                            o = s2.obj(v2)
                            a = dict(o.attrs)
                            a.pop(self.mangle(t.attr, cx), None)
                            s2.put(v2, I(o.cls, a, o.content))
                        nxt.append((s2, 'next', None))
                else:
                    raise AnalysisError('%s:%s: del' % (n.file, n.line))
            states = nxt
        return states

    def s_If(self, n, st, cx):
        out = []
        for s, k, b in self.cond(n.test, st, cx):
            if k == 'x':
                out.append((s, 'exc', b))
            elif b:
                out += self.block(n.body, s, cx)
            else:
                out += self.block(n.orelse, s, cx) if n.orelse else [(s, 'next', None)]
        return self.join_outs(out, cx)

    def join_outs(self, outs, cx):
        if len(outs) < 2:
            return outs
        seen = set()
        res = []
        for o in outs:
            if o[1] in ('next', 'cont', 'brk') or o[1] == 'ret' and False:
                k = (o[1], o[0].canon(self.roots(cx)), o[0].trace)
                if k in seen:
                    continue
                seen.add(k)
            res.append(o)
        return res

    def s_Import(self, n, st, cx):
        for a in n.names:
            v = self.import_name(a.name, st)
            if a.asname:
                self.setname(a.asname, v, st, cx)
            else:
                top = a.name.split('.')[0]
                self.setname(top, self.import_name(top, st), st, cx)
        return [(st, 'next', None)]

    def s_ImportFrom(self, n, st, cx):
        mod = n.module or ''
        if n.level:
            parts = cx.module.split('.')
            if cx.module not in self.packages:
                parts = parts[:-1]
            up = n.level - 1
            parts = parts[:len(parts) - up] if up else parts
            mod = '.'.join(parts + ([mod] if mod else []))
        for a in n.names:
            if mod in self.src:
                self.load_module(mod, st)
                if mod + '.' + a.name in self.src and a.name not in st.obj(self.modframe[mod]).vars:
                    v = self.import_name(mod + '.' + a.name, st)
                else:
                    v = st.obj(self.modframe[mod]).vars.get(a.name)
                    if v is None:
                        return [(st, 'exc', ('xinst', 'ImportError', ()))]
            else:
                v = self.extern(mod + '.' + a.name)
            self.setname(a.asname or a.name, v, st, cx)
        return [(st, 'next', None)]

    def s_FunctionDef(self, n, st, cx):
        out = []
        for s, k, vals in self.evs(n.args.defaults, st, cx):
            if k == 'x':
                out.append((s, 'exc', vals))
                continue
            fv = self.make_func(n, vals, s, cx)
            states = [(s, fv)]
            for d in reversed(n.decorator_list):
                nxt = []
                for s2, v in states:
                    for s3, k3, dv in self.ev(d, s2, cx):
                        if k3 == 'x':
                            out.append((s3, 'exc', dv))
                            continue
                        if dv == ('ext', 'property'):
                            nxt.append((s3, ('prop', v)))
                        elif dv == ('ext', 'classmethod'):
                            nxt.append((s3, ('cmeth', v)))
                        elif dv == ('ext', 'staticmethod'):
                            nxt.append((s3, ('smeth', v)))
                        elif dv[0] == 'call' and dv[1] == 'functools.wraps':
                            nxt.append((s3, v))
                        else:
                            for s4, k4, r in self.call(s3, dv, [v], [], [], cx, n):
                                if k4 == 'x':
                                    out.append((s4, 'exc', r))
                                else:
                                    nxt.append((s4, r))
                states = nxt
            for s2, v in states:
                out += self.setname(n.name, v, s2, cx)
        return out

    def make_func(self, n, defaults, st, cx):
        nm = n.name if n.t == 'FunctionDef' else '<lambda>'
        if cx.fn is not None:
            qual = '%s.<%s>' % (cx.fn.qual, nm)
        elif cx.cls:
            qual = cx.cls + '.' + nm
        else:
            qual = cx.module + '.' + nm
        fid = '%s@%d' % (qual, n.uid)
        if fid not in self.funcs:
            self.funcs[fid] = FuncInfo(n, cx.module, cx.cls, qual, None)
        self.funcs[fid].defaults = tuple(defaults)
        # the class body is not a scope for its methods
        closure = cx.frame
        if cx.fn is None and cx.cls:
            closure = st.obj(cx.frame).parent
        return ('func', fid, closure, tuple(defaults))

    def s_ClassDef(self, n, st, cx):
        out = []
        qual = (cx.cls or cx.module) + '.' + n.name
        if cx.fn is not None:
            qual = cx.fn.qual + '.' + n.name
        for s, k, bases in self.evs(n.bases, st, cx):
            if k == 'x':
                out.append((s, 'exc', bases))
                continue
            ref = s.new(F({}, cx.frame))
            cx2 = cx.but(frame=ref[1], cls=qual, fn=None, frames=cx.frames + (cx.frame,))
            for s2, k2, v2 in self.block(n.body, s, cx2):
                if k2 != 'next':
                    out.append((s2, k2, v2))
                    continue
                ns = dict(s2.obj(ref).vars)
                if n.body and n.body[0].t == 'Expr' and n.body[0].value.t == 'Str':
                    ns.setdefault('__doc__', const(str(n.body[0].value.s)))
                ns = {self.mangle(k, cx2): v for k, v in ns.items()}
                self.classes[qual] = ClassInfo(qual, bases, ns, cx.module, n)
                out += self.setname(n.name, ('cls', qual), s2, cx)
        return out

    def s_Raise(self, n, st, cx):
        if n.type is None:
            return [(st, 'exc', cx.exc or ('xinst', '?', ()))]
        out = []
        for s, k, v in self.evs([n.type] + ([n.inst] if n.inst else []), st, cx):
            if k == 'x':
                out.append((s, 'exc', v))
                continue
            t = v[0]
            if len(v) > 1:
                res = self.call(s, t, [v[1]], [], [], cx, n)
            elif t[0] == 'cls' or t[0] == 'ext':
                res = self.call(s, t, [], [], [], cx, n)
            else:
                res = [(s, 'v', t)]
            for s2, k2, v2 in res:
                out.append((s2, 'exc', v2))
                if k2 == 'v':
                    self.raise_sites.setdefault((n.file, n.line), set()).add(self.exc_class(s2, v2))
        return out



    def exc_class(self, st, v):
        if st.is_ref(v, I):
            return st.obj(v).cls
        if v[0] == 'xinst':
            return v[1]
        return '?'

    def exc_mro(self, name):
        """names of all classes an exception class is"""
        if name in self.classes:
            out = []
            for c in self.mro(name):
                if c in self.classes:
                    out.append(c)
                else:
                    out += [x for x in model.exc_bases(c) if x not in out]
            return out
        return model.exc_bases(name)

    def matches(self, st, exc, types):
        """'yes', 'no' or 'maybe': does the handler's type catch exc"""
        names = []
        for t in types:
            if t[0] == 'cls':
                names.append(t[1])
            elif t[0] == 'ext':
                names.append(model.CANON_EXC.get(t[1], t[1]))
            else:
                return 'maybe'
        c = self.exc_class(st, exc)
        if c == '?':
            not_ = exc[2] if exc[0] == 'xinst' else ()
            if 'BaseException' in names or 'Exception' in names:
                return 'yes'
            return 'maybe' if any(x not in not_ for x in names) else 'no'
        m = self.exc_mro(c)
        if any(x in m for x in names):
            return 'yes'
        # a modelled exception may be an instance of a subclass of its class
        if exc[0] == 'xinst' and any(c in self.exc_mro(x) for x in names):
            return 'maybe' if any(x not in exc[2] for x in names) else 'no'
        return 'no'

    def s_TryExcept(self, n, st, cx):
        out = []
        types = []
        for h in n.handlers:
            if h.type is None:
                types.append([('ext', 'BaseException')])
                continue
            tv = self.static_types(h.type, st, cx)
            types.append(tv)
        catch = tuple(x for t in types for x in t)
        for o in self.block(n.body, st, cx.but(catch=cx.catch + (catch,))):
            if o[1] == 'next':
                out += self.block(n.orelse, o[0], cx) if n.orelse else [o]
            elif o[1] == 'exc':
                pending = [o]
                for h, t in zip(n.handlers, types):
                    nxt = []
                    for s, k, v in pending:
                        m = self.matches(s, v, t)
                        if m == 'no':
                            nxt.append((s, k, v))
                            continue
                        s2 = s
                        v2 = v
                        if m == 'maybe':
                            s2 = s.copy()
                            v2 = ('xinst', t[0][1] if t else '?', ())
                            nm = tuple(sorted(set((v[2] if v[0] == 'xinst' else ()) +
                                                  tuple(x[1] for x in t))))
                            nxt.append((s, k, ('xinst', v[1], nm) if v[0] == 'xinst' else v))
                        s2.emit(Ev('catch', self.exc_class(s2, v2), (), (), None, (n.file, h.line)))
                        if h.name is not None:
                            r = self.assign(h.name, v2, s2, cx)
                            s2 = r[0][0]
                        out += self.block(h.body, s2, cx.but(exc=v2))
                    pending = nxt
                out += pending
            else:
                out.append(o)
        return out

    def static_types(self, node, st, cx):
        r = self.ev(node, st.copy(), cx)
        v = r[0][2] if r and r[0][1] == 'v' else ('hv', '?')
        if v[0] == 'tup':
            return list(v[1:])
        return [v]

    def s_TryFinally(self, n, st, cx):
        out = []
        for s, k, v in self.block(n.body, st, cx):
            for s2, k2, v2 in self.block(n.finalbody, s, cx):
                if k2 == 'next':
                    out.append((s2, k, v))
                else:
                    out.append((s2, k2, v2))
        return out

    def s_With(self, n, st, cx):
        out = []
        for s, k, v in self.ev(n.context_expr, st, cx):
            if k == 'x':
                out.append((s, 'exc', v))
                continue
            val = v
            closer = None
            if s.is_ref(v, I):
                r = self.getattr_(s, v, '__enter__', cx, n)
                if r and r[0][1] == 'v':
                    rr = self.call(r[0][0], r[0][2], [], [], [], cx, n)
                    s, k, val = rr[0]
                    if k == 'x':
                        out.append((s, 'exc', val))
                        continue
                    closer = 'exit'
            starts = [(s, 'next', None)]
            if n.optional_vars is not None:
                starts = self.assign(n.optional_vars, val, s, cx)
            for s1, k1, v1 in starts:
                if k1 != 'next':
                    out.append((s1, k1, v1))
                    continue
                for s2, k2, v2 in self.block(n.body, s1, cx):
                    if closer:
                        rs = self.getattr_(s2, v, '__exit__', cx, n)
                        for s3, k3, m3 in rs:
                            for s4, k4, v4 in self.call(s3, m3, [NONE, NONE, NONE], [], [], cx, n):
                                out.append((s4, 'exc', v4) if k4 == 'x' else (s4, k2, v2))
                    else:
                        s2.emit(Ev('call', '.close', (s2.freeze(val),), (), None, (n.file, n.line)))
                        out.append((s2, k2, v2))
        return out

    def s_For(self, n, st, cx):
        out = []
        for s, k, v in self.ev(n.iter, st, cx):
            if k == 'x':
                out.append((s, 'exc', v))
                continue
            out += self.for_value(
                s, cx, v, lambda x, e: self.assign(n.target, e, x, cx),
                lambda x: self.block(n.body, x, cx), n,
                (lambda x: self.block(n.orelse, x, cx)) if n.orelse else None)
        return out

    def s_While(self, n, st, cx):
        return self.while_loop(
            st, cx, lambda x: self.cond(n.test, x, cx), lambda x: self.block(n.body, x, cx), n,
            (lambda x: self.block(n.orelse, x, cx)) if n.orelse else None)

    # --------------------------------------------------- assignment
    def setname(self, name, v, st, cx):
        a = cx.frame
        if cx.fn is not None and name in cx.globals:
            a = self.modframe[cx.module]
        f = st.obj(a)
        d = dict(f.vars)
        d[name] = v
        st.put(a, F(d, f.parent))
        return [(st, 'next', None)]

    def mangle(self, name, cx):
        if name.startswith('__') and not name.endswith('__') and cx.cls:
            return '_%s%s' % (cx.cls.rsplit('.', 1)[1].lstrip('_'), name)
        return name

    def assign(self, t, v, st, cx):
        if t.t == 'Name':
            return self.setname(t.id, v, st, cx)
        if t.t == 'Attribute':
            out = []
            for s, k, b in self.ev(t.value, st, cx):
                if k == 'x':
                    out.append((s, 'exc', b))
                else:
                    out += self.setattr_(s, b, self.mangle(t.attr, cx), v, cx, t)
            return out
        if t.t == 'Subscript':
            out = []
            for s, k, b in self.evs([t.value, t.slice], st, cx):
                if k == 'x':
                    out.append((s, 'exc', b))
                else:
                    out += self.setitem(s, b[0], b[1], v, cx, t)
            return out
        if t.t in ('Tuple', 'List'):
            out = []
            for s, k, parts in self.unpack(v, len(t.elts), st, cx):
                if k == 'x':
                    out.append((s, 'exc', parts))
                    continue
                todo = [s]
                for e, p in zip(t.elts, parts):
                    nxt = []
                    for x in todo:
                        for o in self.assign(e, p, x, cx):
                            if o[1] == 'next':
                                nxt.append(o[0])
                            else:
                                out.append(o)
                    todo = nxt
                out += [(x, 'next', None) for x in todo]
            return out
        raise AnalysisError('%s:%s: cannot assign to %s' % (t.file, t.line, t.t))

    def catches(self, cx, *names):
        """might an enclosing handler be meant for one of these exceptions"""
        for c in cx.catch:
            for t in c:
                if t[0] == 'ext' and t[1] in names:
                    return True
        return False

    def unpack(self, v, n, st, cx):
        if v[0] == 'tup':
            if len(v) - 1 == n:
                return [(st, 'v', list(v[1:]))]
            return [(st, 'x', ('xinst', 'ValueError', ()))]
        if st.is_ref(v, L):
            o = st.obj(v)
            if o.exact():
                if len(o.segs) == n:
                    return [(st, 'v', [s[1] for s in o.segs])]
                return [(st, 'x', ('xinst', 'ValueError', ()))]
            v = st.freeze(v)
        parts = [st.mkitem(v, const(i)) for i in range(n)]
        if self.catches(cx, 'ValueError', 'Exception', 'StandardError') or \
           (self.may_fail(cname(v)) and cname(v) in ('.split', '.rsplit', '.splitlines')
                and not self.split_ok(v, n)):
            out = []
            for s, b in self.br(st, mk_eq(call('len', (v,)), const(n))):
                out.append((s, 'v', parts) if b else (s, 'x', ('xinst', 'ValueError', ())))
            return out
        return [(st, 'v', parts)]

    def split_ok(self, v, n):
        """x.split(sep, n-1) guarded by 'sep in x' is checked through facts"""
        a = v[2]
        return len(a) == 3 and a[2] == const(n - 1)

    # --------------------------------------------------- conditions
    def br(self, st, v):
        """[(state, truth of v)]"""
        k = st.known(v)
        if k is not None:
            return [(st, k)]
        s2 = st.copy()
        out = []
        if st.assume(v, True):
            out.append((st, True))
        if s2.assume(v, False):
            out.append((s2, False))
        return out

    def cond(self, n, st, cx):
        """[(state, 'v', bool) or (state, 'x', exc)]"""
        if n.t == 'BoolOp':
            isand = n.op.t == 'And'
            pend = [st]
            out = []
            for e in n.values:
                nxt = []
                for s in pend:
                    for s2, k, b in self.cond(e, s, cx):
                        if k == 'x':
                            out.append((s2, k, b))
                        elif b == isand:
                            nxt.append(s2)
                        else:
                            out.append((s2, 'v', b))
                pend = nxt
            return out + [(s, 'v', isand) for s in pend]
        if n.t == 'UnaryOp' and n.op.t == 'Not':
            return [(s, k, (not b) if k == 'v' else b) for s, k, b in self.cond(n.operand, st, cx)]
        out = []
        for s, k, v in self.ev(n, st, cx):
            if k == 'x':
                out.append((s, k, v))
                continue
            for s2, k2, v2 in self.truth(s, v, cx, n):
                if k2 == 'x':
                    out.append((s2, k2, v2))
                    continue
                for s3, b in self.br(s2, v2):
                    out.append((s3, 'v', b))
        return out

    def truth(self, st, v, cx, n):
        """a value to branch on: instances may define their own truth"""
        if st.is_ref(v, I):
            o = st.obj(v)
            for m in ('__nonzero__', '__len__'):
                f = self.find_method(o.cls, m)
                if f is not None:
                    return self.call(st, self.bind(f, v, o.cls), [], [], [], cx, n)
        return [(st, 'v', v)]
