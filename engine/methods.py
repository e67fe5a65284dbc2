"""Methods of builtin and of unknown objects."""
from .pyast import AnalysisError
from .terms import *
from .terms import Ev
from .state import *
from .state import L, D, I, F
from .exprs import src, mk_fmt
from . import model

STR_FOLD = set('''strip lstrip rstrip lower upper startswith endswith replace title capitalize
isdigit isalpha isalnum find rfind count index zfill'''.split())


class Methods(object):

    def call_meth(self, st, recv, name, args, kw, star, cx, n):
        """method of an object the analysis knows"""
        if recv[0] == 'superobj':
            return self.super_meth(st, recv, name, args, kw, star, cx, n)
        if name == 'format' and len(star) == 1 and not kw and recv[0] == 'c' and recv[1] == 'str':
            # each field is looked up in the dictionary
            import re
            res, out = [(st, [])], []
            for key in sorted(set(re.findall(r'\{([A-Za-z_]\w*)\}', recv[2].replace('{{', '').replace('}}', '')))):
                nxt = []
                for s, acc in res:
                    for s2, k, v in self.getitem(s, star[0], const(key), cx, n):
                        if k == 'x':
                            out.append((s2, k, v))
                        else:
                            nxt.append((s2, acc + [(key, v)]))
                res = nxt
            for s, acc in res:
                out += self.call_meth(s, recv, name, args, acc, [], cx, n)
            return out
        if recv[0] == 'c' and recv[1] == 'str':
            r = self.str_meth(st, recv, name, args, kw, cx, n)
            if r is not None:
                return r
        if st.is_ref(recv, L):
            r = self.list_meth(st, recv, name, args, kw, cx, n)
            if r is not None:
                return r
        if self.content(st, recv) is not None:
            r = self.dict_meth(st, recv, name, args, kw, star, cx, n)
            if r is not None:
                return r
        if recv[0] in ('tup', 'L') and name in ('index', 'count'):
            return [(st, 'v', call('.' + name, (st.freeze(recv),) + tuple(st.freeze(a) for a in args)))]
        return self.call_opaque_meth(st, st.freeze(recv), name, args, kw, star, cx, n)

    def super_meth(self, st, recv, name, args, kw, star, cx, n):
        selfv = recv[1]
        d = self.content(st, selfv)
        if name == '__init__':
            if d is not None:
                self.dict_init(st, d, args, kw, star)
            elif st.is_ref(selfv, I) and self.is_exc_class(st.obj(selfv).cls):
                o = st.obj(selfv)
                a = dict(o.attrs)
                a['args'] = ('tup',) + tuple(args)
                st.put(selfv, I(o.cls, a, o.content))
            return [(st, 'v', NONE)]
        if name == '__setattr__' and len(args) == 2 and is_str(args[0]) and st.is_ref(selfv, I):
            o = st.obj(selfv)
            a = dict(o.attrs)
            a[args[0][2]] = args[1]
            st.put(selfv, I(o.cls, a, o.content))
            if selfv[1] < self.mark:
                st.emit(Ev('setattr', args[0][2], (selfv, st.freeze(args[1])), (), None, (n.file, n.line)))
            return [(st, 'v', NONE)]
        if d is not None:
            if name == '__getitem__':
                return self.d_get(st, d, args[0], cx, n, None)
            if name == '__setitem__':
                self.d_set(st, d, args[0], args[1])
                self.dict_changed(st, selfv, d, 'setitem', args, n)
                return [(st, 'v', NONE)]
            if name == '__contains__':
                return self.d_in(st, d, st.freeze(args[0]))
            r = self.dict_meth(st, selfv, name, args, kw, star, cx, n)
            if r is not None:
                return r
        return self.call_opaque_meth(st, selfv, name, args, kw, star, cx, n)

    # ---------------------------------------------------------- strings
    def str_meth(self, st, recv, name, args, kw, cx, n):
        s = recv[2]
        if name in STR_FOLD and not kw and all(is_c(a) or a[0] == 'tup' and all(is_c(x) for x in a[1:])
                                              for a in args):
            vals = [tuple(x[2] for x in a[1:]) if a[0] == 'tup' else a[2] for a in args]
            try:
                return [(st, 'v', const(getattr(s, name)(*vals)))]
            except ValueError:
                return [(st, 'x', ('xinst', 'ValueError', ()))]
            except Exception:
                return None
        if name in ('split', 'rsplit', 'splitlines') and not kw and all(is_c(a) for a in args):
            try:
                parts = getattr(s, name)(*[a[2] for a in args])
            except Exception:
                return None
            return [(st, 'v', st.new(L('list', [('one', const(p)) for p in parts])))]
        if name == 'join' and len(args) == 1:
            segs = self.segs_of(st, args[0])
            if segs and all(g[0] == 'one' for g in segs):
                parts = []
                for i, g in enumerate(segs):
                    if i:
                        parts.append(s)
                    parts.append(('s', st.freeze(g[1])))
                return [(st, 'v', mk_fmt(parts))]
            if not segs and (st.is_ref(args[0], L) or args[0] == ('tup',)):
                return [(st, 'v', const(''))]
        if name == 'format' and '{' in s:
            return [(st, 'v', self.format_(st, s, args, kw))]
        return None

    def format_(self, st, s, args, kw):
        import re
        parts = []
        pos = 0
        auto = 0
        d = dict(kw)
        for m in re.finditer(r'\{\{|\}\}|\{(\w*)\}', s):
            parts.append(s[pos:m.start()])
            pos = m.end()
            if m.group(0) in ('{{', '}}'):
                parts.append(m.group(0)[0])
                continue
            k = m.group(1)
            if k == '':
                k, auto = auto, auto + 1
            if isinstance(k, int) or k.isdigit():
                k = int(k)
                if k >= len(args):
                    return call('.format', (const(s),) + tuple(st.freeze(a) for a in args))
                parts.append(('s', st.freeze(args[k])))
            elif k in d:
                parts.append(('s', st.freeze(d[k])))
            else:
                return call('.format', (const(s),) + tuple(st.freeze(a) for a in args))
        parts.append(s[pos:])
        return mk_fmt(parts)

    # ------------------------------------------------------------ lists
    def list_meth(self, st, ref, name, args, kw, cx, n):
        o = st.obj(ref)
        done = [(st, 'v', NONE)]

        def put(segs):
            st.put(ref, L(o.kind, segs))
        if name in ('append', 'add') and len(args) == 1:
            seg = ('one', args[0])
            if not (o.kind in ('set', 'frozenset') and seg in o.segs):
                put(o.segs + (seg,))
            self.mutated(st, ref, name, args, n)
            return done
        if name in ('extend', 'update') and len(args) == 1:
            new = list(self.segs_of(st, args[0]))
            if o.kind == 'set':
                new = [g for g in new if g not in o.segs]
            put(o.segs + tuple(new))
            self.mutated(st, ref, name, args, n)
            return done
        if name == '__keep__' and len(args) == 1:
            put(tuple(self.segs_of(st, args[0])))
            self.mutated(st, ref, name, args, n)
            return done
        if name == 'appendleft' and len(args) == 1:
            put((('one', args[0]),) + o.segs)
            self.mutated(st, ref, name, args, n)
            return done
        if name == 'insert' and len(args) == 2:
            i = args[0]
            if o.exact() and is_num(i):
                segs = list(o.segs)
                segs.insert(i[2], ('one', args[1]))
                put(tuple(segs))
            elif is_num(i) and 0 <= i[2] <= len(o.segs) and all(g[0] == 'one' for g in o.segs[:i[2]]):
                put(o.segs[:i[2]] + (('one', args[1]),) + o.segs[i[2]:])
            else:
                put((('all', ('inserted', st.freeze(ref), st.freeze(i), st.freeze(args[1]))),))
            self.mutated(st, ref, name, args, n)
            return done
        if name in ('pop', 'popleft', 'popitem'):
            i = args[0] if args else const(0) if name == 'popleft' else const(-1)
            if o.exact() and is_num(i):
                segs = list(o.segs)
                try:
                    v = segs.pop(i[2])
                except IndexError:
                    self.mutated(st, ref, name, args, n)
                    return [(st, 'x', ('xinst', 'IndexError', ()))]
                put(segs)
                self.mutated(st, ref, name, args, n)
                return [(st, 'v', v[1])]
            if is_num(i):
                segs = list(o.segs)
                j = 0 if i[2] == 0 else -1 if i[2] == -1 else None
                if j is not None and segs and segs[j][0] == 'one':
                    v = segs.pop(j)
                    put(segs)
                    self.mutated(st, ref, name, args, n)
                    return [(st, 'v', v[1])]
            fv = st.freeze(ref)
            fi = st.freeze(i)
            v = ('popped', fv, fi)
            if len(o.segs) == 1 and o.segs[0][0] == 'all':
                v = ('elem', o.segs[0][1]) if False else ('item', o.segs[0][1], fi)
            put((('all', ('rest', fv, fi)),))
            self.mutated(st, ref, name, args, n)
            return [(st, 'v', v)]
        if name in ('remove', 'discard') and len(args) == 1:
            fa = st.freeze(args[0])
            segs = list(o.segs)
            for g in segs:
                if g[0] == 'one' and st.freeze(g[1]) == fa:
                    segs.remove(g)
                    put(segs)
                    self.mutated(st, ref, name, args, n)
                    return done
            if o.exact() and all(st.known(mk_eq(st.freeze(g[1]), fa)) is False for g in segs):
                if name == 'discard':
                    return done
                return [(st, 'x', ('xinst', 'ValueError', ()))]
            out = []
            for g in segs:
                if g[0] == 'one':
                    out.append(('many', g[1], frozenset([(mk_eq(st.freeze(g[1]), fa), False)]),
                                ('L', 'list', (g,))) if not (is_c(g[1]) and is_c(fa)) else g)
                elif g[0] == 'all':
                    e = ('elem', g[1])
                    out.append(('many', e, frozenset([(mk_eq(e, fa), False)]), g[1]))
                else:
                    out.append(('many', g[1], g[2] | frozenset([(mk_eq(st.freeze(g[1]), fa), False)]), g[3]))
            put(out)
            self.mutated(st, ref, name, args, n)
            return done
        if name == 'clear':
            put(())
            self.mutated(st, ref, name, args, n)
            return done
        if name == 'reverse' and not args and not kw:
            put(tuple(self.backwards(g) for g in reversed(o.segs)))
            self.mutated(st, ref, name, args, n)
            return done
        if name in ('sort', 'reverse'):
            st.put(ref, L(o.kind, (('all', call('sorted' if name == 'sort' else 'reversed',
                                                (st.freeze(ref),), tuple(sorted((k, st.freeze(v)) for k, v in kw)))),))
                   if len(o.segs) > 1 or kw else L(o.kind, o.segs))
            self.mutated(st, ref, name, args, n)
            return done
        if name in ('union', 'difference', 'intersection') and len(args) == 1:
            return [(st, 'v', self.setop(st, {'union': 'BitOr', 'difference': 'Sub',
                                              'intersection': 'BitAnd'}[name], ref, args[0]))]
        if name in ('difference_update', 'intersection_update') and len(args) == 1:
            r = self.setop(st, 'Sub' if name[0] == 'd' else 'BitAnd', ref, args[0])
            put(st.obj(r).segs)
            self.mutated(st, ref, name, args, n)
            return done
        if name == 'copy':
            return [(st, 'v', st.new(L(o.kind, o.segs)))]
        if name == '__contains__' and len(args) == 1:
            return self.contains(st, args[0], ref, cx, n)
        if name in ('__iter__', '__len__'):
            return self.call_ext(st, name.strip('_'), [ref], [], [], cx, n)
        if name == 'next':
            return self.next_(st, ref, cx, n)
        if name in ('index', 'count') and len(args) == 1 and o.exact():
            fa = st.freeze(args[0])
            hits = [st.known(mk_eq(st.freeze(g[1]), fa)) if not (is_c(g[1]) and is_c(fa)) else g[1] == fa
                    for g in o.segs]
            if None not in hits:
                if name == 'count':
                    return [(st, 'v', const(hits.count(True)))]
                if True in hits:
                    return [(st, 'v', const(hits.index(True)))]
                return [(st, 'x', ('xinst', 'ValueError', ()))]
        if name in ('index', 'count', 'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference'):
            return [(st, 'v', call('.' + name, (st.freeze(ref),) + tuple(st.freeze(a) for a in args)))]
        return None

    def next_(self, st, ref, cx, n):
        o = st.obj(ref)
        if not o.segs:
            return [(st, 'x', ('xinst', 'StopIteration', ()))]
        if o.segs[0][0] == 'one':
            v = o.segs[0][1]
            st.put(ref, L(o.kind, o.segs[1:]))
            return [(st, 'v', v)]
        fv = st.freeze(ref)
        s2 = st.copy()
        return [(st, 'v', ('item', fv, const(0))), (s2, 'x', ('xinst', 'StopIteration', ()))]

    # ------------------------------------------------------------ dicts
    def dict_changed(self, st, owner, d, kind, args, n):
        if d[1] < self.mark:
            o = owner if owner[0] == 'ref' else d
            if kind in ('setitem', 'delitem'):
                st.emit(Ev(kind, kind, (o,) + tuple(st.freeze(a) for a in args), (), None, (n.file, n.line)))
            else:
                st.emit(Ev('mut', kind, (o,) + tuple(st.freeze(a) for a in args), (), None, (n.file, n.line)))
            st.facts.pop(('truth', owner), None)

    def dict_meth(self, st, recv, name, args, kw, star, cx, n):
        d = self.content(st, recv)
        o = st.obj(d)
        name = {'iterkeys': 'keys', 'viewkeys': 'keys', 'itervalues': 'values', 'viewvalues': 'values',
                'iteritems': 'items', 'viewitems': 'items'}.get(name, name)
        if name == 'get' and args:
            default = args[1] if len(args) > 1 else dict(kw).get('default', NONE)
            return self.d_get(st, d, args[0], cx, n, default)
        if name in ('has_key', '__contains__'):
            return self.d_in(st, d, st.freeze(args[0]))
        if name in ('keys', '__iter__', 'values', 'items') and getattr(self, 'note_orders', False):
            st.emit(Ev('log', 'unordered', (st.freeze(recv),), (), None, (n.file, n.line)))
        if name == 'keys' or name == '__iter__':
            return [(st, 'v', st.new(L('list', self.segs_of(st, d))))]
        if name == 'copy':
            return [(st, 'v', st.new(D(o.items, o.base, o.dels)))]
        if name in ('values', 'items'):
            segs = []
            for k, v in o.items:
                segs.append(('one', v if name == 'values' else tup(k, v)))
            for b in o.base:
                if b[0] == 'all':
                    e = ('elem', b[1])
                    v = st.mkitem(b[1], e)
                    cond = frozenset((mk_eq(e, k), False) for k in o.dels)
                    # items written over the unknown content come first
                    cond |= frozenset((mk_eq(e, st.freeze(k)), False) for k, x in o.items)
                    segs.append(('many', v if name == 'values' else tup(e, v), cond, b[1]))
                else:
                    segs.append(('many', b[2] if name == 'values' else tup(b[1], b[2]), b[3], b[4]))
            return [(st, 'v', st.new(L('list', segs)))]
        if name == 'update':
            for a in args:
                self.dict_update(st, d, a)
            for k, v in kw:
                self.d_set(st, d, const(k), v)
            for s in star:
                self.dict_update(st, d, s)
            self.dict_changed(st, recv, d, 'update', list(args) + [tup(const(k), v) for k, v in kw] + list(star), n)
            return [(st, 'v', NONE)]
        if name == 'clear':
            st.put(d, D(default=o.default))
            self.dict_changed(st, recv, d, 'clear', (), n)
            return [(st, 'v', NONE)]
        if name in ('pop', '__delitem__') and args:
            out = []
            for s, k, v in self.d_get(st, d, args[0], cx, n, args[1] if len(args) > 1 else None):
                if k == 'v':
                    for s2, k2, v2 in self.delitem(s, recv, args[0], cx, n):
                        out.append((s2, 'v', v if name == 'pop' else NONE) if k2 == 'next' else (s2, 'x', v2))
                else:
                    out.append((s, k, v))
            return out
        if name == 'setdefault' and args:
            out = []
            default = args[1] if len(args) > 1 else NONE
            miss = ('hv', 'missing', n.uid)
            for s, k, v in self.d_get(st, d, args[0], cx, n, miss):
                if k == 'v' and v == miss:
                    self.d_set(s, d, args[0], default)
                    self.dict_changed(s, recv, d, 'setitem', (args[0], default), n)
                    v = default
                out.append((s, k, v))
            return out
        if name == '__setitem__' and len(args) == 2:
            self.d_set(st, d, args[0], args[1])
            self.dict_changed(st, recv, d, 'setitem', args, n)
            return [(st, 'v', NONE)]
        if name == '__getitem__':
            return self.d_get(st, d, args[0], cx, n, None)
        if name == '__len__':
            return [(st, 'v', call('len', (st.freeze(recv),)))]
        if name == '__init__':
            self.dict_init(st, d, args, kw, star)
            return [(st, 'v', NONE)]
        return None

    # -------------------------------------------------- unknown objects
    def is_logger(self, v):
        n = cname(v)
        return n == 'logging.getLogger' or v == ('ext', 'logging')

    def call_opaque_meth(self, st, v, name, args, kw, star, cx, n):
        args, kw = model.positional('.' + name, args, kw)
        if self.log_events and (name in model.LOG_METHODS and v[0] == 'attr' and v[2] == 'log' or
                                self.is_logger(v)):
            st.emit(Ev('log', name, (v,) + tuple(st.freeze(a) for a in args), (), None, (n.file, n.line)))
        if name in model.LOG_METHODS and (self.is_logger(v) or v[0] == 'attr' and v[2] == 'log'):
            return [(st, 'v', NONE)]
        if self.is_logger(v):
            return [(st, 'v', NONE)]
        fa = tuple(st.freeze(a) for a in args)
        fk = tuple(sorted((k, st.freeze(x)) for k, x in kw))
        q = '.' + name
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, st, (v,) + fa, fk, cx, n)
            if r is not None:
                return r
        if name in model.NO_RETURN_METHODS and cname(v) and ('Parser' in str(cname(v)) or 'parser' in str(cname(v))) \
           or name in model.NO_RETURN_METHODS and v[0] == 'attr' and 'parser' in str(v[2]):
            out = self.opaque_call(st, q, [v] + args, kw, star, cx, n, (), False)
            return [(s, 'x', ('xinst', model.NO_RETURN_METHODS[name], ())) for s, k, x in out]
        if name == 'get' and args and term_type(v) not in ('str', 'list'):
            # a mapping: as "v[k] if k in v else default"
            default = args[1] if len(args) > 1 else NONE
            out = []
            for s, b in self.br(st, mk_in(fa[0], src(v))):
                out.append((s, 'v', s.mkitem(src(v), fa[0]) if b else default))
            return out
        if name == 'has_key' and args:
            return [(st, 'v', mk_in(fa[0], src(v)))]
        if name == '__contains__' and args:
            return self.contains(st, args[0], v, cx, n)
        if name == 'update' and (cname(v) or '').startswith('hashlib.') or \
           name == 'update' and self.hashlike(st, v):
            st.mlog[v] = st.mlog.get(v, ()) + (fa[0] if fa else NONE,)
            st.emit(Ev('hash', '.update', (v,) + fa, fk, None, (n.file, n.line)))
            return [(st, 'v', NONE)]
        if name in ('hexdigest', 'digest'):
            return [(st, 'v', call(q, (v,) + (('tup',) + tuple(st.mlog.get(v, ())),)))]
        if name == '__iter__':
            return [(st, 'v', v)]
        if name in ('__len__',):
            return [(st, 'v', call('len', (v,)))]
        if name == 'startswith' and fa and v[0] in ('fmt',) and is_str(fa[0]) and isinstance(v[1][0], str):
            p = v[1][0]
            if p.startswith(fa[0][2]):
                return [(st, 'v', TRUE)]
            if not fa[0][2].startswith(p):
                return [(st, 'v', FALSE)]
        if name in ('startswith', 'endswith') and fa and fa[0][0] == 'tup':
            # a tuple of alternatives
            pend = [st]
            out = []
            for x in fa[0][1:]:
                nxt = []
                for s in pend:
                    for s2, b in self.br(s, call(q, (v, x) + fa[1:])):
                        if b:
                            out.append((s2, 'v', TRUE))
                        else:
                            nxt.append(s2)
                pend = nxt
            return out + [(s, 'v', FALSE) for s in pend]
        if name in model.PURE_METHODS:
            if name in ('index', 'split') and False:
                pass
            if name in ('index',) and self.catches(cx, 'ValueError'):
                s2 = st.copy()
                return [(st, 'v', call(q, (v,) + fa, fk)), (s2, 'x', ('xinst', 'ValueError', ()))]
            if name in ('getmembers', 'getnames', 'namelist', 'infolist'):
                return [(st, 'v', call(q, (v,) + fa, fk))]
            return [(st, 'v', call(q, (v,) + fa, fk))]
        if name == 'setdefault' and len(fa) > 1 and not fk and term_type(v) not in ('str', 'list'):
            out = []
            for s, b in self.br(st, mk_in(fa[0], src(v))):
                if b:
                    out.append((s, 'v', s.mkitem(src(v), fa[0])))
                    continue
                s.emit(Ev('mut', name, (v,) + fa, fk, None, (n.file, n.line)))
                s.bump(src(v))
                s.bump(v) if src(v) != v else None
                out.append((s, 'v', args[1]))
            return out
        if name in model.MUTATORS:
            st.emit(Ev('mut', name, (v,) + fa, fk, None, (n.file, n.line)))
            res = NONE
            if name in ('pop', 'popitem', 'popleft', 'setdefault'):
                res = call(q, (v,) + fa, fk, st.ver.get(v, 0))
                if name == 'pop' and fa and not is_num(fa[0]):
                    res = st.mkitem(src(v), fa[0])
            st.bump(src(v))
            st.bump(v) if src(v) != v else None
            return [(st, 'v', res)]
        if name in model.ACT_METHODS:
            exc, fs = model.ACT_METHODS[name]
            return self.opaque_call(st, q, [v] + args, kw, star, cx, n, exc, fs)
        return self.opaque_call(st, q, [v] + args, kw, star, cx, n, ('?',), True)

    def hashlike(self, st, v):
        return v in st.mlog or v[0] in ('call',) and v[1] == '()' and not v[2][1:] \
            or cname(v) == 'hashlib.new'
