"""Loops: exact collections are unrolled, all others are iterated to a fixpoint
for a generic element."""
import os
from .pyast import AnalysisError
from .terms import *
from .terms import Ev
from .state import *
from .state import St, L, D, I, F
from .exprs import src

UNROLL = 40
HEADS = 10


class Loops(object):

    def segs_of(self, st, v):
        if v[0] == 'tup':
            return [('one', x) for x in v[1:]]
        if v[0] == 'L':
            return list(v[2])
        if v[0] == 'D':
            return [('one', k) for k, x in v[1]] + [
                b if b[0] == 'all' else ('many', b[1], b[3], b[4]) for b in v[2]]
        if v[0] == 'ref':
            o = st.obj(v)
            if isinstance(o, I):
                if o.content is not None:
                    o = st.obj(o.content)
                else:
                    return [('all', v)]
            if isinstance(o, L):
                return list(o.segs)
            if isinstance(o, D):
                segs = [('one', k) for k, x in o.items]
                for b in o.base:
                    if b[0] == 'all':
                        e = ('elem', b[1])
                        cond = frozenset((mk_eq(e, k), False) for k in o.dels)
                        segs.append(('many', e, cond, b[1]) if cond else ('all', b[1]))
                    else:
                        segs.append(('many', b[1], b[3], b[4]))
                return segs
        if is_str(v):
            return [('one', const(c)) for c in v[2]] if len(v[2]) <= UNROLL else [('all', v)]
        n = cname(v)
        if n == 'reversed' and len(v[2]) == 1:
            return [self.backwards(g) for g in reversed(self.segs_of(st, v[2][0]))]
        if n in ('sorted', 'list', 'tuple', 'set', 'frozenset', 'iter') and v[2]:
            return self.segs_of(st, v[2][0])
        if n in ('.keys', '.iterkeys', '.viewkeys', '.copy') and len(v[2]) == 1:
            return self.segs_of(st, v[2][0])
        if n in ('.items', '.iteritems', '.viewitems') and len(v[2]) == 1:
            d = src(v[2][0])
            e = ('elem', d)
            return [('many', tup(e, st.mkitem(d, e)), frozenset(), d)]
        if n in ('.values', '.itervalues', '.viewvalues') and len(v[2]) == 1:
            d = src(v[2][0])
            return [('many', st.mkitem(d, ('elem', d)), frozenset(), d)]
        if n == 'enumerate' and v[2]:
            return [('many', tup(call('index', (s[1],)), ('elem', s[1])), frozenset(), s[1])
                    if s[0] == 'all' else
                    ('many', tup(call('index', (s[1],)), s[1]),) + (
                        (s[2], s[3]) if s[0] == 'many' else (frozenset(), ('L', 'list', (s,))))
                    for s in self.segs_of(st, v[2][0])]
        if n == '.union' and len(v[2]) == 2:
            return self.segs_of(st, v[2][0]) + self.segs_of(st, v[2][1])
        if n == '.difference' and len(v[2]) == 2:
            r = self.setop(st, 'Sub', v[2][0], v[2][1])
            return list(st.obj(r).segs)
        return [('all', src(v))]

    def backwards(self, g):
        """the elements of the segment in the other direction"""
        if g[0] == 'one':
            return g
        back = lambda c: c[2][0] if cname(c) == 'reversed' else call('reversed', (c,))
        if g[0] == 'all':
            return ('all', back(g[1]))
        f = lambda t: subst(t, ('elem', g[3]), ('elem', back(g[3])))
        return ('many', f(g[1]), frozenset((f(a), p) for a, p in g[2]), back(g[3]))

    def for_value(self, st, cx, v, bind, body, node, orelse):
        """outcomes of a for loop over v"""
        if st.is_ref(v, I):
            o = st.obj(v)
            f = self.find_method(o.cls, '__iter__')
            if f is not None:
                out = []
                for s, k, x in self.call(st, self.bind(f, v, o.cls), [], [], [], cx, node):
                    if k == 'x':
                        out.append((s, 'exc', x))
                    else:
                        out += self.for_value(s, cx, x, bind, body, node, orelse)
                return out
        segs = self.segs_of(st, v)
        if len(segs) == 1 and segs[0][0] == 'all' and segs[0][1][0] == 'call' and segs[0][1][1] == 'sorted':
            inner = self.segs_of(st, segs[0][1])
            if inner and all(g[0] == 'one' for g in inner):
                # a list sorted in place
                v, segs = segs[0][1], inner
        if getattr(self, 'note_orders', False):
            f = st.freeze(v)
            if f[0] == 'D' or f[0] == 'L' and f[1] in ('set', 'frozenset') and segs:
                st.emit(Ev('log', 'unordered', (f,), (), None, (node.file, node.line)))
            elif f[0] == 'call' and f[1] in ('sorted', 'reversed'):
                st.emit(Ev('log', f[1], (f,), (), None, (node.file, node.line)))
        pend = [st]
        out = []
        broken = []
        for seg in segs:
            nxt = []
            for s in pend:
                if seg[0] == 'one':
                    pre = [s]
                    for s1, k1, v1 in bind(s, seg[1]):
                        if k1 != 'next':
                            out.append((s1, k1, v1))
                            continue
                        for s2, k2, v2 in body(s1):
                            if k2 in ('next', 'cont'):
                                nxt.append(s2)
                            elif k2 == 'brk':
                                broken.append(s2)
                            else:
                                out.append((s2, k2, v2))
                else:
                    ex, early = self.for_segment(s, cx, seg, bind, body, node)
                    nxt += ex
                    for s2, k2, v2 in early:
                        if k2 == 'brk':
                            broken.append(s2)
                        else:
                            out.append((s2, k2, v2))
            pend = self.dedupe(nxt, cx) if len(nxt) > 2 else nxt
            if len(pend) > 400:
                raise AnalysisError('%s:%s: too many states in a loop' % (node.file, node.line))
        for s in pend:
            if orelse is not None:
                for o in orelse(s):
                    out.append(o)
            else:
                out.append((s, 'next', None))
        return out + [(s, 'next', None) for s in broken]

    def while_loop(self, st, cx, cond, body, node, orelse):
        out = []
        coll = ('while', node.uid)

        # small exact loops (a worklist of known items) need no fixpoint
        def start(s):
            res = []
            for s2, k, b in cond(s):
                if k == 'x':
                    res.append((s2, 'exc', b))
                elif b:
                    res.append((s2, 'next', None))
                else:
                    res.append((s2, 'stop', None))
            return res
        ex, early = (self.stepwise if self.step_whiles else self.generic)(
            st, cx, coll, start, body, node, None)
        for s in ex:
            if orelse is not None:
                out += orelse(s)
            else:
                out.append((s, 'next', None))
        for s, k, v in early:
            out.append((s, 'next', None) if k == 'brk' else (s, k, v))
        return out

    def generic(self, st, cx, coll, start, body, node, conds):
        """(exit states, early outcomes) of a loop whose iterations all begin
        with start (which binds the variables or tests the condition)"""
        self.loops_seen += 1
        isfor = coll[0] != 'while'
        elem = ('elem', coll)
        outer, pathin = st.trace, st.path
        h0 = st.copy()
        h0.trace = ()
        h0.loops = st.loops + (coll,)
        saved = None
        if isfor and any(mentions(a, elem) for a in h0.facts):
            # the same collection is being iterated further out
            h0.facts = {a: p for a, p in h0.facts.items() if not mentions(a, elem)}
        entry = h0.copy()
        roots = self.roots(cx)
        heads = [h0]
        seen = {h0.canon(roots)}
        first = h0.canon(roots)
        skel, segs = self.skeleton(h0, roots)
        groups = {skel: (h0, segs)}
        full = isfor and coll in self.nonempty and not conds
        records = set()
        exits = []
        early = []
        if isfor and conds:
            records.add(('skip', frozenset([(('allof', conds), False)]), ()))
        wide = None
        changed = set()
        i = 0
        while i < len(heads):
            h = heads[i]
            i += 1
            if isfor and (h is not h0 or not full):
                x = h.copy()
                exits.append(x)
            work = h.copy()
            work.path = frozenset()
            if self.head_facts:
                work.path = frozenset((a, p) for a, p in h.facts.items()
                                      if a not in entry.facts and not mentions(a, ('last', coll)))
            outs = []
            for s, k, v in start(work):
                if k == 'stop':
                    exits.append(s)
                elif k == 'next':
                    outs += body(s)
                else:
                    outs.append((s, k, v))
            for s, k, v in outs:
                kind = 'next' if k in ('next', 'cont') else k
                rec = (kind, s.path, tuple(s.events()))
                if kind != 'next':
                    early.append((s, k, v))
                    records.add((kind, s.path, tuple(s.events()), v if kind != 'brk' else None)[:3])
                    continue
                records.add(rec)
                c = self.close(entry, s, coll, node, roots)
                key = c.canon(roots)
                if full and key == first:
                    exits.append(h0.copy())     # an iteration may change nothing
                    full = False
                if key in seen:
                    continue
                skel, segs = self.skeleton(c, roots)
                g = groups.get(skel)
                if g is not None:
                    if set(segs) <= set(g[1]):
                        if full and g[0] is h0:
                            exits.append(h0.copy())
                            full = False
                        continue
                    c = self.unite(c, segs, g)
                    skel, segs = self.skeleton(c, roots)
                    key = c.canon(roots)
                groups[skel] = (c, segs)
                if len(heads) >= HEADS:
                    c = self.widen(wide or entry, c, node)
                    wide = c
                    key = c.canon(roots)
                if key in seen:
                    continue
                if len(heads) > HEADS + 6:
                    c = self.collapse(entry, c, node, changed)
                    key = c.canon(roots)
                    if key in seen:
                        continue
                if len(heads) > HEADS + 60:
                    if os.environ.get('VERIF_DEBUG'):
                        self.debug_heads(heads, roots)
                    raise AnalysisError('%s:%s: the loop analysis does not converge' % (
                        node.file, node.line))
                seen.add(key)
                heads.append(c)
        recs = frozenset(records)
        loc = (node.file, node.line)
        done = Ev('loop', 'done', (coll,), recs, None, loc)
        part = Ev('loop', 'part', (coll,), recs, None, loc)
        res = []
        for x in self.subsume(exits, roots):
            tr = (outer, done)
            for e in x.events():          # effects of a failing while condition
                tr = (tr, e)
            x.trace = tr
            x.loops = st.loops
            x.path = pathin | x.path if not isfor else pathin
            self.count_events(x, recs)
            res.append(x)
        out = []
        for s, k, v in early:
            tr = (outer, part)
            for e in s.events():
                tr = (tr, e)
            s.trace = tr
            s.loops = st.loops
            s.path = pathin | s.path
            if isfor and k in ('brk', 'ret'):
                wit = ('wit', coll)
                s.facts = {a: p for a, p in s.facts.items() if not mentions(a, wit)}
                s.substall(elem, wit)
                s.path = frozenset((subst(a, elem, wit), p) for a, p in s.path)
                if v is not None:
                    v = subst(v, elem, wit)
                s.trace = self.subst_tail(s.trace, part, elem, wit)
            out.append((s, k, v))
        return res, out

    nonempty = frozenset()      # collections known to have elements
    step_whiles = False
    step_fors = False
    head_facts = False      # show in a path what was found out in earlier iterations

    def stepwise(self, st, cx, coll, start, body, node, conds):
        """One arbitrary iteration: everything the loop changes is unknown at
        its head.  The transitions are kept for rules about loop variants."""
        self.loops_seen += 1
        entry = st.copy()
        entry.trace, entry.path = (), frozenset()
        entry.loops = st.loops + (coll,)
        # unknowns of an earlier run of this loop are not those of this one
        mine = lambda x: isinstance(x, tuple) and len(x) == 3 and x[0] == 'hv' and x[2] in (node.uid, -node.uid)
        if any(mine(x) for a in entry.facts for x in subterms(a)):
            entry.facts = {a: p for a, p in entry.facts.items() if not any(mine(x) for x in subterms(a))}
        pathin = frozenset((a, p) for a, p in st.path if not any(mine(x) for x in subterms(a)))
        for n in sorted(entry.hvs(node.uid)):
            entry.substall(('hv', n, node.uid), ('hv', n, -node.uid))
        changed = set()
        while True:
            head = self.collapse(entry, entry, node, changed)
            head.trace, head.path = (), frozenset()
            outs, exits = [], []
            if coll[0] != 'while':
                elem = ('elem', coll)
                head.facts = {a: p for a, p in head.facts.items() if not mentions(a, elem)}
                exits.append(head.copy())
            for s, k, v in start(head.copy()):
                if k == 'stop':
                    exits.append(s)
                elif k == 'next':
                    outs += body(s)
                else:
                    outs.append((s, k, v))
            n = len(changed)
            for s, k, v in outs:
                if k in ('next', 'cont'):
                    self.collapse(entry, s, node, changed)
            if len(changed) == n:
                break
        self.transitions.append((node, entry, head, outs, exits, cx, coll))
        recs = frozenset(('next' if k in ('next', 'cont') else k, s.path, tuple(s.events()))
                         for s, k, v in outs)
        loc = (node.file, node.line)
        done = Ev('loop', 'done', (coll,), recs, None, loc)
        part = Ev('loop', 'part', (coll,), recs, None, loc)
        res, early = [], []
        for x in exits:
            tr = (st.trace, done)
            for e in x.events():
                tr = (tr, e)
            x.trace, x.loops, x.path = tr, st.loops, pathin | x.path
            res.append(x)
        for s, k, v in outs:
            if k in ('next', 'cont'):
                continue
            tr = (st.trace, part)
            for e in s.events():
                tr = (tr, e)
            s.trace, s.loops, s.path = tr, st.loops, pathin | s.path
            early.append((s, k, v))
        return res, early

    def debug_heads(self, heads, roots):
        import pprint
        a, b = [set(map(repr, self.flatcanon(h.canon(roots)))) for h in heads[-2:]]
        print('only second to last'); pprint.pprint(sorted(a - b), width=200)
        print('only last'); pprint.pprint(sorted(b - a), width=200)

    def flatcanon(self, c):
        return list(c[1]) + list(c[2]) + list(c[3]) + list(c[4]) + [('fsv', c[5])] + list(c[6])

    def subst_tail(self, trace, stop, a, b):
        evs = []
        while trace and trace[1] is not stop:
            trace, e = trace
            evs.append(e)
        for e in reversed(evs):
            trace = (trace, subst(e, a, b))
        return trace

    def count_events(self, st, recs):
        for r in recs:
            for e in r[2]:
                if e.kind == 'call' and e.res is not None:
                    key = e.res[:4] if isinstance(e.res, tuple) else e.res
                    st.cnt[key] = max(st.cnt.get(key, 0), (e.res[4] if len(e.res) > 4 else 0) + 1)

    def close(self, entry, s, coll, node, roots):
        """The state at the end of an iteration, as a state at the loop head"""
        elem = ('elem', coll)
        isfor = coll[0] != 'while'
        conds = frozenset((a, p) for a, p in s.path if isfor and mentions(a, elem)) if isfor else s.path
        s = s.copy()
        s.path = entry.path
        s.trace = ()
        s.cnt = dict(entry.cnt)
        s.loops = entry.loops
        frm = entry.nxt
        # lists and dicts that grew
        for a, o in list(s.heap.items()):
            e = entry.heap.get(a)
            if o is e:
                continue
            if isinstance(o, L):
                pre = len(e.segs) if isinstance(e, L) and o.segs[:len(e.segs)] == e.segs else 0
                segs = list(o.segs[:pre])
                changed = False
                conds0, conds = conds, self.about_self(s, a, o, pre, conds)
                for g in o.segs[pre:]:
                    if g[0] == 'one' and (isinstance(e, L) or mentions(g[1], elem) or
                                          self.reaches(s, g[1], elem)):
                        if not isfor and not isinstance(e, L):
                            segs.append(g)
                            continue
                        g = ('many', g[1], conds, coll)
                        changed = True
                    elif isfor and isinstance(e, L) and g[0] != 'one' and mentions(g, elem) and \
                            not has_ref(g) and g[-1] != coll:
                        g = ('all', self.nested(coll, g, conds))
                        if g in segs:
                            continue
                    segs.append(g)
                s.heap[a] = L(o.kind, segs)
                conds = conds0
            elif isinstance(o, D):
                if isinstance(e, D) and o.items != e.items or not isinstance(e, D):
                    items, base = [], list(o.base)
                    for k, v in o.items:
                        if isfor and mentions(k, elem):
                            b = ('many', k, v, conds, coll)
                            if b not in base:
                                base.append(b)
                        else:
                            items.append((k, v))
                    s.heap[a] = o.but(items=items, base=base)
        keep = self.isolate(s, coll, frm, roots) if isfor else ()
        for m, v in list(s.mlog.items()):
            e = entry.mlog.get(m, ())
            if v != e:
                tail = v[len(e):]
                new = []
                for t in tail:
                    for u in (t[2] if t[0] == 'loop' else frozenset([t])):
                        new.append(u)
                s.mlog[m] = e + (('loop', coll, frozenset(new)),)
        if isfor:
            s.facts = {a: p for a, p in s.facts.items() if not mentions(a, elem)}
            s.store = {k: v for k, v in s.store.items() if not mentions(k, elem) and not mentions(v, elem)}
            s.substall(elem, ('last', coll), keep)
        self.merge_segments(s)
        fresh = lambda t: any(isinstance(x, tuple) and len(x) == 2 and x[0] == 'ref'
                              and x[1] >= frm for x in subterms(t))
        s.facts = {a: p for a, p in s.facts.items() if not fresh(a)}
        s.store = {k: v for k, v in s.store.items() if not fresh(k)}
        s.ver = {k: (v if entry.ver.get(k) == v else entry.ver.get(k, 0) + 1)
                 for k, v in s.ver.items() if not fresh(k)}
        s.mlog = {k: v for k, v in s.mlog.items() if not fresh(k)}
        if s.fsv != entry.fsv:
            s.fsv = entry.fsv + 1
            s.facts = {a: p for a, p in s.facts.items() if a in entry.facts or not fsdep(a)}
        # versions grow with every iteration: forget facts about superseded ones
        if not isfor:
            s.facts = {a: p for a, p in s.facts.items()
                       if a in entry.facts or not versioned(a)}
        # counters and texts built up
        stale = set()
        for a, o in list(s.heap.items()):
            e = entry.heap.get(a)
            if e is None or o is e:
                continue
            if isinstance(o, F) and isinstance(e, F):
                d = dict(o.vars)
                for n, v in o.vars.items():
                    w = e.vars.get(n)
                    if w is not None and v != w and self.grows(w, v):
                        d[n] = ('hv', n, node.uid)
                        if v != d[n]:
                            stale.add(d[n])
                s.heap[a] = F(d, o.parent)
            elif isinstance(o, I) and isinstance(e, I):
                d = dict(o.attrs)
                for n, v in o.attrs.items():
                    w = e.attrs.get(n)
                    if w is not None and v != w and self.grows(w, v):
                        d[n] = ('hv', n, node.uid)
                        if v != d[n]:
                            stale.add(d[n])
                s.heap[a] = I(o.cls, d, o.content)
        if stale:
            s.facts = {a: p for a, p in s.facts.items() if not any(x in stale for x in subterms(a))}
        return s

    def about_self(self, s, a, o, pre, conds):
        """conditions that ask what the list at address a holds already"""
        if not any(c[0] == 'cmp' and c[1] == 'in' and c[3][0] == 'L' for c, _ in conds):
            return conds
        t = s.copy()
        mine = set()
        for k in range(pre, len(o.segs) + 1):
            t.heap[a] = L(o.kind, o.segs[:k])
            mine.add(t.freeze(('ref', a)))
        return frozenset((('cmp', 'in', c[2], ('self',)) if c[0] == 'cmp' and c[1] == 'in' and c[3] in mine else c, p)
                         for c, p in conds)

    def for_segment(self, st, cx, seg, bind, body, node):
        """a loop over the elements of one segment: (exits, early outcomes)"""
        if seg[0] == 'all':
            coll, val, conds = seg[1], ('elem', seg[1]), frozenset()
        else:
            coll, val, conds = seg[3], seg[1], seg[2]
        nest = None
        if coll[0] == 'nest':
            # one loop inside another
            f = lambda x: subst(x, ('bv', coll[1]), ('elem', coll[1]))
            val = subst(val, ('elem', coll), f(coll[3]))
            conds = frozenset((subst(a, ('elem', coll), f(coll[3])), p) for a, p in conds)
            conds |= frozenset((f(a), p) for a, p in coll[4])
            outer, inner = coll[1], f(coll[2])
            e = ('elem', inner)
            mine = frozenset((a, p) for a, p in conds if not mentions(a, e))
            nest = ('many', val, conds - mine, inner)
            coll, conds = outer, mine

        def start(x):
            ok = True
            for a, p in sorted(conds, key=repr):
                if not x.assume(a, p):
                    ok = False
            if not ok:
                return []
            return bind(x, val) if nest is None else [(x, 'next', None)]

        def within(x):
            ex, early = self.for_segment(x, cx, nest, bind, body, node)
            return [(s, 'next', None) for s in ex] + early
        stepwise = self.step_fors and node.t == 'For'
        return (self.stepwise if stepwise else self.generic)(
            st, cx, coll, start, body if nest is None else within, node, conds)

    def nested(self, coll, g, conds):
        """the sequence of what the segment g gives for every element of coll
        (for which the conditions hold)"""
        b = ('bv', coll)
        f = lambda x: subst(x, ('elem', coll), b)
        inner = g[-1]
        val = ('elem', inner) if g[0] == 'all' else g[1]
        cs = frozenset() if g[0] == 'all' else g[2]
        return ('nest', coll, f(inner), f(val), frozenset((f(a), p) for a, p in cs | conds))

    def isolate(self, s, coll, frm, roots):
        """What generic segments over coll hold stands for every element: give
        it objects of its own, and say which they are"""
        mine = lambda g: g[0] == 'many' and g[-1] == coll
        others = self.reachable(s, roots, mine)
        for a, o in list(s.heap.items()):
            part = o.segs if isinstance(o, L) else o.base if isinstance(o, D) else ()
            if not any(mine(g) for g in part):
                continue
            new = []
            for g in part:
                if mine(g):
                    memo = {}
                    vals = [self.clone(s, v, frm, others, memo) for v in g[1:-2]]
                    g = (g[0],) + tuple(vals) + g[-2:]
                new.append(g)
            if tuple(new) != tuple(part):
                s.heap[a] = L(o.kind, new) if isinstance(o, L) else o.but(base=tuple(new))
        others = self.reachable(s, roots, mine)
        inside = set()
        for a, o in s.heap.items():
            for g in (o.segs if isinstance(o, L) else o.base if isinstance(o, D) else ()):
                if mine(g):
                    inside |= self.reachable(s, g[1:-2], lambda g: False)
        return inside - others

    def reachable(self, s, roots, skip):
        seen = set()
        todo = list(roots)
        while todo:
            v = todo.pop()
            if isinstance(v, frozenset):
                if has_ref(v):
                    todo.extend(v)
                continue
            if not (isinstance(v, tuple) and v):
                continue
            if len(v) == 2 and v[0] == 'ref':
                if v[1] in seen or v[1] not in s.heap:
                    continue
                seen.add(v[1])
                o = s.heap[v[1]]
                if isinstance(o, L):
                    todo += [g for g in o.segs if not skip(g)]
                elif isinstance(o, D):
                    todo += [x for kv in o.items for x in kv]
                    todo += [g for g in o.base if not skip(g)]
                elif isinstance(o, I):
                    todo += list(o.attrs.values())
                    if o.content is not None:
                        todo.append(('ref', o.content))
                elif isinstance(o, F):
                    todo += list(o.vars.values())
                    if o.parent is not None:
                        todo.append(('ref', o.parent))
            else:
                if has_ref(v):
                    todo += [x for x in v if isinstance(x, (tuple, frozenset))]
        return seen

    def clone(self, s, v, frm, others, memo):
        if not isinstance(v, tuple):
            return v
        if len(v) == 2 and v[0] == 'ref':
            a = v[1]
            if a < frm or a not in s.heap or a not in others:
                return v
            if a in memo:
                return memo[a]
            o = s.heap[a]
            r = s.new(o)
            memo[a] = r
            g = lambda x: self.clone(s, x, frm, others, memo)
            s.heap[r[1]] = self.mapped(o, g)
            return r
        return tuple(self.clone(s, x, frm, others, memo) if isinstance(x, tuple) else x for x in v)

    def mapped(self, o, g):
        if isinstance(o, L):
            return L(o.kind, [(x[0], g(x[1])) + tuple(x[2:]) for x in o.segs])
        if isinstance(o, D):
            return o.but(items=tuple((g(k), g(x)) for k, x in o.items),
                         base=tuple((b[0], b[1], g(b[2]), b[3], b[4]) if b[0] == 'many' else b
                                    for b in o.base))
        if isinstance(o, I):
            return I(o.cls, {k: g(x) for k, x in o.attrs.items()},
                     g(('ref', o.content))[1] if o.content is not None else None)
        return F({k: g(x) for k, x in o.vars.items()}, o.parent)

    def merge_segments(self, s):
        """one generic segment per content"""
        for a, o in list(s.heap.items()):
            if isinstance(o, L) and sum(1 for g in o.segs if g[0] == 'many') > 1:
                out, seen = [], set()
                for g in o.segs:
                    if g[0] == 'many':
                        k = (s.canonv(g[1]), g[2], g[3])
                        if k in seen:
                            continue
                        seen.add(k)
                    out.append(g)
                s.heap[a] = L(o.kind, out)
            elif isinstance(o, D) and sum(1 for b in o.base if b[0] == 'many') > 1:
                out, seen = [], set()
                for b in o.base:
                    if b[0] == 'many':
                        k = (s.canonv(tup(b[1], b[2])), b[3], b[4])
                        if k in seen:
                            continue
                        seen.add(k)
                    out.append(b)
                s.heap[a] = o.but(base=tuple(out))

    def reaches(self, s, v, elem, depth=0):
        if v[0] == 'ref' and depth < 3:
            o = s.obj(v)
            if isinstance(o, I):
                return any(mentions(x, elem) or self.reaches(s, x, elem, depth + 1)
                           for x in o.attrs.values())
        return False

    def grows(self, w, v):
        if is_c(w) and is_c(v):
            return w[1] == 'int' and v[1] == 'int' or w[1] == 'str' and v[1] == 'str'
        if v[0] in ('fmt', 'call') and size(v) > size(w) and (mentions(v, w) or is_str(w) or v[0] == w[0] == 'fmt'):
            return True
        return size(v) > 300

    def widen(self, e, s, node):
        s = s.copy()
        for a, o in list(s.heap.items()):
            w = e.heap.get(a)
            if w is None or w is o:
                continue
            if isinstance(o, F) and isinstance(w, F):
                d = {}
                for n, v in o.vars.items():
                    x = w.vars.get(n)
                    d[n] = v if x == v or x is None else ('hv', n, node.uid)
                s.heap[a] = F(d, o.parent)
            elif isinstance(o, I) and isinstance(w, I):
                d = {}
                for n, v in o.attrs.items():
                    x = w.attrs.get(n)
                    d[n] = v if x == v or x is None else ('hv', n, node.uid)
                s.heap[a] = I(o.cls, d, o.content)
            elif isinstance(o, L) and isinstance(w, L):
                pass
            elif isinstance(o, D) and isinstance(w, D):
                base = list(o.base)
                if o.items != w.items and ('all', ('hv', 'dict', node.uid)) not in base:
                    base.append(('all', ('hv', 'dict', node.uid)))
                    s.heap[a] = o.but(base=tuple(base), items=tuple(x for x in o.items if x in w.items))
        s.facts = {a: p for a, p in s.facts.items() if e.facts.get(a) == p}
        return s

    def collapse(self, e, s, node, changed):
        """Forget everything the loop has been seen to change"""
        s = s.copy()
        hv = lambda n: ('hv', n, node.uid)
        for a, w in e.heap.items():
            o = s.heap.get(a)
            if isinstance(o, F) and isinstance(w, F):
                for n, v in o.vars.items():
                    if w.vars.get(n) != v:
                        changed.add((a, n))
                for n in w.vars:
                    if n not in o.vars:
                        changed.add((a, n))
            elif isinstance(o, I) and isinstance(w, I):
                for n in set(o.attrs) | set(w.attrs):
                    if o.attrs.get(n) != w.attrs.get(n):
                        changed.add((a, n))
            elif isinstance(o, L) and isinstance(w, L):
                if o.segs != w.segs:
                    changed.add((a, None))
            elif isinstance(o, D) and isinstance(w, D):
                if (o.items, o.base, o.dels) != (w.items, w.base, w.dels):
                    changed.add((a, None))
        for a, n in changed:
            o = s.heap[a]
            if isinstance(o, F):
                d = dict(o.vars)
                d[n] = hv(n)
                s.heap[a] = F(d, o.parent)
            elif isinstance(o, I):
                d = dict(o.attrs)
                d[n] = hv(n)
                s.heap[a] = I(o.cls, d, o.content)
            elif isinstance(o, L):
                s.heap[a] = L(o.kind, [('all', hv('list%d' % a))])
            else:
                s.heap[a] = D((), (('all', hv('dict%d' % a)),), frozenset(), o.default)
        s.facts = {a: p for a, p in s.facts.items() if e.facts.get(a) == p}
        s.store = dict(e.store)
        s.ver = dict(e.ver)
        s.mlog = dict(e.mlog)
        return s

    def skeleton(self, x, roots):
        """(state without its generic segments, {segment: (address, segment)})"""
        y = x.copy()
        names = self.numbering(x, roots)
        sets = {}
        for a, o in sorted(y.heap.items()):
            if isinstance(o, L) and any(generic(g) for g in o.segs):
                y.heap[a] = L(o.kind, [g for g in o.segs if not generic(g)])
                for g in o.segs:
                    if g[0] == 'all' and generic(g):
                        sets[(names.get(a, -1), x.canonv(g[1]), None, None)] = (a, g)
                    elif g[0] == 'many':
                        sets[(names.get(a, -1), x.canonv(g[1]), g[2], g[3])] = (a, g)
            elif isinstance(o, D) and any(b[0] == 'many' for b in o.base):
                y.heap[a] = o.but(base=tuple(b for b in o.base if b[0] != 'many'))
                for b in o.base:
                    if b[0] == 'many':
                        sets[(names.get(a, -1), x.canonv(tup(b[1], b[2])), b[3], b[4])] = (a, b)
            elif isinstance(o, F):
                # loop variables left over from an earlier iteration
                if any(mentions_last(v) for v in o.vars.values()):
                    y.heap[a] = F({n: v for n, v in o.vars.items() if not mentions_last(v)}, o.parent)
        y.facts = {a: p for a, p in y.facts.items() if not mentions_last(a)}
        return y.canon(roots), sets

    def numbering(self, x, roots):
        """a name for every reachable container that does not depend on what
        generic segments hold"""
        names = {}
        queue = list(roots)
        while queue:
            v = queue.pop(0)
            if not (isinstance(v, tuple) and v):
                continue
            if len(v) == 2 and v[0] == 'ref':
                a = v[1]
                if a in names or a not in x.heap:
                    continue
                names[a] = len(names)
                o = x.heap[a]
                if isinstance(o, F):
                    queue += [o.vars[k] for k in sorted(o.vars) if not mentions_last(o.vars[k])]
                    if o.parent is not None:
                        queue.append(('ref', o.parent))
                elif isinstance(o, I):
                    queue += [o.attrs[k] for k in sorted(o.attrs)]
                    if o.content is not None:
                        queue.append(('ref', o.content))
                elif isinstance(o, L):
                    queue += [g[1] for g in o.segs if g[0] == 'one']
                elif isinstance(o, D):
                    for k, w in o.items:
                        queue += [k, w]
            else:
                queue += [y for y in v if isinstance(y, tuple)]
        return names

    def unite(self, c, segs, group):
        """c with the generic segments of both"""
        other, osegs = group
        c = c.copy()
        names = {}
        for k, (a, g) in segs.items():
            names.setdefault(k[0], a)
        # places that have no generic segment in c yet
        onames = {}
        for k, (a, g) in osegs.items():
            onames[k[0]] = a
        for k in osegs:
            if k in segs:
                continue
            oa, g = osegs[k]
            a = names.get(k[0])
            if a is None:
                a = oa
                if a not in c.heap or type(c.heap[a]) is not type(other.heap[oa]):
                    continue
            o = c.heap[a]
            memo = {}
            if isinstance(o, L):
                if g[0] == 'many':
                    g = ('many', self.graft(c, other, g[1], memo), g[2], g[3])
                c.heap[a] = L(o.kind, o.segs + (g,))
            else:
                g = ('many', self.graft(c, other, g[1], memo), self.graft(c, other, g[2], memo), g[3], g[4])
                c.heap[a] = o.but(base=o.base + (g,))
        # one order for segments of one loop
        for a, o in list(c.heap.items()):
            if isinstance(o, L) and sum(1 for g in o.segs if g[0] == 'many') > 1:
                c.heap[a] = L(o.kind, self.order(c, o.segs))
        return c

    def order(self, c, segs):
        out, run = [], []
        for g in list(segs) + [None]:
            if g is not None and g[0] == 'many' and (not run or run[-1][3] == g[3]):
                run.append(g)
                continue
            out += sorted(run, key=lambda x: sorted(map(repr, x[2])))
            run = []
            if g is not None:
                if g[0] == 'many':
                    run = [g]
                else:
                    out.append(g)
        return out

    def graft(self, dst, frm, v, memo):
        """copy the objects v refers to from another state"""
        if not isinstance(v, tuple):
            return v
        if len(v) == 2 and v[0] == 'ref':
            a = v[1]
            if a not in frm.heap or dst.heap.get(a) is frm.heap[a]:
                return v
            if a in memo:
                return memo[a]
            o = frm.heap[a]
            r = dst.new(o)
            memo[a] = r
            g = lambda x: self.graft(dst, frm, x, memo)
            n = self.mapped(o, g)
            dst.put(r, n)
            return r
        return tuple(self.graft(dst, frm, x, memo) if isinstance(x, tuple) else x for x in v)

    def subsume(self, exits, roots):
        """Drop exit states another one covers (fewer generic segments)"""
        if len(exits) < 2:
            return exits
        keys = []
        for x in exits:
            k, sets = self.skeleton(x, roots)
            keys.append((k, frozenset(sets), x))
        groups = {}
        for k, g, x in keys:
            groups.setdefault(k, []).append((g, x))
        out = []
        for k, items in groups.items():
            best = []
            for g, x in reversed(items):
                if any(g < g2 for g2, x2 in items) or any(g == g2 for g2, x2 in best):
                    continue
                best.append((g, x))
            out += [x for g, x in best]
        pos = {id(y): i for i, y in enumerate(exits)}
        out.sort(key=lambda x: pos[id(x)])
        return out


def generic(g):
    """a segment with any number of elements"""
    return g[0] == 'many' or g[0] == 'all' and g[1][0] == 'nest'


def fsdep(a):
    from . import model
    return any(isinstance(x, tuple) and len(x) > 1 and x[0] == 'call' and isinstance(x[1], str)
               and x[1] in model.FSREAD for x in subterms(a))


def versioned(a):
    return any(isinstance(x, tuple) and x and (x[0] == 'item' and len(x) == 4 or
                                               x[0] == 'call' and len(x) > 4 and x[4])
               for x in subterms(a))
