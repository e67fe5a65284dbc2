"""C27, C28: collecting and solving dependencies"""
import itertools
from .base import *

MOD = 'ipkg.dependencies.'
SOLVER, SR, NODE = MOD + 'Solver', MOD + 'SolverRequirement', MOD + 'Node'
REQ = 'ipkg.requirements.Requirement'
SELECT = MOD + 'select_most_recent_version'
LOOP, ERROR = MOD + 'DependencyLoop', 'ipkg.exceptions.IpkgException'
OLD = sym('old')


def a_requirement(A, st, args, kw, cx, n):
    return [(st, 'v', call('Requirement', tuple(args)))]


def a_solver_requirement(A, st, args, kw, cx, n):
    return [(st, 'v', call('SolverRequirement', tuple(args)))]


def the_solver(A, st):
    return st.new(I(SOLVER, {'requirements': sym('requirements'), 'objects': sym('objects'), 'nodes': sym('nodes')}))


# ------------------------------------------------------- C27: one name

def merged_into(v, old, new):
    """v is the combination of both requirements"""
    v = strip(v)
    return v[0] == 'call' and (
        v[1] in (REQ + '.__add__', '+', '.__add__', '.__radd__') and set(v[2]) == {old, new} and len(v[2]) == 2)


class Satisfiers(object):
    """a solver requirement whose candidates are known"""

    def __init__(self, R, method, args, raises=False, old=(0, 1)):
        A = analysis(raises=True) if raises else analysis(raises=False)
        A.opaque |= {REQ + '.__add__', REQ + '.satisfied_by', REQ + '.__eq__', REQ + '.__hash__'}
        A.nonempty = {OLD}
        self.old = list(old)
        if raises:
            A.raises_only = {REQ + '.__add__'}
        st = A.fresh()
        self.merged = st.new(I(REQ, {'name': sym('name')}))
        kept = st.new(L('set', (('all', OLD),) if old else ()))
        self.me = st.new(I(SR, {'name': sym('name'), 'merged': self.merged, 'requesters': sym('requesters'),
                                'satisfiers': kept}))
        self.A = A
        self.outs = A.method(reset(A, st), self.me, method, args)
        R.saw(A, self.outs)

    def state(self, o):
        a = o.st.obj(self.me).attrs
        return o.st.freeze(a['merged']), o.st.freeze(a['satisfiers'])

    def worlds(self, merged, extra=()):
        """which old candidates, and other nodes, satisfy the merged requirement"""
        for ok in itertools.product((True, False), repeat=2 + len(extra)):
            names = [0, 1] + list(range(2, 2 + len(extra)))

            def model(t, env, ok=ok):
                if t[0] == 'call' and (t[1] == '.satisfied_by' or t[1] == REQ + '.satisfied_by') and len(t[2]) == 2 and \
                        t[2][0] == strip(merged) and t[2][1][0] == 'attr' and t[2][1][2] == 'obj':
                    i = fold(t[2][1][1], env)
                    if isinstance(i, int) and i < len(ok):
                        return ok[i]
                return UNKNOWN
            env = {OLD: self.old, 'model': model}
            for i, x in enumerate(extra):
                env[x] = 2 + i
            yield dict(zip(names, ok)), env


def with_elem(env, i):
    e = dict(env)
    e[('elem', OLD)] = i
    return lambda a: foldb(strip(a), e)


def c27(R):
    R.rule('start', 'a new combination is the bare requirement of its name, with no candidates')
    R.rule('combined', 'merging combines the requirement with what was merged before')
    R.rule('kept', 'after merging the candidates are those of before which satisfy the new combination')
    R.rule('added', 'a node becomes a candidate exactly if it satisfies the combination')
    R.rule('unchanged', 'no other method, and nothing else in the solver, changes candidates or combination')
    R.rule('every-requirement', 'every dependency of an added package is merged into the combination for its name')
    R.rule('offered', 'an added package is offered to the requirements of its name, and recorded')
    start(R)
    merging(R)
    others(R)
    adding(R)
    elsewhere(R)


def start(R):
    A = analysis(raises=False)
    A.hooks[REQ] = a_requirement
    st = A.fresh()
    outs = [o for o in instance(A, st, SR, [sym('name')])]
    R.saw(A, outs)
    loc = loc_of(A, SR + '.__init__')
    for o in outs:
        if not o.ok:
            R.ob('start', SR, False, loc, '%s raised' % o.exc())
            continue
        m = [strip(v) for v in values_of(A, o.st, o.val, 'merged')]
        s = values_of(A, o.st, o.val, 'satisfiers')
        R.ob('start', SR, m == [strip(call('Requirement', (sym('name'),)))], loc, 'starts as %s' % ', '.join(map(show, m))[:100])
        R.ob('start', SR, s == [('L', 'set', ())], loc, 'starts with candidates %s' % ', '.join(map(show, s))[:100])


def merging(R):
    for raises, old in ((False, (0, 1)), (True, (0, 1)), (False, ())):
        S = Satisfiers(R, 'merge', [sym('requirement'), sym('requester')], raises, old)
        loc = loc_of(S.A, SR + '.merge')
        good = 0
        for o in S.outs:
            merged, kept = S.state(o)
            new = merged_into(merged, S.merged, sym('requirement'))
            if not o.ok:
                R.ob('kept', 'failed merge', new or (strip(merged) == S.merged and kept == ('L', 'set', (('all', OLD),))),
                     loc, 'after a failed merge the combination is %s with candidates %s' % (
                         show(merged)[:100], show(kept)[:200]))
                if not new:
                    continue
            elif not R.ob('combined', 'merge', new, loc, 'the combination is %s' % show(merged)[:200]):
                continue
            good += 1
            for ok, env in S.worlds(merged):
                if feasible(o, lambda a: foldb(strip(a), env),
                            lambda c: [with_elem(env, i) for i in env[OLD]] if c == OLD else None) is False:
                    continue
                got = fold(strip(kept), env)
                want = [i for i in env[OLD] if ok[i]]
                R.ob('kept', 'merge', got is not UNKNOWN and sorted(got) == want, loc,
                     'the candidates are %s' % show(kept)[:300])
        R.ob('combined', 'merge', good > 0, loc, 'merging never succeeds')


def others(R):
    A = analysis(raises=False)
    if SR not in A.classes:
        raise Missing(SR)
    for m, f in sorted(A.classes[SR].ns.items()):
        if m in ('__init__', 'merge') or not (isinstance(f, tuple) and f[0] == 'func') or m.startswith('_' + SR.split('.')[-1]):
            continue
        n = A.func_node(SR + '.' + m)
        count = len(n.args.args) - 1
        args = [sym('node%d' % i) for i in range(count)]
        loc = (n.file, n.line)
        rule = 'added' if m == 'satisfy' else 'unchanged'
        some = False
        for old in ((0, 1), ()):
            S = Satisfiers(R, m, args, old=old)
            for o in S.outs:
                merged, kept = S.state(o)
                R.ob('unchanged', m, strip(merged) == S.merged, loc, 'the combination becomes %s' % show(merged)[:200])
                for ok, env in S.worlds(S.merged, args):
                    if feasible(o, lambda a: foldb(strip(a), env),
                                lambda c: [with_elem(env, i) for i in env[OLD]] if c == OLD else None) is False:
                        continue
                    got = fold(strip(kept), env)
                    if not all(ok[i] for i in env[OLD]):
                        continue            # candidates satisfy the combination
                    if m == 'satisfy':
                        want = env[OLD] + [i for i in range(2, len(ok)) if ok[i]]
                        some |= ok[2]
                        R.ob(rule, m, got is not UNKNOWN and sorted(set(got)) == want, loc,
                             'the candidates become %s for a node which %s the combination' % (
                                 show(kept)[:200], 'satisfies' if ok[2] else 'does not satisfy'))
                    else:
                        R.ob(rule, m, got is not UNKNOWN and all(ok.get(i) for i in got), loc,
                             'the candidates become %s' % show(kept)[:200])
        if m == 'satisfy':
            R.ob(rule, m, some, loc, 'no node becomes a candidate')


# ------------------------------------------------------- C27: the solver

def adding(R):
    A = analysis(raises=False)
    A.hooks[REQ] = a_requirement
    A.hooks[SR] = a_solver_requirement
    deps = ('attr', sym('obj'), 'dependencies')
    A.nonempty = {deps}
    st = A.fresh()
    outs = A.method(reset(A, st), the_solver(A, st), 'add', [sym('obj'), sym('skip')])
    R.saw(A, outs)
    loc = loc_of(A, SOLVER + '.add')
    req = strip(call('Requirement', (('elem', deps),)))
    name = ('attr', req, 'name')
    merges = 0
    for o in outs:
        if not o.ok:
            R.ob('every-requirement', 'add', o.exc_is(ERROR), loc, '%s raised: %s' % (o.exc(), o.describe()[:200]))
            continue
        node = o.val
        if not R.ob('offered', 'add', o.st.is_ref(node, I) and o.st.obj(node).cls == NODE, loc,
                    'returns %s' % show(o.ret())[:100]):
            continue
        attrs = o.st.obj(node).attrs
        if not R.ob('offered', 'add', eqv(o.st, attrs.get('obj', NONE), sym('obj')), loc, 'a node of another object'):
            continue
        skip = tri(o.st.path, truth(sym('skip')))
        content = o.st.obj(attrs['requirements']) if o.st.is_ref(attrs.get('requirements'), D) else None
        if skip is True:
            R.ob('every-requirement', 'node without dependencies', content is not None and not content.items and
                 not content.base, loc, 'has requirements')
        else:
            R.ob('every-requirement', 'node', skip is False and content is not None and any(
                b[0] == 'many' and strip(b[1]) == req and strip(b[4]) == deps and not b[3] for b in content.base), loc,
                 'the node does not hold a requirement for every dependency')
            done = False
            for e in o.events:
                if e.kind != 'loop' or e.name != 'done' or strip(e.args[0]) != deps:
                    continue
                if not any(method_named(x, 'merge') for r in e.kw for x in flatten(r[2])):
                    continue
                done = True
                for r in e.kw:
                    merges += 1
                    R.ob('every-requirement', 'merge', r[0] == 'next' and one_merge(r, req, name, node), loc,
                         'a requirement is not merged (%s)' % ' and '.join(
                             ('' if p else 'not ') + show(a)[:80] for a, p in r[1]))
            R.ob('every-requirement', 'merge', done, loc, 'requirements are not merged if %s' % o.describe()[:200])
        mine = ('item', sym('requirements'), ('attr', sym('obj'), 'name'))
        asked = known(o.st.path, ('cmp', 'in', mine[2], mine[1]))
        sat = [e for e in o.events if method_named(e, 'satisfy')]
        ok = len(sat) == 1 and strip(sat[0].args[0]) in (mine, strip(call('.get', mine[1:]))) and \
            sat[0].args[1] == node
        R.ob('offered', 'satisfy', ok if asked is not False else not sat or ok, loc,
             'the node is not offered to the requirements of its name if %s' % o.describe()[:200])
        R.ob('offered', 'objects', any(e.kind == 'setitem' and e.args == (sym('objects'), sym('obj'), node)
                                       for e in o.events), loc, 'the node is not recorded')
        R.ob('offered', 'nodes', any(e.kind == 'mut' and e.args[:1] == (sym('nodes'),) and node in e.args
                                     for e in o.events), loc, 'the node is not listed')
    R.ob('every-requirement', 'add', merges > 0, loc, 'nothing is merged')


def one_merge(rec, req, name, node):
    """the iteration merges the requirement into the combination of its name"""
    evs = list(flatten(rec[2]))
    ms = [e for e in evs if method_named(e, 'merge')]
    if len(ms) != 1 or len(ms[0].args) + len(ms[0].kw) != 3:
        return False
    m = ms[0]
    given = [strip(x) for x in m.args[1:]] + [strip(v) for k, v in m.kw]
    if req not in given or node not in given:
        return False
    table = sym('requirements')
    item = ('item', table, name)
    new = strip(call('SolverRequirement', (name,)))
    x = strip(m.args[0])
    there = known(rec[1], ('cmp', 'in', name, table))
    stored = [e for e in evs if e.kind == 'setitem' and strip(e.args[0]) == table]
    if any(strip(e.args[1]) != name or strip(e.args[2]) != new for e in stored):
        return False
    gets = [strip(call('.get', a)) for a in ((table, name), (table, name, NONE))] + [item]
    absent = there is False or any(known(rec[1], ('isnone', g)) is True or known(rec[1], truth(g)) is False
                                   for g in gets) or \
        any(e.kind in ('failed', 'catch') and 'KeyError' in repr(e.args) for e in evs)
    if x == item or cname(x) == '.get' and x[2][:2] == (table, name):
        return not stored or absent
    if cname(x) == '.setdefault':
        return x[2] == (table, name, new)
    return x == new and len(stored) == 1 and absent


def elsewhere(R):
    """no other part of the solver changes candidates"""
    for m, args in (('from_obj', [sym('obj'), sym('environment'), sym('repositories')]), ('find_best_dependencies', [sym('target'), sym('selector')]),
                    ('solve', [sym('target'), sym('selector'), sym('ignore')]), ('add', [sym('obj'), sym('skip')])):
        A = stepping(m)
        st = A.fresh()
        if m == 'from_obj':
            A.func_node(SOLVER + '.from_obj')
            A.hooks[SOLVER] = lambda A, st, args, kw, cx, n: [(st, 'v', sym('solver'))]
            outs = A.run(st, SOLVER + '.from_obj', [('cls', SOLVER)] + args)
        else:
            outs = A.method(reset(A, st), the_solver(A, st), m, args)
        R.saw(A, outs)
        loc = loc_of(A, SOLVER + '.' + m)
        evs = [e for o in outs for e in o.events] + [e for t in A.transitions for s, k, v in t[3] for e in s.events()]
        for e in evs:
            for x in every(e):
                if x.kind in ('mut', 'setitem', 'delitem', 'setattr', 'delattr'):
                    hit = x.kind == 'setattr' and x.name in ('satisfiers', 'merged') and \
                        not any(s[0] == 'ref' for s in subterms(x.args[0])) or any(
                            s[0] == 'attr' and s[2] in ('satisfiers', 'merged')
                            for s in [x.args[0]] + ([root(x.args[0])] if x.args else []))
                    R.ob('unchanged', m, not hit, x.loc or loc, 'changes %s of a requirement' % show(x.args[0])[:100])
        R.ob('unchanged', m, True, loc)


def every(e):
    yield e
    if e.kind == 'loop':
        for r in e.kw:
            for x in r[2]:
                for y in every(x):
                    yield y


def stepping(m):
    A = analysis(raises=False)
    A.hooks[REQ] = a_requirement
    A.hooks[SR] = a_solver_requirement
    A.opaque |= {SOLVER + '.' + x for x in ('add', 'find_best_dependencies', 'solve', 'from_obj') if x != m} | {SELECT}
    A.opaque |= {SR + '.merge', SR + '.satisfy'}
    A.step_whiles = A.step_fors = True
    return A


# ------------------------------------------------------- C28

def hv_at(t):
    """the address of a container whose content a loop made unknown"""
    t = strip(t)
    while t[0] == 'L' and len(t[2]) == 1 and t[2][0][0] == 'all':
        t = t[2][0][1]
    if t[0] == 'hv' and t[1][:4] in ('list', 'dict') and t[1][4:].isdigit():
        return int(t[1][4:])
    return None


def popped(t):
    """the list an item was taken from"""
    t = strip(t)
    if t[0] in ('item', 'popped'):
        return hv_at(t[1])
    return None


class Read(object):
    """a sequence followed back to the list it is made of: forwards or backwards"""

    def __init__(self, t):
        self.back = False
        t = strip(t)
        while True:
            n = cname(t)
            if n == 'reversed':
                self.back = not self.back
                t = t[2][0]
            elif n in ('list', 'tuple', 'iter') and len(t[2]) == 1:
                t = t[2][0]
            elif n == 'slice' and t[2][1:] == (NONE, NONE, const(-1)):
                self.back = not self.back
                t = t[2][0]
            elif t[0] == 'L' and len(t[2]) == 1 and t[2][0][0] == 'all':
                t = t[2][0][1]
            else:
                break
        self.of = t


def c28(R):
    R.rule('start', 'without a package that nothing depends on an error is raised')
    R.rule('candidates', 'a package is processed only if each of its requirements has a candidate')
    R.rule('chosen', 'the package processed for a requirement is one of the candidates of its name')
    R.rule('pending', 'the package chosen for a requirement is processed, or recorded as waiting for others')
    R.rule('loops', 'if any recorded package still waits an error is raised')
    R.rule('listed', 'every package processed is in the solution, the last one first; only installed packages '
           'are left out, and only when asked')
    R.rule('known-target', 'a target which is not in the solver is refused')
    R.rule('best', 'choosing the dependencies of a target fails for a requirement without candidates, and '
           'goes on with the dependencies of what was chosen')
    for target in ('none', 'node', 'object'):
        solve(R, target)
    best(R)


def final(transitions):
    """the last, most general view of every loop"""
    last = {}
    for t in transitions:
        last[t[0].uid] = t
    return list(last.values())


def solve(R, given):
    A = stepping('solve')
    st = A.fresh()
    target = NONE if given == 'none' else sym('target')
    me = the_solver(A, st)
    st = reset(A, st)
    if given != 'none':
        st.assume(('isnone', target), False)
        st.assume(('isinst', target, ('cls', NODE)), given == 'node')
    outs = A.method(st, me, 'solve', [target, sym('selector'), sym('ignore')])
    R.saw(A, outs)
    loc = loc_of(A, SOLVER + '.solve')
    main = None
    for t in A.transitions:
        if t[0].t == 'While' and any(requirement_loops(s.events()) for s, k, v in t[3]):
            main = t
    if main is None:
        raise Missing('the loop of Solver.solve over the packages')
    node, entry, head, trs, exits, cx, coll = main
    at = (node.file, node.line)
    lists, queues, packages = set(), set(), set()
    some = 0
    for s, k, v in trs:
        if k == 'exc':
            R.ob('candidates', 'error', A.exc_class(s, v) is not None and A.subexc(A.exc_class(s, v), ERROR)
                 if hasattr(A, 'subexc') else ERROR in A.exc_mro(A.exc_class(s, v)), at, '%s raised' % show(v))
            continue
        if not R.ob('candidates', 'solve', k in ('next', 'cont'), at, 'the loop over the packages may end early'):
            continue
        loops = requirement_loops(s.events())
        xs = {strip(e.args[0])[1] for e in loops if popped(strip(e.args[0])[1]) is not None}
        if not R.ob('candidates', 'solve', len(xs) == 1, at, 'the requirements of a package are not looked at if %s' % (
                ' and '.join(('' if p else 'not ') + show(a)[:80] for a, p in s.path))):
            continue
        x = xs.pop()
        packages.add(x)
        queues.add(popped(x))
        some += 1
        ok = any(all(r[0] == 'exc' or r[0] == 'next' and without_candidates(r[1], e.args[0]) is False for r in e.kw) for e in loops)
        R.ob('candidates', 'solve', ok, at, 'a requirement without candidates raises no error')
        # the list of processed packages
        mine = []
        for a, o in s.heap.items():
            d = grown(head, s, a, x)
            if d is not None:
                mine.append((a, d))
        lists.add(tuple(mine))
    R.ob('candidates', 'solve', some > 0 and len(queues) == 1 and len(packages) == 1, at, 'no package is processed')
    if len(packages) != 1 or len(queues) != 1:
        return
    q = queues.pop()
    R.ob('listed', 'solve', len(lists) == 1 and len(list(lists)[0]) == 1, at, 'a processed package is not listed once')
    if len(lists) != 1 or len(list(lists)[0]) != 1:
        return
    (done, way), = list(lists)[0]
    # what is chosen for a requirement
    waiting = set()
    for t in final(A.transitions):
        c = strip(t[6])
        if t[0].t != 'For' or not (c[0] == 'attr' and c[2] == 'requirements' and c[1] in packages):
            continue
        for s, k, v in t[3]:
            if k not in ('next', 'cont'):
                continue
            here = (t[0].file, t[0].line)
            sat = candidates(t[6])
            o, h = s.obj(('ref', q)), t[2].obj(('ref', q))
            new = [s.freeze(g[1]) for g in o.segs if g[0] == 'one'] if isinstance(o, L) else None
            if o == h or new == []:
                w = {hv_at(b[1]) if b[0] == 'item' else local for a, p in s.path if p
                     for b, local in waits(s, a, sat)}
                w -= {None}
                R.ob('pending', 'solve', len(w) == 1, here, 'a dependency is neither processed nor recorded as waiting '
                     'if %s' % ' and '.join(('' if p else 'not ') + show(a)[:80] for a, p in s.path))
                waiting |= w
            else:
                R.ob('chosen', 'solve', bool(new) and all(mentions(strip(y), sat) for y in new), here,
                     'what is processed for a requirement is %s' % ', '.join(map(show, new or []))[:200])
    R.ob('pending', 'solve', len(waiting) == 1, at, 'packages waiting for others are not recorded')
    table = waiting.pop() if len(waiting) == 1 else None
    some = False
    # what the loops begin with
    begins = {strip(t[1].freeze(('ref', q))) for t in A.transitions if t[0].t == 'While' and q in t[1].heap}
    for o in outs:
        if not o.ok:
            R.ob('start', 'error', o.exc_is(ERROR), loc, '%s raised' % o.exc())
            continue
        some = True
        # the loop is entered with a package in the queue
        first = any(nonempty(a, p) in (q, done) or holds_some(a, p, begins) for a, p in o.st.path)
        R.ob('start', 'solve', first, loc, 'a solution is returned when there is nothing to start from')
        if table is not None:
            R.ob('loops', 'solve', refuses(o, table), loc, 'a solution is returned while packages wait for each other')
        if target != NONE:
            R.ob('known-target', 'solve', is_known(o.st.path), loc, 'a target is not looked up if %s' % o.describe()[:200])
        result(R, A, o, done, way, loc)
    R.ob('listed', 'solve', some and any(getattr(o, 'listed', False) for o in outs), loc, 'nothing is returned')


def requirement_loops(evs):
    return [e for e in evs if e.kind == 'loop' and e.name == 'done' and strip(e.args[0])[0] == 'attr' and
            strip(e.args[0])[2] == 'requirements']


def candidates(coll):
    return ('attr', ('item', sym('requirements'), ('attr', ('elem', strip(coll)), 'name')), 'satisfiers')


def without_candidates(path, coll):
    env = {candidates(coll): []}
    return consistent([(strip(a), p) for a, p in path], lambda a: foldb(a, env))


def grown(head, s, a, x):
    """1 if the list at the address has the package x at its end, -1 at its start"""
    o, h = s.heap[a], head.heap.get(a)
    if not isinstance(o, L) or not isinstance(h, L) or len(h.segs) != 1:
        return None
    ones = [g for g in o.segs if g[0] == 'one']
    if len(o.segs) == 2 and len(ones) == 1 and same(s.freeze(ones[0][1]), x) and h.segs[0] in o.segs:
        return 1 if o.segs[0] == h.segs[0] else -1
    if len(o.segs) == 1 and o.segs[0][0] == 'all' and strip(o.segs[0][1])[0] == 'inserted':
        i = strip(o.segs[0][1])
        if i[2] == const(0) and i[3] == strip(x) and hv_at(i[1]) == a:
            return -1
    return None


def waits(s, a, sat):
    """the (term, address of the table) of the dependents that a condition finds"""
    a = strip(a)
    if a[0] == 'cmp' and a[1] in ('>', '!=') and a[3] == const(0) and cname(a[2]) == 'len':
        a = ('truth', a[2][2][0])
    if a[0] != 'truth':
        return
    t = a[1]
    if t[0] == 'item' and mentions(t[2], sat):
        yield t, None
    if t[0] == 'L':
        # a set recorded in this iteration
        for ad, o in s.heap.items():
            if isinstance(o, D):
                for k, v in o.items:
                    if mentions(strip(s.freeze(k)), sat) and strip(s.freeze(v)) == t:
                        yield ('x',), ad


def holds_some(a, p, lists):
    """the condition says that one of the lists has elements"""
    a = strip(a)
    if a[0] == 'truth':
        return p and a[1] in lists
    if a[0] == 'cmp' and cname(a[2]) == 'len' and a[3] == const(0) and a[2][2][0] in lists:
        return a[1] == '==' and not p or a[1] in ('>', '!=') and p
    return False


def nonempty(a, p):
    """the list which a condition says has elements"""
    a = strip(a)
    if a[0] == 'truth' and p:
        return hv_at(a[1])
    if a[0] == 'cmp' and a[2:3] and cname(a[2]) == 'len' and a[3] == const(0):
        if (a[1] == '==' and not p) or (a[1] == '>' and p) or (a[1] == '!=' and p):
            return hv_at(a[2][2][0])
    return None


def refuses(o, table):
    """the outcome excludes that a package of the table waits"""
    def model(t, env):
        if hv_at(t) == table and t[0] == 'hv':
            return ['n']
        if t[0] == 'elem' and hv_at(t[1]) == table:
            return 'n'
        if t[0] == 'item' and hv_at(t[1]) == table:
            return ['m']
        return UNKNOWN
    env = {'model': model}
    W = lambda a: foldb(strip(a), env)
    return not feasible(o, W, lambda c: [W] if hv_at(c) == table else None)


def is_known(path):
    return any(p and strip(a)[0] == 'cmp' and strip(a)[1] == 'in' and strip(a)[2] == sym('target') and
               strip(a)[3] in (sym('nodes'), sym('objects')) for a, p in path) or \
        any(strip(a)[0] == 'isnone' and not p and cname(strip(a)[1]) == '.get' and
            strip(a)[1][2][:2] == (sym('objects'), sym('target')) for a, p in path)


def result(R, A, o, done, way, loc):
    """the solution lists what was processed, backwards"""
    v = o.st.freeze(o.val)
    r = Read(v)
    parts = []
    if hv_at(r.of) is not None:
        for t in final(A.transitions):
            for s, k, w in t[3]:
                a = hv_at(r.of)
                if a in s.heap and isinstance(s.heap[a], L) and a in t[2].heap and k in ('next', 'cont') and t[0].t == 'For' and \
                        Read(t[6]).of != r.of and hv_at(Read(t[6]).of) == done:
                    parts.append((t, s, r.back))
        entries = [p for p in parts]
        ok = bool(entries)
        back = None
        table = {}
        for t, s, b in entries:
            want = ('attr', ('elem', strip(t[6])), 'obj')
            a = hv_at(r.of)
            d = 0 if s.heap[a] == t[2].heap[a] else grown(t[2], s, a, want)
            if d is None:
                R.ob('listed', 'solve', False, loc, 'the solution gets %s' % show(s.freeze(('ref', a)))[:200])
                return
            pos = Read(t[6]).back ^ b ^ (d == -1)
            if d:
                back = pos if back in (None, pos) else 'both'
            for inst, ignore in itertools.product((True, False), repeat=2):
                if consistent(s.path, world(inst, ignore)) is not False:
                    table.setdefault((inst, ignore), set()).add(d != 0)
    else:
        v = r.of
        if v[0] != 'L':
            R.ob('listed', 'solve', False, loc, 'returns %s' % show(v)[:200])
            return
        if v == ('L', 'list', ()):
            # no package was taken over
            R.ob('listed', 'solve', any(e.kind == 'loop' and e.name == 'done' and hv_at(Read(e.args[0]).of) == done
                                        for e in o.events), loc, 'an empty list is returned')
            return
        back, count = None, {}
        for g in v[2]:
            c = Read(g[-1])
            if g[0] != 'many' or hv_at(c.of) != done or strip(g[1]) != ('attr', ('elem', strip(g[-1])), 'obj'):
                R.ob('listed', 'solve', False, loc, 'the solution has %s' % show(g[1])[:200])
                return
            pos = c.back != r.back
            back = pos if back in (None, pos) else 'both'
            for inst, ignore in itertools.product((True, False), repeat=2):
                W = world(inst, ignore)
                if consistent(list(o.st.path) + list(o.st.facts.items()), W) is False:
                    continue
                inn = all((W(a) is p) for a, p in g[2])
                out = any(W(a) is not None and W(a) is not p for a, p in g[2])
                count.setdefault((inst, ignore), []).append(inn if inn or out else None)
        table = {w: {None if None in c else sum(c) == 1 if sum(c) < 2 else None} for w, c in count.items()}
    o.listed = True
    R.ob('listed', 'order', back is (way == 1), loc, 'the packages are not listed from the last one to the first')
    for (inst, ignore), got in sorted(table.items()):
        R.ob('listed', 'selection', got == {not (inst and ignore)}, loc, '%s package is %s when %s' % (
            'an installed' if inst else 'another', 'left out' if got == {False} else 'listed' if got == {True} else
            'listed or left out', 'installed ones are to be ignored' if ignore else 'none is to be ignored'))


def world(inst, ignore):
    def W(a):
        a = strip(a)
        if a[0] == 'not':
            r = W(a[1])
            return None if r is None else not r
        if a[0] == 'isinst' and show(a[2]) == 'ipkg.packages.MetaPackage':
            return inst
        if a in (truth(sym('ignore')),):
            return ignore
        if a[0] == 'cmp' and a[1] == '==' and sym('ignore') in a[2:]:
            return ignore is True if TRUE in a[2:] else ignore is False if FALSE in a[2:] else None
        return None
    return W


# ------------------------------------------------------- find_best_dependencies

def best(R):
    A = stepping('find_best_dependencies')
    st = A.fresh()
    outs = A.method(reset(A, st), the_solver(A, st), 'find_best_dependencies', [sym('target'), sym('selector')])
    R.saw(A, outs)
    loc = loc_of(A, SOLVER + '.find_best_dependencies')
    for o in outs:
        if not o.ok:
            R.ob('best', 'error', o.exc_is(ERROR), loc, '%s raised' % o.exc())
    some = 0
    for node, entry, head, trs, exits, cx, coll in final(A.transitions):
        if node.t != 'While':
            continue
        at = (node.file, node.line)
        for s, k, v in trs:
            if k not in ('next', 'cont'):
                R.ob('best', 'find_best_dependencies', k == 'exc', at, 'the loop may end early')
                continue
            names = {x for a, p in s.path for x in subterms(strip(a)) if len(x) == 3 and x[0] == 'attr' and x[2] == 'name' and
                     x[1][0] == 'item' and len(x[1]) > 1 and popped(x[1][1]) is not None}
            for name in names:
                dict_ = [a for a, p in s.path if p and strip(a)[0] == 'cmp' and strip(a)[1] == 'in' and
                         strip(a)[2] == name and hv_at(strip(a)[3]) is not None]
                if dict_:
                    continue        # one of that name is chosen already
                some += 1
                sat = ('attr', ('item', sym('requirements'), name), 'satisfiers')
                env = {sat: []}
                R.ob('best', 'find_best_dependencies', consistent(s.path, lambda a: foldb(strip(a), env)) is False, at,
                     'a requirement without candidates raises no error')
                chosen = [x for x in (s.freeze(v) for o in s.heap.values() if isinstance(o, D) for k, v in o.items)
                          if mentions(strip(x), sat)]
                R.ob('best', 'find_best_dependencies', len(chosen) == 1, at, 'no candidate is chosen')
                for c in chosen:
                    loops = [e for e in s.events() if e.kind == 'loop' and e.name == 'done' and
                             strip(e.args[0])[0] == 'attr' and strip(e.args[0])[2] == 'requirements' and
                             mentions(strip(e.args[0]), strip(c))]
                    R.ob('best', 'find_best_dependencies', bool(loops), at,
                         'the requirements of what was chosen are not looked at')
    R.ob('best', 'find_best_dependencies', some > 0, loc, 'no requirement is looked at')


CHECKS = {'C27': c27, 'C28': c28}
