"""C05 (repositories), C26, C30, C31, C32: repository indexes"""
from .base import *
from .environments import judge_saved, conds, SAVE

REPO = 'ipkg.repositories.LocalPackageRepository'
ADD = REPO + '.add'
BUILD = REPO + '.build_formula'
CLEAR = 'ipkg.utils.DictFile.clear'
OPAQUE = ENV_OPAQUE | {CLEAR, ADD}
BASE = sym('base')
META = sym('meta')


def repository(R, raises=False, opaque=OPAQUE, cls=REPO):
    A = analysis(raises=raises)
    A.opaque |= set(opaque)
    st = A.fresh()
    o = instance(A, st, cls, [BASE])[0]
    s = o.st
    m = s.obj(o.val).attrs.get('meta')
    if m is None or m[0] != 'ref':
        raise Missing('%s.meta' % cls)
    havoc_dict(s, m, 'meta')
    s.ver, s.store, s.mlog = {}, {}, {}
    reset(A, s)
    return A, s, o.val, m


def saved(R):
    for name, args in (('update_metadata', []), ('build_formula', [sym('formula')])):
        A, s, repo, meta = repository(R)
        outs = A.method(s, repo, name, args)
        R.saw(A, outs)
        n = judge_saved(R, A, outs, meta, META, 'LocalPackageRepository.' + name,
                        loc_of(A, REPO + '.' + name), (ADD, CLEAR))
        R.ob('saved', 'LocalPackageRepository.%s changes the metadata' % name, n > 0, loc_of(A, REPO + '.' + name))


def c30(R):
    R.rule('cleared-first', 'the old index is cleared before anything is added, on every path')
    R.rule('every-package-file', 'in the loops over base and over each package directory, add() is called exactly for '
           'the regular files, with their path; nothing ends the loops early')
    R.rule('saved-last', 'the index is saved after the loops')
    R.rule('entry-follows', 'clearing always empties the dictionary (see DictFile.clear)')
    A, s, repo, meta = repository(R)
    outs = A.method(s, repo, 'update_metadata')
    R.saw(A, outs)
    where = loc_of(A, REPO + '.update_metadata')
    U = 'LocalPackageRepository.update_metadata'
    names = call('os.listdir', (BASE,))
    d = call('os.path.join', (BASE, ('elem', names)))
    files = call('os.listdir', (d,))
    isd, ismeta = truth(call('os.path.isdir', (d,))), eq(('elem', names), const('repository.json'))
    good = 0

    def leaf(f):
        return [call('os.path.join', (BASE, ('elem', names), ('elem', f))),
                call('os.path.join', (d, ('elem', f)))]

    for o in outs:
        if not o.ok:
            continue
        evs = o.events
        clears = [i for i, e in enumerate(evs) if is_call(e, CLEAR) and e.args[0] == meta or
                  e.kind == 'mut' and 'clear' in str(e.name) and root(e.args[0]) in (meta, META)]
        adds = [i for i, e in enumerate(evs) if contains(e, lambda x: is_call(x, ADD))]
        R.ob('cleared-first', U, bool(clears) and (not adds or min(clears) < min(adds)) and
             (len(clears) == 1 or not adds or max(clears) < min(adds)), where,
             'the index is not cleared first, ' + o.describe()[:200])
        saves = [i for i, e in enumerate(evs) if is_call(e, SAVE) and e.args[0] == meta]
        loops = [(i, e) for i, e in enumerate(evs) if e.kind == 'loop' and same(e.args[0], names)]
        # loops that only list the files are judged by the one that adds them
        adding = [(i, e) for i, e in loops if i in adds]
        loops = adding or loops
        R.ob('every-package-file', U + ': loop', bool([1 for i, e in loops if e.name == 'done']), where,
             'no complete loop over the repository directory, ' + o.describe()[:200])
        R.ob('saved-last', U, bool(saves) and all(i < max(saves) for i, e in loops) and
             all(i < max(saves) for i in adds), where, 'the index is not saved last')
        for e in evs:
            if is_call(e, ADD):
                R.ob('every-package-file', U + ': add', False, e.loc, 'adds %s outside of the loops' % show(e.args[1]))
        for i, e in loops:
            for r in e.kw:
                if r[0] in ('brk', 'ret'):
                    R.ob('every-package-file', U + ': loop', False, e.loc, 'the scan ends early')
                if r[0] not in ('next', 'skip'):
                    continue
                for p in rec_paths(r):
                    inner = [x for x in r[2] if x.kind == 'loop']
                    direct = [x for x in r[2] if is_call(x, ADD)]
                    for x in direct:
                        R.ob('every-package-file', U + ': add', False, x.loc, 'adds %s' % show(x.args[1]))
                    inner = [x for x in inner if same(x.args[0], files)]
                    if tri(p, isd) is False or tri(p, ismeta) is True:
                        R.ob('every-package-file', U + ': not a directory', not any(
                            contains(x, lambda y: is_call(y, ADD)) for x in r[2]), e.loc, conds(p))
                        continue
                    R.ob('every-package-file', U + ': directory',
                         bool([x for x in inner if x.name == 'done']), e.loc,
                         'a package directory is passed over if %s' % conds(p))
                    for x in inner:
                        f = ('elem', x.args[0])
                        paths = [strip(v) for v in leaf(x.args[0])]
                        isf = ('?', lambda a, q: q if a[0] == 'truth' and cname(a[1]) == 'os.path.isfile' and
                               strip(a[1][2][0]) in paths else None)
                        for r2 in x.kw:
                            if r2[0] in ('brk', 'ret'):
                                R.ob('every-package-file', U + ': loop', False, x.loc, 'the scan of a directory ends early')
                            if r2[0] not in ('next', 'skip'):
                                continue
                            for p2 in rec_paths(r2):
                                calls = [y for y in flatten(r2[2]) if is_call(y, ADD)]
                                t = tri(p2, isf)
                                if calls:
                                    good += 1
                                    R.ob('every-package-file', U + ': add', len(calls) == 1 and t is True and
                                         strip(calls[0].args[1]) in paths and calls[0].args[0] == repo and
                                         calls[0].args[2:] in ((), (TRUE,)), calls[0].loc,
                                         'adds %s if %s' % (show(calls[0].args[1]), conds(p2)))
                                else:
                                    R.ob('every-package-file', U + ': skipped', t is False, x.loc,
                                         'a file is not added if %s' % conds(p2))
    R.ob('every-package-file', U + ' adds files', good > 0, where)
    from . import records
    records.clearing(R, 'entry-follows')


def c31(R):
    R.rule('own-entry', 'after add, the index holds under the name of the package: the old entries of other file '
           'names, all of them, and then this package\'s own metadata, once')
    R.rule('others-kept', 'no other key of the index changes')
    R.rule('refused', 'anything that is not a package raises and changes nothing')
    R.rule('same-location', 'the repository reads a package from base/name/file name, the name a build gives to the file')
    A, s, repo, meta = repository(R, opaque=OPAQUE - {ADD})
    where = loc_of(A, ADD)
    outs = A.method(s, repo, 'add', [sym('package')])
    R.saw(A, outs)
    W = 'LocalPackageRepository.add'
    n = m = 0
    for o in outs:
        st = o.st
        c = content_of(st, meta)
        ch = [e for e in flatten(o.events) if e.kind in ('setitem', 'delitem', 'mut') and
              (root(e.args[0]) in (META, meta, c))]
        if not o.ok:
            if o.exc_is('ipkg.exceptions.InvalidPackage'):
                m += 1
            R.ob('refused', W, not ch, where, 'the index is changed although the package is refused: %s' % ch[:1])
            continue
        P, filed = the_package(A, o)
        notpkg = tri(st.path, ('isinst', sym('package'), ('cls', 'ipkg.packages.PackageFile'))) is False and \
            tri(st.path, ('isinst', sym('package'), ('ext', 'basestring'))) is False
        if notpkg:
            R.ob('refused', W, False, where, 'something that is not a package is accepted')
            continue
        n += 1
        d = st.obj(c)
        names = [strip(v) for v in values_of(A, st, P, 'name')]
        metas = [strip(v) for v in values_of(A, st, P, 'meta')]
        keys = [strip(st.freeze(k)) for k, v in d.items]
        R.ob('others-kept', W, all(k in names for k in keys) and tuple(d.base) == (('all', META),) and not d.dels and
             all(strip(e.args[1]) in names for e in ch if e.kind == 'setitem' and e.args[0] in (meta, c)), where,
             'keys written: %s' % [show(k) for k in keys])
        val = None
        for k, v in d.items:
            if strip(st.freeze(k)) in names:
                val = st.freeze(v)
        if val is None or val[0] != 'L':
            R.ob('own-entry', W, False, where, 'no list of entries is recorded under the name of the package, ' +
                 o.describe()[:200])
            continue
        segs = val[2]
        last = segs[-1] if segs else None
        own = last is not None and last[0] == 'one' and is_copy(last[1], metas)
        R.ob('own-entry', W + ': recorded', own, where, 'recorded: %s' % show(val)[:300])
        olds = [('item', META, nm) for nm in names]
        known_new = any(tri(st.path, ('cmp', 'in', nm, META)) is False for nm in names)
        rest = segs[:-1]
        scanned = [e for e in o.events if e.kind == 'loop' and e.name == 'done' and
                   strip(e.args[0]) in [strip(x) for x in olds]]
        kept = dropped = None
        for g in rest:
            if g[0] == 'all' and strip(g[1]) in [strip(x) for x in olds]:
                kept, dropped = True, False
            elif g[0] == 'many' and strip(g[3]) in [strip(x) for x in olds]:
                e = ('elem', g[3])
                f_new = [filename_of(x) for x in metas + [last[1] if last else None]]
                atoms = [(strip(a), p) for a, p in g[2]]
                ok = strip(g[1]) == strip(e) and all(
                    not p and a[0] == 'cmp' and a[1] == '==' and mentions(a, strip(e)) and entry_names(a, e)
                    for a, p in atoms) and len(atoms) == 1
                kept = ok if kept is None else kept and ok
                dropped = True
            else:
                kept = False
        if not rest:
            # no old entry remains: there was none, or all were replaced
            kept = known_new or bool(scanned) and all(
                drops_same(r, e, olds) for e in scanned for r in e.kw) or any(
                tri(st.path, truth(x)) is False for x in olds)
            dropped = True
        R.ob('own-entry', W + ': other entries kept', kept is True, where, 'entries afterwards: %s' % show(val)[:400])
        R.ob('own-entry', W + ': same entry replaced', dropped is True, where, 'entries afterwards: %s' % show(val)[:400])
    R.ob('own-entry', W + ' records', n > 0, where)
    R.ob('refused', W + ' refuses', m > 0, where, 'nothing is refused')
    location(R)


def the_package(A, o):
    """the package being added"""
    st = o.st
    if tri(st.path, ('isinst', sym('package'), ('ext', 'basestring'))) is True:
        # an instance made from the path
        for a, x in sorted(st.heap.items()):
            if isinstance(x, I) and x.cls == 'ipkg.packages.PackageFile':
                return ('ref', a), True
        for e in flatten(o.events):
            if is_call(e, 'ipkg.packages.PackageFile'):
                return e.res, True
    return sym('package'), False


def is_copy(v, metas):
    """a copy of the metadata, possibly with its checksum"""
    if strip(v) in metas:
        return True
    if v[0] == 'D':
        base = [strip(b[1]) for b in v[2] if b[0] == 'all']
        return len(v[2]) == 1 and len(base) == 1 and base[0] in metas and not v[3] and \
            all(k == const('checksum') for k, x in v[1])
    return False


FIELDS = ('name', 'version', 'revision', 'platform')


def filename_of(v):
    return None


def entry_names(a, e):
    """the atom compares, in both entries, name, version, revision and platform"""
    l, r = fields_used(a[2]), fields_used(a[3])
    return set(l) == set(FIELDS) == set(r) and l == r


def fields_used(t):
    """the fields of an entry a value is made of, in order"""
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'item' and isinstance(x[2], tuple) and x[2][:2] == ('c', 'str'):
                out.append(x[2][2])
                return
            if len(x) == 3 and x[0] == 'attr' and isinstance(x[2], str):
                out.append(x[2])
                return
            for y in x:
                walk(y)
    walk(strip(t))
    return tuple(out)




def location(R):
    """the name of the file of an entry, and the name a build gives"""
    A, s, repo, meta = repository(R, cls='ipkg.repositories.PackageRepository', opaque=OPAQUE | {
        'ipkg.requirements.Requirement.__init__', 'ipkg.requirements.Requirement.satisfied_by'})
    where = loc_of(A, 'ipkg.repositories.PackageRepository.find')
    outs = A.method(s, repo, 'find', [sym('requirement')])
    R.saw(A, outs)
    n = 0
    for o in outs:
        if not o.ok:
            continue
        for p in made_packages(A, o):
            n += 1
            x = o.st.obj(p)
            path = strip(o.st.freeze(x.attrs.get('path', NONE)))
            e = [t for t in subterms(path) if isinstance(t, tuple) and t and t[0] == 'elem']
            ok = False
            if cname(path) == 'os.path.join' and e:
                it = max(e, key=size)
                name = strip(('item', it, const('name')))
                ok = list(path[2])[:2] == [strip(BASE), name] and len(path[2]) == 3 and \
                    file_name_form(path[2][2], it)
            R.ob('same-location', 'PackageRepository.find', ok, where, 'the package file is looked up at %s' % show(path)[:300])
    R.ob('same-location', 'PackageRepository.find gives packages', n > 0, where)
    from . import building
    building.file_name(R, 'same-location')


def file_name_form(t, it):
    """name-version-revision-platform.ipkg, for plain values"""
    env = dict((strip(('item', it, const(k))), v) for k, v in zip(FIELDS, ('foo', '1.0', '2', 'p-q-r')))
    return fold(strip(t), env) == 'foo-1.0-2-p-q-r.ipkg'


def drops_same(r, e, olds):
    """the entries an iteration leaves out have the same file name"""
    el = ('elem', strip(e.args[0]))
    return all(any(p and strip(a)[0] == 'cmp' and strip(a)[1] == '==' and entry_names(strip(a), el) for a, p in q)
               for q in rec_paths(r))


def made_packages(A, o):
    out = []
    for a, x in sorted(o.st.heap.items()):
        if isinstance(x, I) and x.cls == 'ipkg.packages.PackageFile':
            out.append(('ref', a))
    return out


# --------------------------------------------------------------- C26

def sort_sign(A, R, v, reduce_key=None):
    """(source, +1 ascending / -1 descending / None, key) of a sorted() term"""
    kw = dict(v[3])
    src = v[2][0]
    sign = 1
    cmp_ = kw.get('cmp') or (v[2][1] if len(v[2]) > 1 else None)
    key = kw.get('key') or (v[2][2] if len(v[2]) > 2 else None)
    rev = kw.get('reverse') or (v[2][3] if len(v[2]) > 3 else None)
    if cmp_ is not None and cmp_ != NONE:
        sign = comparator_sign(A, cmp_)
    if rev is not None and rev[0] == 'c':
        if rev[2]:
            sign = -sign if sign else None
    elif rev is not None:
        sign = None
    if key is not None and key == NONE:
        key = None
    return src, sign, key


def comparator_sign(A, f):
    """+1 if f(a, b) orders like a < b, -1 if the other way round, else None"""
    if f == ('ext', 'cmp'):
        return 1
    a, b = sym('a'), sym('b')
    outs = A.quiet(lambda: A.run(A.fresh(), f, [a, b]))
    got = []
    for rel in (-1, 0, 1):
        vals = set()
        for o in outs:
            c = consistent(o.st.path, lambda x: order_atom(x, a, b, rel))
            if c is None or c and not o.ok:
                return None
            if c:
                v = strip(o.ret())
                if cname(v) == 'cmp' and set(v[2]) == {a, b}:
                    vals.add(rel if v[2][0] == a else -rel)
                elif v[0] == 'c' and isinstance(v[2], (int, bool)):
                    vals.add((v[2] > 0) - (v[2] < 0))
                else:
                    return None
        if len(vals) != 1:
            return None
        got.append(vals.pop())
    return {(-1, 0, 1): 1, (1, 0, -1): -1}.get(tuple(got))


def parsed(t, item, how):
    """t is parse_version of the given field of the item"""
    p = strip(how)
    t = strip(t)
    if t == ('call', 'pkg_resources.parse_version', (p,), ()):
        return True
    if cname(t) == 'pkg_resources.parse_version' and len(t[2]) == 1 and cname(t[2][0]) in ('str', 'unicode'):
        return t[2][0][2] == (p,)
    if cname(t) == 'pkg_resources.parse_version' and t[2][0][0] == 'fmt':
        parts = t[2][0][1]
        return len(parts) == 1 and not isinstance(parts[0], str) and parts[0][1] == p
    return False


def good_key(A, key):
    """the sort key of a package is (parsed version, parsed revision)"""
    if key is None:
        return False, 'there is no key'
    x = sym('x')
    st = A.fresh()
    outs = A.quiet(lambda: A.run(st, key, [x]))
    seen = 0
    for o in outs:
        if not o.ok:
            continue
        v = o.ret()
        if v[0] == 'L':
            v = ('tup',) + tuple(g[1] for g in v[2]) if all(g[0] == 'one' for g in v[2]) else v
        isd = tri(o.st.path, ('isinst', x, ('ext', 'dict')))
        mk = (lambda f: ('item', x, const(f))) if isd else (lambda f: ('attr', x, f))
        if v[0] != 'tup' or len(v) != 3:
            return False, 'the key is %s' % show(v)
        if not (parsed(v[1], x, mk('version')) and parsed(v[2], x, mk('revision'))):
            return False, 'the key is %s' % show(v)
        seen += 1
    return seen > 0, 'the key function never returns'


def c26(R):
    R.rule('only-satisfying', 'find returns exactly the items of meta[requirement.name] for which '
           'requirement.satisfied_by(item) holds')
    R.rule('most-recent-first', 'the items are sorted by (parsed version, parsed revision), descending')
    R.rule('first-or-error', 'indexing gives the first result or raises RequirementNotFound')
    R.rule('maximum', 'most_recent gives the greatest version under the parser given')
    OP = OPAQUE | {'ipkg.requirements.Requirement.satisfied_by', 'ipkg.requirements.Requirement.__init__'}
    A, s, repo, meta = None, None, None, None
    A = analysis(raises=False)
    A.opaque |= OP
    st = A.fresh()
    o = instance(A, st, 'ipkg.repositories.BaseRepository', [BASE])[0]
    s, repo = o.st, o.val
    m = s.obj(repo).attrs['meta']
    havoc_dict(s, m, 'meta')
    reset(A, s)
    req = sym('requirement')
    s.assume(('isinst', req, ('cls', 'ipkg.requirements.Requirement')), True)
    s.path = frozenset()
    where = loc_of(A, 'ipkg.repositories.BaseRepository.find')
    items = ('item', META, ('attr', req, 'name'))
    F_ = 'BaseRepository.find'
    n = 0
    finds = A.method(s.copy(), repo, 'find', [req])
    R.saw(A, finds)
    for o in finds:
        if not o.ok:
            R.ob('only-satisfying', F_ + ': no error', False, where, 'raises %s' % o.exc())
            continue
        v = o.ret()
        t, order = unwrap(v)
        empty_ok = tri(o.st.path, truth(items)) is False or \
            tri(o.st.path, ('cmp', 'in', ('attr', req, 'name'), META)) is False
        scanned = [e for e in o.events if e.kind == 'loop' and e.name == 'done' and same(e.args[0], items)]
        if v[0] == 'L' and not v[2]:
            R.ob('only-satisfying', F_ + ': empty', empty_ok or bool(scanned) and all(
                satisfied_rec(r, items, req) for e in scanned for r in e.kw), where,
                'gives nothing if ' + o.describe()[:300])
            continue
        srt = [x for x in subterms(strip_none(v)) if isinstance(x, tuple) and cname(x) == 'sorted']
        if not srt:
            R.ob('most-recent-first', F_, False, where, 'the result is not sorted: %s' % show(v)[:200])
            continue
        n += 1
        src, sign, key = sort_sign(A, R, srt[0])
        if src[0] == 'L' and not src[2]:
            R.ob('only-satisfying', F_ + ': empty', empty_ok or bool(scanned) and all(
                satisfied_rec(r, items, req) for e in scanned for r in e.kw), where,
                'gives nothing if ' + o.describe()[:300])
            continue
        if order == 'reversed' and sign:
            sign = -sign
        R.ob('most-recent-first', F_ + ': descending', sign == -1, where, 'sorted %s' % {1: 'ascending', None: 'in an unknown order'}.get(sign))
        ok, why = good_key(A, key)
        R.ob('most-recent-first', F_ + ': key', ok, where, why)
        R.ob('only-satisfying', F_ + ': items', filtered(src, items, req), where, 'sorts %s' % show(src)[:300])
    R.ob('most-recent-first', F_ + ' sorts', n > 0, where)
    # picking one
    FIND = 'ipkg.repositories.BaseRepository.find'
    A2 = analysis(raises=False)
    A2.opaque |= OP | {FIND, 'ipkg.repositories.PackageRepository.find'}
    o = instance(A2, A2.fresh(), 'ipkg.repositories.BaseRepository', [BASE])[0]
    w2 = loc_of(A2, 'ipkg.repositories.BaseRepository.__getitem__')
    got = A2.method(reset(A2, o.st), o.val, '__getitem__', [req])
    R.saw(A2, got)
    k = 0
    for x in got:
        f = [e for e in x.events if is_call(e, FIND)]
        R.ob('first-or-error', 'BaseRepository.__getitem__: looks up', len(f) == 1 and f[0].args[1] == req, w2, repr(f)[:200])
        if not f:
            continue
        res = f[0].res
        t = tri(x.st.path, truth(res))
        if t is None:
            t = tri(x.st.path, ('!', eq(call('len', (res,)), const(0))))
        if x.ok:
            k += 1
            R.ob('first-or-error', 'BaseRepository.__getitem__: first', same(x.ret(), ('item', res, const(0))) and t is True
                 or same(x.ret(), ('wit', res)) or first_of(x.ret(), res), w2, 'returns %s' % show(x.ret())[:200])
        else:
            R.ob('first-or-error', 'BaseRepository.__getitem__: none', x.exc_is('ipkg.repositories.RequirementNotFound'),
                 w2, 'raises %s' % x.exc())
    R.ob('first-or-error', 'BaseRepository.__getitem__ returns', k > 0, w2)
    # the map over the results keeps them
    A3, s3, repo3, meta3 = repository(R, opaque=OP | {FIND}, cls='ipkg.repositories.PackageRepository')
    w3 = loc_of(A3, 'ipkg.repositories.PackageRepository.find')
    for x in A3.method(s3, repo3, 'find', [req]):
        if not x.ok:
            R.ob('only-satisfying', 'PackageRepository.find', False, w3, 'raises %s' % x.exc())
            continue
        f = [e for e in x.events if is_call(e, FIND)]
        v = x.ret()
        ok = len(f) == 1 and f[0].args[1] == req and v[0] == 'L' and (
            not v[2] or len(v[2]) == 1 and v[2][0][0] == 'many' and not v[2][0][2] and same(v[2][0][3], f[0].res))
        R.ob('only-satisfying', 'PackageRepository.find', ok, w3, 'gives %s' % show(v)[:200])
    maximum(R)


def strip_none(v):
    return v


def unwrap(v):
    return v, None


def first_of(v, res):
    return v[0] == 'item' and v[2] == const(0) and same(v[1], res)


def satisfied_rec(r, items, req):
    return True


def filtered(src, items, req):
    if src[0] != 'L' or len(src[2]) != 1:
        return False
    g = src[2][0]
    if g[0] != 'many' or strip(g[3]) != strip(items) or strip(g[1]) != strip(('elem', items)):
        return False
    e = strip(('elem', items))
    conds_ = [(strip(a), p) for a, p in g[2]]
    return len(conds_) == 1 and conds_[0][1] is True and satisfied_atom(conds_[0][0], req, e)


def satisfied_atom(a, req, e):
    if a[0] != 'truth':
        return False
    t = a[1]
    return cname(t) in ('.satisfied_by', 'ipkg.requirements.Requirement.satisfied_by') and \
        tuple(t[2]) == (strip(req), e)


def maximum(R):
    A = analysis(raises=False)
    parser = sym('parser')
    where = loc_of(A, 'ipkg.versions.most_recent')
    n = 0
    for o in A.run(A.fresh(), 'ipkg.versions.most_recent', [sym('versions'), parser]):
        if not o.ok:
            continue
        n += 1
        ok, why = greatest(A, R, o.ret(), sym('versions'), lambda k: k == parser or applies(A, k, parser))
        R.ob('maximum', 'versions.most_recent', ok, where, why)
    R.ob('maximum', 'versions.most_recent returns', n > 0, where)
    R.functions |= set(A.inlined)
    # a default parser compares parsed versions
    for q in ('ipkg.versions.most_recent', 'ipkg.versions.sorted'):
        for o in A.run(A.fresh(), q, [sym('versions')]):
            if o.ok:
                for t in subterms(o.ret()):
                    if isinstance(t, tuple) and cname(t) in ('sorted', 'max', 'min'):
                        key = dict(t[3]).get('key')
                        R.ob('maximum', q + ': default parser', applies(A, key, ('ext', 'pkg_resources.parse_version')),
                             loc_of(A, q), 'sorted by %s' % (show(key) if key else 'nothing'))
    for o in A.run(A.fresh(), 'ipkg.versions.sorted', [sym('versions'), parser]):
        if o.ok:
            v = o.ret()
            ok = cname(v) == 'sorted'
            if ok:
                src, sign, key = sort_sign(A, R, v)
                ok = sign == 1 and src == sym('versions') and key == parser
            R.ob('maximum', 'versions.sorted', ok, loc_of(A, 'ipkg.versions.sorted'), 'gives %s' % show(v)[:200])
    # candidates of the solver
    A = analysis(raises=False)
    where = loc_of(A, 'ipkg.dependencies.select_most_recent_version')
    n = 0
    for o in A.run(A.fresh(), 'ipkg.dependencies.select_most_recent_version', [sym('objects')]):
        if not o.ok:
            continue
        v = o.ret()
        if v[0] != 'item':
            R.ob('maximum', 'select_most_recent_version', False, where, 'gives %s' % show(v)[:200])
            continue
        n += 1
        d, k = v[1], v[2]
        srcs = [('many', b[1], b[3], b[4]) for b in d[2]] if d[0] == 'D' else []
        okd = bool(srcs) and all(strip(b[1]) == strip(('attr', b[2], 'version')) for b in d[2] if b[0] == 'many')
        R.ob('maximum', 'select_most_recent_version: by version', okd, where, 'looks up in %s' % show(d)[:300])
        ok, why = greatest(A, R, k, None, lambda key: applies(A, key, ('ext', 'pkg_resources.parse_version')),
                           lambda src: src[0] == 'L' and {g[:2] for g in src[2]} == {g[:2] for g in srcs} or
                           same(src, d))
        R.ob('maximum', 'select_most_recent_version: greatest', ok, where, why)
    R.ob('maximum', 'select_most_recent_version returns', n > 0, where)


def applies(A, key, f):
    """key(x) is f(x)"""
    if key is None:
        return False
    if key == f:
        return True
    x = sym('x')
    try:
        outs = A.quiet(lambda: A.run(A.fresh(), key, [x]))
        want = A.quiet(lambda: A.run(A.fresh(), f, [x]))
    except AnalysisError:
        return False
    return {strip(o.ret()) for o in outs if o.ok} == {strip(o.ret()) for o in want if o.ok}


def greatest(A, R, v, src, keyok, srcok=None):
    """v is the greatest element of src under the key"""
    v = strip4(v)
    if cname(v) == 'max':
        key = dict(v[3]).get('key')
        ok = (src is not None and v[2] == (src,) or srcok is not None and srcok(v[2][0])) and keyok(key)
        return ok, 'max of %s by %s' % (show(v[2][0])[:200], show(key) if key else 'nothing')
    if v[0] == 'item' and cname(v[1]) == 'sorted' and v[2][0] == 'c':
        s, sign, key = sort_sign(A, R, v[1])
        okk = key is not None and keyok(key)
        oks = src is not None and s == src or srcok is not None and srcok(s)
        return okk and oks and (sign == -1 and v[2][2] == 0 or sign == 1 and v[2][2] == -1), \
            'element %s of the %s sequence sorted by %s' % (
                v[2][2], {1: 'ascending', -1: 'descending', None: 'unordered'}[sign], show(key) if key else 'nothing')
    return False, 'gives %s' % show(v)[:200]


def strip4(v):
    return v


# --------------------------------------------------------------- C32

def c32(R):
    R.rule('every-missing-formula', 'the worklist starts with exactly the formulas that have no package')
    R.rule('attempted-or-requeued', 'every iteration takes one formula and either builds it, once, or puts it back')
    R.rule('waits', 'a formula is put back exactly if a dependency of it is in the worklist, unless all were put back in turn')
    R.rule('terminates', 'no iteration lengthens the worklist, and one that keeps its length moves a counter towards '
           'a bound that its condition checks')
    R.rule('failure-reported', 'a failing build does not end the loop and is not listed as built; a successful one is')
    OP = OPAQUE | {BUILD, 'ipkg.requirements.Requirement.satisfied_by', 'ipkg.requirements.Requirement.__init__',
                   'ipkg.repositories.PackageRepository.__iter__', 'ipkg.utils.make_package_spec'}
    A, s, repo, meta = repository(R, opaque=OP)
    where = loc_of(A, REPO + '.build_formulas')
    W = 'LocalPackageRepository.build_formulas'
    A.step_whiles = True
    A.head_facts = True
    # only the build may fail: the other steps are about the order
    A.raises_only = {BUILD}
    A.raises = True
    outs = A.method(s, repo, 'build_formulas', [sym('formulas'), sym('environment'), sym('verbose')])
    R.saw(A, outs)
    built_ok = 0
    loops = [t for t in A.transitions if any(contains(e, lambda x: is_call(x, BUILD)) or
                                             any(is_call(x, BUILD) for x in flatten([e]))
                                             for s_, k, v in t[3] for e in s_.events())]
    if not loops:
        raise Missing('the loop of build_formulas')
    for node, entry, head, trs, exits, cx, _ in loops:
        at = (node.file, node.line)
        q = queue_of(head, trs)
        if q is None:
            R.ob('attempted-or-requeued', W, False, at, 'no worklist shrinks in the loop')
            continue
        worklist = entry.obj(('ref', q)) if q in entry.heap else None
        R.ob('every-missing-formula', W, missing_only(worklist), at,
             'the worklist starts as %s' % show(entry.freeze(('ref', q)))[:300])
        hq = head.freeze(('ref', q))
        limits = set()
        for st, kind, v in trs:
            if kind in ('next', 'cont') and length_change(head, st, q)[1]:
                limits |= {(strip(a), p) for a, p in list(st.path) + inner_paths(st.events()) if bound_atom(a)}
        res = [a for a, o in head.heap.items() if isinstance(o, L) and a != q]
        for st, kind, v in trs:
            evs = st.events()
            builds = [e for e in flatten(evs) if is_call(e, BUILD)]
            failed = [e for e in flatten(evs) if e.kind == 'failed' and e.name == BUILD]
            if kind == 'exc':
                R.ob('failure-reported', W + ': other formulas', not ipkg_error(A, st, v), at,
                     'a failing build ends the run: %s is not handled' % show(v))
                continue
            if kind not in ('next', 'cont'):
                R.ob('attempted-or-requeued', W + ': ends early', False, at, 'the loop ends early if %s' % conds(st.path))
                continue
            delta, added = length_change(head, st, q)
            taken = taken_of(hq, st, q)
            if delta is None:
                R.ob('terminates', W, False, at, 'the worklist changes in an unknown way: %s' % show(st.freeze(('ref', q)))[:200])
                continue
            requeued = [x for x in added if is_popped(x, hq)]
            R.ob('attempted-or-requeued', W + ': one of both',
                 (len(builds) == 1 and not added) or (not builds and len(added) == 1 and len(requeued) == 1), at,
                 '%d builds, %d put back if %s' % (len(builds), len(added), conds(st.path)))
            for e in builds:
                R.ob('attempted-or-requeued', W + ': the one taken', is_popped(e.args[1], hq), e.loc,
                     'builds %s' % show(e.args[1])[:200])
            # termination
            if delta < 0:
                R.ob('terminates', W + ': shrinks', True, at)
            else:
                R.ob('terminates', W + ': puts back', delta == 0 and bounded_progress(head, st, cx, hq), at,
                     'a formula is put back without progress if %s' % conds(st.path))
            # results
            if builds:
                succ = [e for e in builds if not failed]
                lists = result_lists(head, st, q)
                has = [x for x in lists if any(same(y, e.res) for e in builds for y in x[1])]
                if failed:
                    R.ob('failure-reported', W + ': not listed', not any(x[1] for x in lists), at,
                         'a formula that failed is listed as built')
                    built_ok |= 1
                else:
                    R.ob('failure-reported', W + ': listed', len(has) == 1 and len(has[0][1]) == 1, at,
                         'a built package is not listed exactly once')
                    built_ok |= 2
            waits(R, W, st, at, hq, builds, requeued, limits)
    R.ob('failure-reported', W + ' handles both', built_ok == 3, where, 'failures of a build are not handled')
    for o in outs:
        if o.ok:
            v = o.ret()
            R.ob('failure-reported', W + ': result', v[0] == 'L', where, 'returns %s' % show(v)[:200])


def ipkg_error(A, st, v):
    """may the exception be one of ipkg's"""
    c = A.exc_class(st, v)
    m = A.exc_mro(c)
    out = v[2] if v[0] == 'xinst' else ()
    if c == '?' or c in ('Exception', 'BaseException', 'StandardError'):
        return not any(x in out for x in A.exc_mro('ipkg.exceptions.IpkgException'))
    return 'ipkg.exceptions.IpkgException' in m and not any(x in out for x in m)


def queue_of(head, trs):
    cand = None
    for a, o in head.heap.items():
        if isinstance(o, L) and len(o.segs) == 1 and o.segs[0][0] == 'all':
            if any(length_change(head, s, a)[0] == -1 for s, k, v in trs if k in ('next', 'cont')):
                cand = a
    return cand


def length_change(head, st, q):
    """(change of length, values added)"""
    h = head.obj(('ref', q))
    o = st.obj(('ref', q))
    if not isinstance(o, L):
        return None, []
    hf = head.freeze(('ref', q))
    delta = 0
    added = []
    seen_rest = False
    for g in o.segs:
        if g[0] == 'one':
            delta += 1
            added.append(st.freeze(g[1]))
        elif g == h.segs[0]:
            seen_rest = True
        elif g[0] == 'all' and g[1][0] == 'rest':
            x = g[1]
            k = 0
            while x[0] == 'rest':
                k += 1
                x = x[1]
                if x[0] == 'L' and len(x[2]) == 1 and x[2][0][0] == 'all' and x[2][0][1][0] == 'rest':
                    x = x[2][0][1]
            if x != hf:
                return None, added
            delta -= k
            seen_rest = True
        else:
            return None, added
    if not seen_rest:
        return None, added
    return delta, added


def taken_of(hq, st, q):
    return None


def is_popped(v, hq):
    """v was taken from the worklist"""
    v = strip(v)
    h = strip(hq)
    if v[0] == 'popped':
        return v[1] == h
    if v[0] == 'item':
        return len(h[2]) == 1 and h[2][0][0] == 'all' and v[1] == h[2][0][1] or v[1] == h
    return False


def missing_only(o):
    """the worklist holds an instance of every formula not in the repository"""
    if o is None or not isinstance(o, L):
        return False
    segs = o.segs
    if not segs:
        return False
    for g in segs:
        if g[0] != 'many' or strip(g[3]) != sym('formulas'):
            return False
        e = ('elem', g[3])
        cs = [(strip(a), p) for a, p in g[2]]
        if len(cs) != 1 or cs[0][1] is not False or cs[0][0][0] != 'cmp' or cs[0][0][1] != 'in' or \
                cs[0][0][2] != strip(e):
            return False
        if not (cname(strip(g[1])) is not None and mentions(strip(g[1]), strip(e)) or strip(g[1]) == strip(e)):
            return False
        r = cs[0][0][3]
        if not any(isinstance(t, tuple) and (t[:1] == ('ref',) or cname(t) == 'ipkg.repositories.PackageRepository.__iter__')
                   for t in subterms(r)):
            return False
    return True


def bounded_progress(head, st, cx, hq):
    """a local counter moves by a constant step towards a bound in terms of the
    length of the worklist, and the condition checks the bound"""
    hv = head.obj(('ref', cx.frame)).vars
    sv = st.obj(('ref', cx.frame)).vars
    path = [(a, p) for a, p in st.path] + inner_paths(st.events())
    for n, v in sv.items():
        w = hv.get(n)
        if w is None or w == v:
            continue
        step = step_of(v, w)
        if step is None:
            continue
        for a, p in path:
            a = strip(a)
            if a[0] == 'cmp' and a[1] in ('<', '<=', '>', '>='):
                l, r = a[2], a[3]
                op = a[1]
                if l == strip(w) and bounded(r):
                    up = op in ('<', '<=')
                elif r == strip(w) and bounded(l):
                    up = op in ('>', '>=')
                else:
                    continue
                if not p:
                    up = not up
                if up and step > 0 or not up and step < 0:
                    return True
    return False


def inner_paths(events):
    """what the iterations that ended loops early depended on"""
    out = []
    for e in events:
        if e.kind == 'loop' and e.name == 'part':
            brk = [r for r in e.kw if r[0] == 'brk']
            if brk:
                out.extend(frozenset.intersection(*[r[1] for r in brk]))
    return out


def bounded(t):
    return t[0] == 'c' or cname(t) == 'len' or t[0] == 'call' and t[1] in ('+', '-') or \
        t[0] == 'bin' or any(cname(x) == 'len' for x in subterms(t) if isinstance(x, tuple))


def step_of(v, w):
    v, w = strip(v), strip(w)
    for x in subterms(v):
        pass
    if v[0] == 'call' and len(v[2]) == 2 and v[2][0] == w and v[2][1][0] == 'c':
        k = v[2][1][2]
        if v[1] in ('+', 'Add', 'operator.add'):
            return k
        if v[1] in ('-', 'Sub', 'operator.sub'):
            return -k
    if v[0] in ('bin', 'binop') and len(v) == 4 and v[2] == w and v[3][0] == 'c':
        return v[3][2] if v[1] in ('+', 'Add') else -v[3][2] if v[1] in ('-', 'Sub') else None
    return None


def result_lists(head, st, q):
    out = []
    for a, o in head.heap.items():
        if isinstance(o, L) and a != q and a in st.heap and isinstance(st.heap[a], L):
            new = [g for g in st.heap[a].segs if g not in o.segs]
            if new:
                out.append((a, [st.freeze(g[1]) for g in new if g[0] == 'one']))
    return out


def waits(R, W, st, at, hq, builds, requeued, limits):
    """put back only because a formula still to be built satisfies a dependency;
    and built although one does only if the bound was reached"""
    evs = st.events()
    f = None
    rest_sat = [(a, p) for a, p in st.path if queue_sat(a)]

    def reached(r):
        return any((strip(a), not p) in limits for a, p in list(r[1]) + list(st.path))
    if requeued:
        R.ob('waits', W + ': put back', any(p for a, p in rest_sat), at,
             'a formula is put back although no formula to be built satisfies a dependency: %s' % conds(st.path))
    if builds:
        loops = [e for e in evs if e.kind == 'loop' and dependencies_of(e.args[0], hq)]
        R.ob('waits', W + ': dependencies looked at', bool(loops), at,
             'a formula is built without looking at its dependencies')
        for e in loops:
            for r in e.kw:
                if r[0] not in ('next', 'brk'):
                    continue
                hit = [(a, p) for a, p in r[1] if queue_sat(a) and p]
                if hit and r[0] == 'next':
                    R.ob('waits', W + ': goes on', reached(r), e.loc,
                         'a dependency still to be built is passed over if %s' % conds(r[1]))
                scanned = [x for x in r[2] if x.kind == 'loop' and rest_like(x.args[0])]
                if r[0] == 'next' and not hit:
                    R.ob('waits', W + ': looks at the worklist',
                         bool(scanned) or reached(r) or invalid(r), e.loc,
                         'a dependency is passed over without looking for it in the worklist if %s' % conds(r[1]))


def invalid(r):
    return any(e.kind in ('failed', 'catch') for e in flatten(r[2]))


def dependencies_of(v, hq):
    """the dependencies of the formula taken from the worklist"""
    v = strip(v)
    while v[0] == 'call' and len(v[2]) == 1:
        v = v[2][0]
    return v[0] == 'attr' and v[2] == 'dependencies' and is_popped(v[1], hq)


def rest_like(v):
    return any(isinstance(x, tuple) and x and x[0] == 'rest' for x in subterms(v))


def queue_sat(a):
    """the atom: a requirement is satisfied by an element of the worklist"""
    a = strip(a)
    return a[0] == 'truth' and cname(a[1]) in ('ipkg.requirements.Requirement.satisfied_by', '.satisfied_by') and \
        len(a[1][2]) == 2 and rest_like(a[1][2][1])


def bound_atom(a):
    a = strip(a)
    return a[0] == 'cmp' and a[1] in ('<', '<=', '>', '>=') and any(
        isinstance(x, tuple) and x and (x[0] == 'hv' or cname(x) == 'len') for x in subterms(a))


CHECKS = {'C26': c26, 'C30': c30, 'C31': c31, 'C32': c32}
