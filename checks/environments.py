"""C01-C05, C08: installing into and uninstalling from an environment"""
from .base import *

INSTALL = 'ipkg.environments.Environment.install'
UNINSTALL = 'ipkg.environments.Environment.uninstall'
REWRITE = 'ipkg.prefix_rewriters.rewrite_prefix'
SAVE = 'ipkg.utils.DictFile.save'
PACKAGES = ('item', sym('meta'), const('packages'))
PREFIX = sym('prefix')


def start(R, raises=True, opaque=ENV_OPAQUE):
    A = analysis(raises=raises)
    A.opaque |= set(opaque)
    st = A.fresh()
    s, env, meta = environment(A, st)
    return A, s, env, meta


def install(R, raises=True):
    A, s, env, meta = start(R, raises)
    A.value(INSTALL)
    outs = A.method(s, env, 'install', [sym('package'), sym('repository')])
    R.saw(A, outs)
    if not any(recorded(o) for o in outs):
        raise Missing('Environment.install records nothing')
    return A, env, meta, outs


def is_record(e):
    """a package is entered into the environment's packages"""
    return e.kind == 'setitem' and e.args and e.args[0] == PACKAGES or \
        e.kind in ('setitem', 'mut') and e.args and e.args[0] != PACKAGES and \
        root(e.args[0]) == sym('meta') and not under_config(e.args[0]) or \
        e.kind == 'mut' and e.args and e.args[0] == PACKAGES


def under_config(v):
    while v[0] in ('item', 'attr'):
        if v[0] == 'item' and v[1] == sym('meta'):
            return v[2] == const('config')
        v = v[1]
    return False


def recorded(o):
    return [i for i, e in enumerate(o.events) if is_record(e)]


def extraction(e):
    return method_named(e, 'extract') and len(e.args) >= 2


def failed_in(events):
    return [e for e in flatten(events) if e.kind == 'failed']


STEPS = ('install', 'extract', 'rewrite_prefix', 'uninstall', 'save')


MEMBER_NAMES = ('.ipkg.meta', 'bin/foo', 'lib/.ipkg.meta', 'x.ipkg.meta', '.ipkg.metadata', 'share/x/.hidden',
                'etc/x.json', 'lib/x.pyc', 'README', './bin/foo')


def whole_archive(R):
    """PackageFile.extract unpacks every member but the metadata"""
    A = analysis(raises=False)
    PF = 'ipkg.packages.PackageFile'
    A.func_node(PF + ".extract")
    A.opaque |= {'ipkg.utils.check_tar_members', 'ipkg.utils.check_relative_path', 'ipkg.files.vopen'}
    at = loc_of(A, PF + '.extract')
    n = 0
    for p in A.new(A.fresh(), PF, [sym('file')]):
        if not p.ok:
            continue
        for o in A.method(reset(A, p.st), p.val, 'extract', [sym('target')]):
            if not o.ok:
                continue
            n += 1
            good, what = [], []
            for e in o.events:
                if e.kind == 'call' and e.name == '.extractall':
                    m = e.args[2] if len(e.args) > 2 else dict(e.kw).get('members', NONE)
                    t = e.args[1] if len(e.args) > 1 else dict(e.kw).get('path')
                    good.append(t is not None and same(t, sym('target')) and
                                (m == NONE or members_taken(o.st.freeze(m), e.args[0])))
                    what.append(show(m)[:200])
                elif e.kind == 'loop' and e.name == 'done':
                    took = [r for r in e.kw if any(x.kind == 'call' and x.name == '.extract' and len(x.args) > 2 and
                                                   same(x.args[2], sym('target')) and
                                                   strip(x.args[1]) == strip(('elem', e.args[0]))
                                                   for x in flatten(r[2]))]
                    if took:
                        good.append(all_members(e.args[0], None) and every_name(
                            [list(q) for r in took for q in rec_paths(r)], e.args[0]))
                        what.append('some members')
            R.ob('whole-archive', 'PackageFile.extract', any(good), at,
                 'the members extracted are %s, if %s' % (what, o.describe()[:200]))
    R.ob('whole-archive', 'PackageFile.extract works', n > 0, at)


def all_members(coll, archive):
    coll = strip(coll)
    return cname(coll) == '.getmembers' or cname(coll) == 'tarfile.open' or archive is not None and coll == strip(archive)


def every_name(conds, coll):
    """for every name but that of the metadata, some of the conditions hold"""
    el = strip(('elem', coll))
    for name in MEMBER_NAMES[1:]:
        env = {('attr', el, 'name'): name, ('attr', el, 'path'): name}
        if not any(all(foldb(strip(a), env) == p for a, p in c) for c in conds):
            return False
    return True


def members_taken(m, archive):
    if m[0] != 'L':
        return all_members(m, archive)
    for g in m[2]:
        if g[0] == 'all' and all_members(g[1], archive):
            return True
        if g[0] == 'many' and all_members(g[3], archive) and strip(g[1]) == strip(('elem', g[3])) and \
                every_name([list(g[2])], g[3]):
            return True
    return False


def c01(R):
    R.rule('extracted-before-record', 'a package is entered into meta["packages"] only after it was '
           'extracted into the prefix on the same path')
    R.rule('rewritten-before-record', 'the rewriting loop over the package files is complete (or the '
           'prefixes are equal) before the record is written')
    R.rule('dependencies-before-record', 'the loop over the dependencies is complete (or there are none) '
           'before the record is written')
    R.rule('own-record', 'the key written is the name and the value the metadata of the package that was extracted')
    R.rule('failure-propagates', 'no step that failed is followed by a normal return or by a record')
    R.rule('saved-after', 'the metadata is saved only with the record complete: no save between steps')
    R.rule('whole-archive', 'extracting a package unpacks every member of its archive but the metadata')
    whole_archive(R)
    A, env, meta, outs = install(R)
    at = loc_of(A, INSTALL)
    n = 0
    for o in outs:
        evs = o.events
        recs = recorded(o)
        for e in evs:
            if e.kind == 'loop':
                for x in flatten([e]):
                    if is_record(x):
                        R.ob('extracted-before-record', 'Environment.install', False, x.loc,
                             'packages are recorded inside a loop')
        for i in recs:
            n += 1
            e = evs[i]
            ext = [x for x in evs[:i] if extraction(x)]
            ok = any(same(x.args[1], PREFIX) for x in ext)
            R.ob('extracted-before-record', 'Environment.install', ok, e.loc,
                 'recorded without extraction into the prefix, ' + o.describe()[:300])
            if not ok:
                continue
            P = [x for x in ext if same(x.args[1], PREFIX)][-1].args[0]
            names = [strip(v) for v in values_of(A, o.st, P, 'name')]
            metas = [strip(v) for v in values_of(A, o.st, P, 'meta')]
            R.ob('own-record', 'Environment.install',
                 e.kind == 'setitem' and e.args[0] == PACKAGES and
                 strip(e.args[1]) in names and strip(o.st.freeze(e.args[2])) in metas, e.loc,
                 'recorded %s = %s' % (show(e.args[1]), show(e.args[2])))
            # dependencies
            deps = [strip(v) for v in values_of(A, o.st, P, 'dependencies')]
            R.ob('dependencies-before-record', 'Environment.install',
                 loops_over(evs[:i], deps) or empty(o.st, P, A, 'dependencies'), e.loc,
                 'the dependencies were not all handled before, ' + o.describe()[:300])
            files = [strip(('item', m, const('files'))) for m in metas]
            bp = [strip(('item', m, const('build_prefix'))) for m in metas]
            equal = any(tri(o.st.path, eq(b, PREFIX)) is True for b in bp)
            R.ob('rewritten-before-record', 'Environment.install',
                 equal or loops_over(evs[:i], files), e.loc,
                 'the files were not all handed to the rewriter before, ' + o.describe()[:300])
        bad = failed_in(evs)
        for f in bad:
            step = str(f.name).rsplit('.', 1)[-1]
            if step not in STEPS:
                continue
            if step != 'save':
                R.ob('failure-propagates', 'Environment.install: %s' % step,
                     not o.ok and not recs, f.loc,
                     'a failure of %s ends with %s' % (f.name, 'a record' if recs else 'a normal return'))
            else:
                R.ob('failure-propagates', 'Environment.install: save', not o.ok, f.loc,
                     'a failing save ends normally')
        # what is saved before the record is complete must not contain one
        if recs:
            first = recs[0]
            steps = [j for j, e in enumerate(evs) if j > first and (
                extraction(e) or contains(e, lambda x: is_call(x, REWRITE, INSTALL)))]
            R.ob('saved-after', 'Environment.install', not steps, evs[first].loc,
                 'steps of the installation follow the record')
    R.ob('extracted-before-record', 'Environment.install has recording paths', n > 0, at)


def loops_over(evs, colls):
    """a completed loop over one of the collections, without early exits"""
    for e in evs:
        if e.kind == 'loop' and e.name == 'done' and strip(e.args[0]) in colls:
            return True
    return False


def empty(st, P, A, name):
    for v in values_of(A, st, P, name):
        if v in (tup(),) or v[0] == 'L' and not v[2] or v[0] == 'c':
            return True
        for t in (truth(v), v):
            if tri(st.path, t) is False:
                return True
        if tri(st.path, ('isnone', v)) is True:
            return True
    return False


def c02(R):
    R.rule('every-file-removed', 'in the loop over the recorded files, a file that is a regular file or a '
           'symbolic link is unlinked in every iteration')
    R.rule('only-recorded-files', 'the only paths unlinked are prefix joined with recorded entries, '
           'only empty directories are removed, with rmdir')
    R.rule('record-last', 'the record is deleted after the completed loop, and saved afterwards')
    R.rule('not-installed', 'without a record NotInstalled is raised and nothing changed')
    R.rule('failure-propagates', 'a failing removal reaches the caller')
    A, s, env, meta = start(R, True, ENV_OPAQUE - {UNINSTALL})
    pkg = sym('package')
    outs = A.method(s, env, 'uninstall', [pkg])
    R.saw(A, outs)
    where = loc_of(A, UNINSTALL)
    rec = ('item', PACKAGES, pkg)
    files = ('item', rec, const('files'))
    elem = ('elem', files)
    path = call('os.path.join', (PREFIX, elem))
    lookup = ('cmp', 'in', pkg, PACKAGES)
    UNLINK = ('os.unlink', 'os.remove')
    isf, isl = truth(call('os.path.isfile', (path,))), truth(call('os.path.islink', (path,)))
    lex = truth(call('os.path.lexists', (path,)))
    isd = truth(call('os.path.isdir', (path,)))
    wanted = ('|', isf, isl, ('&', lex, ('!', isd)))
    excluded = ('|', ('&', ('!', isf), ('!', isl)), ('!', lex), ('&', isd, ('!', isl)))
    U = 'Environment.uninstall'
    normal = 0
    for o in outs:
        evs = o.events
        changes = [e for e in flatten(evs) if is_deletion(e) or writes_to(e, sym('meta')) or is_call(e, SAVE)]
        known_in = tri(o.st.path, lookup)
        if known_in is False or not o.ok and o.exc_is('ipkg.environments.NotInstalled'):
            R.ob('not-installed', U, not o.ok and o.exc_is('ipkg.environments.NotInstalled') and not changes,
                 where, '%s, %s' % (o.kind, o.describe()[:200]))
            if not o.ok and o.exc_is('ipkg.environments.NotInstalled'):
                R.ob('not-installed', U + ' only then',
                     known_in is False or any(e.kind == 'failed' or e.kind == 'catch' for e in evs),
                     where, 'raised although it may be installed: ' + o.describe()[:200])
            continue
        loops = [(i, e) for i, e in enumerate(evs) if e.kind == 'loop' and strip(e.args[0]) == strip(files)]
        # loops that only collect are judged by the one that removes
        loops = [(i, e) for i, e in loops if contains(e, lambda x: is_call(x, *UNLINK))] or loops
        dels = [i for i, e in enumerate(evs) if removes_record(e, pkg)]
        for e in flatten(evs):
            if is_call(e, *UNLINK):
                R.ob('only-recorded-files', '%s: %s' % (U, e.name), same(e.args[0], path), e.loc,
                     'removes %s' % show(e.args[0]))
            elif is_deletion(e):
                p = e.args[0] if e.args else None
                R.ob('only-recorded-files', '%s: %s' % (U, e.name),
                     is_call(e, 'os.rmdir', 'os.removedirs') and p is not None and parent_of(p, path), e.loc,
                     '%s(%s)' % (e.name, show(p) if p else ''))
            elif e.kind in ('setitem', 'delitem', 'mut') and root(e.args[0]) == sym('meta'):
                R.ob('record-last', U + ': nothing else changes', removes_record(e, pkg), e.loc, repr(e)[:200])
        for i, e in loops:
            for rec_ in e.kw:
                for p in rec_paths(rec_):
                    acts = [x for x in flatten(rec_[2]) if is_call(x, *UNLINK)]
                    if rec_[0] in ('next', 'skip'):
                        if acts:
                            R.ob('every-file-removed', U + ': removed', tri(p, wanted) is not False, e.loc)
                        else:
                            R.ob('every-file-removed', U + ': kept', tri(p, excluded) is True, e.loc,
                                 'an entry is not removed if %s' % conds(p))
                    elif rec_[0] in ('brk', 'ret'):
                        R.ob('every-file-removed', U + ': loop', False, e.loc,
                             'the loop ends early if %s' % conds(p))
                    # rmdir only when empty
        for e, p in rmdirs(evs, o.st.path):
            R.ob('only-recorded-files', U + ': empty directories only', emptydir(p, e.args[0]) or
                 e.name == "os.removedirs", e.loc, 'rmdir without knowing the directory is empty')
        if o.ok:
            normal += 1
            done = [i for i, e in loops if e.name == 'done']
            R.ob('every-file-removed', U + ': all files', bool(done), where,
                 'returns without a complete loop over the files, ' + o.describe()[:200])
            R.ob('record-last', U + ': record', bool(dels) and bool(done) and min(dels) > max(done), where,
                 'the record is not removed after the files')
            saves = [i for i, e in enumerate(evs) if is_call(e, SAVE) and e.args and e.args[0] == meta]
            R.ob('record-last', U + ': saved', bool(dels) and bool(saves) and max(saves) > max(dels), where,
                 'the removal of the record is not saved')
        else:
            done = [i for i, e in loops if e.name == 'done']
            R.ob('record-last', U + ': record on failure',
                 not dels or bool(done) and min(dels) > max(done), where,
                 'the record is gone although files were not handled')
        for f in failed_in(evs):
            if f.name in UNLINK:
                R.ob('failure-propagates', '%s: %s' % (U, f.name), not o.ok, f.loc,
                     'a failing %s is ignored' % f.name)
    R.ob('every-file-removed', U + ' has successful paths', normal > 0, where)


def conds(p):
    return ' and '.join(sorted(('' if q else 'not ') + show(a) for a, q in p))[:300]


def removes_record(e, pkg):
    if e.kind == 'delitem' and e.args[0] == PACKAGES and same(e.args[1], pkg):
        return True
    if e.kind == 'mut' and e.args[0] == PACKAGES and 'pop' in str(e.name) and len(e.args) > 1 and \
            same(e.args[1], pkg):
        return True
    return False


DELETERS = ('os.unlink', 'os.remove', 'os.rmdir', 'os.removedirs', 'shutil.rmtree', 'os.rename',
            'shutil.move', 'os.truncate')


def is_deletion(e):
    return is_call(e, *DELETERS)


def parent_of(p, path):
    p = strip(p)
    path = strip(path)
    while cname(p) == 'os.path.dirname':
        p = p[2][0]
        if p == path:
            return True
    # dirname(join(prefix, x)) may be written join(prefix, dirname(x))
    if cname(p) == 'os.path.join' and len(p[2]) == 2 and cname(path) == 'os.path.join':
        a, b = p[2]
        if a == path[2][0]:
            while cname(b) == 'os.path.dirname':
                b = b[2][0]
                if b == path[2][1]:
                    return True
    return False


def rmdirs(events, path=frozenset()):
    for e in events:
        if e.kind == 'loop':
            for r in e.kw:
                for x in rmdirs(r[2], path | r[1]):
                    yield x
        elif is_call(e, 'os.rmdir', 'os.removedirs'):
            yield e, path


def emptydir(path, d):
    l = call('os.listdir', (d,))
    return tri(path, ('|', ('!', truth(l)), eq(l, ('L', 'list', ())), eq(call('len', (l,)), const(0)))) is True


def swallowed(evs, e):
    return False


def c03(R):
    R.rule('same-is-noop', 'if the installed entry has the same name, version and revision, install returns '
           'without any change')
    R.rule('other-is-uninstalled', 'if an entry of the same name has another version or revision, it is '
           'uninstalled, by name, before the new one is extracted')
    R.rule('scan-complete', 'the scan looks at every installed entry until the name is found')
    A, env, meta, outs = install(R, raises=False)
    elem = ('item', PACKAGES, ('elem', PACKAGES))
    where = loc_of(A, INSTALL)
    I = 'Environment.install'
    seen = set()
    for o in outs:
        evs = o.events
        # the package looked at: from its effects or the symbol
        x = index(evs, extraction)
        u = indexes(evs, lambda e: is_call(e, UNINSTALL))
        P = evs[x].args[0] if x is not None else None
        scans = [(i, e) for i, e in enumerate(evs) if e.kind == 'loop' and strip(e.args[0]) == strip(PACKAGES)]
        direct = any(mentions_packages_item(a) for a, p in o.st.path)
        if P is None:
            if o.ok:
                # a normal end without extraction: everything must be the same
                for f in ('name', 'version', 'revision'):
                    ok = any(is_same_field(a, f) and p for a, p in o.st.path) or \
                        f == 'name' and (keyed(o.st.path) or selection(o.st.path))
                    R.ob('same-is-noop', '%s: %s is compared' % (I, f), ok, where,
                         'returns without installing although %s was not found equal' % f)
                ch = [e for e in flatten(evs) if e.kind in ('setitem', 'delitem', 'mut', 'setattr') or
                      is_call(e, UNINSTALL, SAVE, INSTALL, REWRITE)]
                R.ob('same-is-noop', I + ': no change', not ch, where, repr(ch[:1]))
                seen.add('noop')
            continue
        if not o.ok:
            continue
        pn = [strip(v) for v in values_of(A, o.st, P, 'name')]
        part = [e for i, e in scans if e.name == 'part' and i < x]
        samename = any(is_same_field(a, 'name') and p for a, p in o.st.path) or keyed(o.st.path) or \
            selection(o.st.path)
        eqv = any(is_same_field(a, 'version') and p for a, p in o.st.path)
        eqr = any(is_same_field(a, 'revision') and p for a, p in o.st.path)
        R.ob('same-is-noop', I + ': equal versions are not reinstalled', not (samename and eqv and eqr),
             where, 'the same version is extracted again, ' + o.describe()[:200])
        if samename:
            seen.add('other')
            good = [i for i in u if i < x and
                    any(strip(a) in pn or is_elem_name(a) for a in evs[i].args[1:])]
            inloop = any(contains(e, lambda y: is_call(y, UNINSTALL)) for i, e in scans if i < x)
            R.ob('other-is-uninstalled', I, bool(good) or inloop, where,
                 'another version is installed and not uninstalled by its name before extraction')
        for i in u:
            R.ob('other-is-uninstalled', I + ': by name',
                 any(strip(a) in pn or is_elem_name(a) for a in evs[i].args[1:]), evs[i].loc,
                 'uninstall is called with %s' % ', '.join(show(a) for a in evs[i].args[1:]))
        # a path that installs without uninstalling: no entry has the name
        if not samename:
            R.ob('scan-complete', I, bool([1 for i, e in scans if e.name == 'done' and i < x]) or
                 notin(o.st.path), where, 'installs without having looked at all installed packages')
        for i, e in scans:
            if selection(o.st.path) is not None:
                continue
            for r in e.kw:
                if r[0] == 'next':
                    for p in rec_paths(r):
                        ok = any(is_same_field(a, 'name') and not q for a, q in p) or \
                            any(is_call(y, UNINSTALL) for y in flatten(r[2])) or not scan_of_names(e)
                        R.ob('scan-complete', I + ': entry passed over', ok, e.loc,
                             'an installed entry is passed over if %s' % conds(p))
    R.ob('same-is-noop', I + ' has a no-op path', 'noop' in seen, where,
         'no path ends early for an installed package')
    R.ob('other-is-uninstalled', I + ' has an upgrade path', 'other' in seen, where,
         'no path replaces an installed package')


def scan_of_names(e):
    return any(is_same_field(a, 'name') for r in e.kw for a, q in r[1])


def entry_base(t):
    """t is meta['packages'][something]"""
    if not (isinstance(t, tuple) and len(t) >= 3 and t[0] == 'item'):
        return False
    return strip(t[1]) == strip(PACKAGES) or of_same_name(t[1]) and t[2] == const(0)


def of_same_name(t):
    """t is the list of the installed entries which have the name"""
    t = strip(t)
    return t[0] == 'L' and len(t[2]) == 1 and t[2][0][0] == 'many' and entry_base(strip(t[2][0][1])) and \
        strip(t[2][0][3]) == strip(PACKAGES) and len(t[2][0][2]) == 1 and \
        all(is_same_field(a, 'name') and q for a, q in t[2][0][2])


def selection(path):
    """whether there is an entry of that name, if the path asks for the list of them"""
    for a, p in path:
        a = strip(a)
        if a[0] == 'truth' and of_same_name(a[1]):
            return p
    return None


def field(t):
    """(kind, field) if t reads a field of an installed entry or of a package"""
    t = strip(t)
    if t[0] == 'call' and t[1] == '.get' and len(t[2]) >= 2 and t[2][1][0] == 'c':
        t = ('item', t[2][0], t[2][1])
    if t[0] == 'item' and len(t) == 3 and t[2][0] == 'c' and t[2][1] == 'str':
        return ('entry' if entry_base(t[1]) else 'package'), t[2][2]
    if t[0] == 'attr':
        return ('entry' if entry_base(t[1]) else 'package'), t[2]
    return None, None


def is_same_field(a, name):
    """the atom compares the field of an installed entry and of the package"""
    a = strip(a)
    if a[0] == 'cmp' and a[1] == '==':
        l, r = field(a[2]), field(a[3])
        return l[1] == r[1] == name and {l[0], r[0]} == {'entry', 'package'}
    return False


def is_elem_name(v):
    return field(v) == ('entry', 'name') or strip(v) == strip(('elem', PACKAGES))


def mentions_packages_item(a):
    return any(entry_base(x) for x in subterms(strip(a)) if isinstance(x, tuple))


def keyed(path):
    """package.name in meta['packages']"""
    return any(strip(a)[0] == 'cmp' and a[1] == 'in' and strip(a[3]) == strip(PACKAGES) and p and
               field(a[2])[1] == 'name' for a, p in path)


def notin(path):
    return any(strip(a)[0] == 'cmp' and a[1] == 'in' and strip(a[3]) == strip(PACKAGES) and not p and
               field(a[2])[1] == 'name' for a, p in path)


def c04(R):
    R.rule('all-dependencies', 'every iteration of the loop over the dependencies installs the dependency, '
           'from the same repository, unless it is already installed; the loop is not left early')
    R.rule('before-extraction', 'the completed loop precedes the extraction')
    R.rule('cycle-detected', 'the names of the packages being installed are handed down and a package among '
           'them is refused before any effect')
    A, env, meta, outs = install(R, raises=False)
    where = loc_of(A, INSTALL)
    I = 'Environment.install'
    n = 0
    for o in outs:
        evs = o.events
        for x in indexes(evs, extraction):
            P = evs[x].args[0]
            deps = [strip(v) for v in values_of(A, o.st, P, 'dependencies')]
            loops = [(i, e) for i, e in enumerate(evs) if e.kind == 'loop' and strip(e.args[0]) in deps]
            if not loops:
                R.ob('before-extraction', I, empty(o.st, P, A, 'dependencies'), evs[x].loc,
                     'extracted without a loop over the dependencies, ' + o.describe()[:200])
                continue
            R.ob('before-extraction', I, any(i < x and e.name == 'done' for i, e in loops), evs[x].loc,
                 'the loop over the dependencies does not come before, or is left early')
            for i, e in loops:
                if i > x:
                    continue
                elem = strip(('elem', e.args[0]))
                for r in e.kw:
                    for p in rec_paths(r):
                        calls = [y for y in flatten(r[2]) if is_call(y, INSTALL)]
                        for y in calls:
                            n += 1
                            R.ob('all-dependencies', I + ': arguments',
                                 strip(y.args[1]) == elem and len(y.args) > 2 and y.args[2] == sym('repository'),
                                 y.loc, 'installs %s from %s' % (show(y.args[1]), show(y.args[2]) if len(y.args) > 2 else '?'))
                        inst = any(strip(a)[0] == 'cmp' and a[1] == 'in' and strip(a[2]) == elem and
                                   strip(a[3]) == strip(PACKAGES) and q for a, q in p)
                        if r[0] in ('next', 'skip'):
                            R.ob('all-dependencies', I + ': skipped', bool(calls) or inst, e.loc,
                                 'a dependency is skipped if %s' % conds(p))
                        elif r[0] in ('brk', 'ret'):
                            R.ob('all-dependencies', I + ': loop', False, e.loc, 'the loop ends early')
    R.ob('all-dependencies', I + ' installs dependencies', n > 0, where)
    cycles(R)


def cycles(R):
    """termination of the recursion: some argument handed down identifies the
    chain, grows by the package, and is tested before recursing"""
    A, s, env, meta = start(R, False)
    node = A.func_node(INSTALL)
    I = 'Environment.install'
    names = [a for a in node_params(node)][1:]
    extra = names[2:]
    ok = False
    for k, prm in enumerate(extra):
        s2 = s.copy()
        chain = sym('chain')
        outs = A.method(s2, env, 'install', [sym('package'), sym('repository')], [(prm, chain)])
        R.saw(A, outs)
        good = bool(outs)
        tested = False
        for o in outs:
            recs = [e for e in flatten(o.events) if is_call(e, INSTALL)]
            for e in recs:
                args = e.args[1:]
                a = args[names.index(prm)] if len(args) > names.index(prm) else None
                if a is None or not mentions(strip(o.st.freeze(a)), chain):
                    good = False
                    continue
                P = package_names(a)
                # the test happened, and came out negative
                hit = [1 for c, p in o.st.path if strip(c)[0] == 'cmp' and c[1] == 'in' and
                       strip(c[3]) == strip(chain) and not p]
                if not hit:
                    good = False
                if not grows_by_name(o.st.freeze(a), chain):
                    good = False
            for c, p in o.st.path:
                if strip(c)[0] == 'cmp' and c[1] == 'in' and strip(c[3]) == strip(chain) and p:
                    tested = True
                    if o.ok or not o.exc_is('ipkg.exceptions.IpkgException') or \
                            any(is_call(e, INSTALL, UNINSTALL, SAVE) or extraction(e) for e in flatten(o.events)):
                        good = False
        if good and tested:
            ok = True
    R.ob('cycle-detected', I, ok, (node.file, node.line),
         'no parameter carries the packages being installed down the recursion and stops a cycle')


def grows_by_name(v, chain):
    """the value handed down contains the chain and the package's name"""
    v = strip(v)
    return mentions(v, strip(chain)) and any(
        isinstance(x, tuple) and field_safe(x) == 'name' for x in subterms(v))


def field_safe(x):
    try:
        return field(x)[1]
    except Exception:
        return None


def package_names(a):
    return a


def node_params(node):
    return [a for a in params_of(node)]


def params_of(node):
    return [p.id if hasattr(p, 'id') else p.arg for p in node.args.args]


def c05(R):
    R.rule('saved', 'on every path that ends normally after a change of the metadata, the metadata is saved, '
           'and nothing is changed after the last save')
    for name, args in (('install', [sym('package'), sym('repository')]), ('uninstall', [sym('package')]),
                       ('set_config', [sym('key'), sym('value')])):
        A, s, env, meta = start(R, False, ENV_OPAQUE - {UNINSTALL if name == 'uninstall' else ''})
        outs = A.method(s, env, name, args)
        R.saw(A, outs)
        n = judge_saved(R, A, outs, meta, sym('meta'), 'Environment.' + name,
                        loc_of(A, 'ipkg.environments.Environment.' + name))
        R.ob('saved', 'Environment.%s changes the metadata' % name, n > 0,
             loc_of(A, 'ipkg.environments.Environment.' + name))
    from . import indexing
    indexing.saved(R)


def judge_saved(R, A, outs, meta, content, who, where, more=()):
    n = 0
    c = None
    for o in outs:
        if not o.ok:
            continue
        c = content_of(o.st, meta)
        is_change = lambda e: (e.kind in ('setitem', 'delitem', 'mut') and e.args and
                               (root(e.args[0]) == content or e.args[0] in (meta, c) or
                                root(e.args[0]) in (meta, c))) or is_call(e, *more)
        is_save = lambda e: is_call(e, SAVE) and e.args and e.args[0] == meta
        ch = [i for i, e in enumerate(o.events) if contains(e, is_change)]
        if not ch:
            continue
        n += 1
        sv = [i for i, e in enumerate(o.events) if is_save(e)]
        ok = bool(sv) and max(sv) > max(ch)
        if not ok:
            # a save as the last effect of every iteration that changes something
            e = o.events[max(ch)]
            if e.kind == 'loop':
                ok = all(not deep(r[2], is_change) or
                         last_is_save(r[2], is_change, is_save) for r in e.kw)
        R.ob('saved', who, ok, o.events[max(ch)].loc or where,
             'ends with a change of the metadata that is not saved, ' + o.describe()[:200])
    return n


def last_is_save(events, is_change, is_save):
    ch = [i for i, e in enumerate(events) if contains(e, is_change)]
    sv = [i for i, e in enumerate(events) if is_save(e)]
    return bool(sv) and max(sv) > max(ch)


def c08(R):
    R.rule('exactly-relocatable', 'in the loop over the files, an entry is handed to rewrite_prefix exactly if '
           'it lies in bin, sbin or lib* and is a regular file and no link')
    R.rule('arguments', 'the rewriter gets the entry, the build prefix and the environment prefix')
    R.rule('after-extraction', 'rewriting happens after the extraction, only if the prefixes differ, for all files')
    R.rule('dispatch', 'each kind of file goes to its rewriter, and no other file to any')
    A, env, meta, outs = install(R, raises=False)
    where = loc_of(A, INSTALL)
    I = 'Environment.install'
    n = 0
    for o in outs:
        evs = o.events
        if not o.ok:
            continue
        x = index(evs, extraction)
        for i, e in enumerate(evs):
            if contains(e, lambda y: is_call(y, REWRITE)):
                R.ob('after-extraction', I, x is not None and i > x, e.loc, 'rewrites before extracting')
        if x is None:
            continue
        P = evs[x].args[0]
        metas = values_of(A, o.st, P, 'meta')
        files = [strip(('item', m, const('files'))) for m in metas]
        bps = [('item', m, const('build_prefix')) for m in metas]
        equal = None
        for b in bps:
            for m_ in [b] + [v for v in values_of(A, o.st, P, 'build_prefix')]:
                v = tri(o.st.path, eq(m_, PREFIX))
                equal = v if v is not None else equal
        loops = [e for e in evs if e.kind == 'loop' and strip(e.args[0]) in files and
                 (contains(e, lambda y: is_call(y, REWRITE)) or True)]
        rew = [y for y in flatten(evs) if is_call(y, REWRITE)]
        if equal is True:
            R.ob('after-extraction', I + ': equal prefixes', not rew, where, 'rewrites although the prefixes are equal')
            continue
        loops = [e for e in loops if e.name == 'done']
        R.ob('after-extraction', I + ': all files', bool(loops), where,
             'no complete loop over the files of a relocated package, ' + o.describe()[:200])
        for e in loops:
            f = ('elem', e.args[0])
            d = call('os.path.dirname', (f,))
            full = call('os.path.join', (PREFIX, f))
            place = ('|', eq(d, const('bin')), eq(d, const('sbin')),
                     truth(call('.startswith', (d, const('lib')))))
            want = ('&', place, truth(call('os.path.isfile', (full,))),
                    ('!', truth(call('os.path.islink', (full,)))))
            for r in e.kw:
                for p in rec_paths(r):
                    if r[0] not in ('next', 'skip'):
                        if r[0] in ('brk', 'ret'):
                            R.ob('exactly-relocatable', I + ': loop', False, e.loc, 'the loop ends early')
                        continue
                    calls = [y for y in flatten(r[2]) if is_call(y, REWRITE)]
                    t = tri(p, want)
                    if calls:
                        n += 1
                        R.ob('exactly-relocatable', I + ': rewritten', t is True and len(calls) == 1, e.loc,
                             'rewritten if %s' % conds(p))
                        for y in calls:
                            R.ob('arguments', I, strip(y.args[0]) in (strip(f),) and
                                 any(same(y.args[1], b) or b in values_of(A, o.st, P, 'build_prefix') for b in bps) and
                                 same(y.args[2], PREFIX), y.loc, repr(y)[:300])
                    else:
                        R.ob('exactly-relocatable', I + ': left alone', t is False, e.loc,
                             'not rewritten if %s' % conds(p))
    R.ob('exactly-relocatable', I + ' rewrites', n > 0, where)
    from . import prefixes
    prefixes.dispatch(R)


CHECKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C08': c08}
