"""C14, C15, C16: building packages"""
from .base import *

FORMULA = 'ipkg.build.Formula'
ENV = 'ipkg.environments.Environment'
FIELDS = ('name', 'version', 'revision', 'platform')
ATTRS = ('name', 'version', 'revision', 'sources', 'patches', 'dependencies', 'homepage', 'envvars',
         'build_envvars', 'configure_args', 'platform')
OPAQUE = ENV_OPAQUE | {
    'ipkg.utils.unarchive', 'ipkg.platforms.Platform.current', FORMULA + '.run_command', FORMULA + '.install',
    ENV + '.install', ENV + '.execute', ENV + '.packages', 'ipkg.requirements.Requirement.__init__',
    'ipkg.requirements.Requirement.satisfied_by', 'ipkg.environments.EnvironmentDirectories.create'}
PDIR, REMOVE, REPO_ = sym('package_dir'), sym('remove_build_dir'), sym('repository')
INSTALL_STEP = FORMULA + '.install'
REMOVERS = ('os.unlink', 'os.remove', 'shutil.rmtree', 'os.rmdir', 'os.removedirs')
REMOVES_FILE = ('os.unlink', 'os.remove')


def walkers(A):
    """the functions which list a directory tree"""
    out = set()
    for k, fi in A.funcs.items():
        if fi.module == 'ipkg.build' and fi.name not in ('build',) and any(
                n.t == 'Attribute' and n.attr == 'walk' and n.value.t == 'Name' and n.value.id == 'os'
                for n in own_nodes_of(fi)):
            out.add(fi.qual)
    return out


def own_nodes_of(fi):
    from engine.calls import own
    return list(own(fi))


def formula(A, env=True):
    st = A.fresh()
    e = NONE
    if env:
        st, e, m = environment(A, st)
    f = st.new(I(FORMULA, {k: sym(k) for k in ATTRS}))
    for k in ('name', 'version', 'revision', 'sources'):
        st.assume(('isnone', sym(k)), False)
    made = [x for x in A.quiet(lambda: A.method(st, f, '__init__', [e])) if x.ok]
    if not made:
        raise Missing('Formula cannot be instantiated')
    s = made[0].st
    clear(s)
    A.set_mark(s)
    return s, f, e


def some_environment(A, st, args, kw, cx, n):
    o = st.obj(args[0])
    st.put(args[0], I(o.cls, dict(o.attrs, prefix=args[1], **{'*': NONE}), o.content))
    return [(st, 'v', NONE)]


_CACHE = {}


def build(R, raises=False, env=True):
    key = (raises, env)
    if key not in _CACHE:
        A = analysis(raises=raises)
        W = walkers(A)
        if not W:
            raise Missing('the function listing the files of the prefix')
        A.opaque |= OPAQUE | W
        A.raises_only = set(STEPS)
        A.note_orders = True
        if not env:
            # the environment made for the build: only its prefix matters
            A.hooks[ENV + '.__init__'] = some_environment
        s, f, e = formula(A, env)
        outs = A.method(s, f, 'build', [PDIR, REMOVE, REPO_])
        _CACHE[key] = A, W, f, e, outs
    r = _CACHE[key]
    R.saw(r[0], r[4])
    return r


class Build(object):
    """the steps of one successful build"""

    def __init__(self, A, W, f, e, o):
        self.A, self.o, self.st = A, o, o.st
        evs = self.evs = o.events
        if e == NONE:
            e = o.st.obj(f).attrs.get('environment', NONE)
        self.env = e
        self.prefix = [strip(v) for v in values_of(A, o.st, e, 'prefix')] if e != NONE else []
        self.installs = indexes(evs, lambda x: is_call(x, INSTALL_STEP))
        self.walks = [i for i, x in enumerate(evs) if x.kind == 'call' and x.name in W]
        i = self.installs[0] if self.installs else None
        b = [j for j in self.walks if i is not None and j < i]
        a = [j for j in self.walks if i is not None and j > i]
        self.before = b[-1] if b else None
        self.after = a[0] if a else None
        self.A0 = evs[self.before].res if b else None
        self.A1 = evs[self.after].res if a else None
        self.archives = [(j, x) for j, x in enumerate(evs) if is_call(x, 'tarfile.open', 'tarfile.TarFile.open') and
                         mode_of(x).startswith('w')]
        self.close = None
        if self.archives:
            t = self.archives[0][1].res
            c = [j for j, x in enumerate(evs) if method_named(x, 'close') and x.args[:1] == (t,) or
                 x.kind == 'call' and x.name == '.__exit__' and x.args[:1] == (t,)]
            self.close = c[-1] if c else None
        self.build_dirs = [x.res for x in evs if is_call(x, 'tempfile.mkdtemp')]

    def is_file(self, v):
        """v names, relative to the prefix, an arbitrary file found after"""
        return v == ('elem', self.A1)

    def full(self, v):
        v = strip(v)
        e = strip(('elem', self.A1))
        return any(v == joined(p, e) for p in self.prefix)

    def new(self, path):
        """True/False/None: the file was not there before"""
        for a, p in path:
            if a[0] == 'cmp' and a[1] == 'in' and self.is_file(a[2]) and self.is_before(a[3]):
                return not p
        return None

    def is_before(self, v):
        if v == self.A0:
            return True
        v = self.st.freeze(v)
        return v[0] == 'L' and tuple(v[2]) == (('all', self.A0),)

    def new_files(self, v):
        """v is the collection of exactly the new files"""
        v = self.st.freeze(v)
        if cname(v) in ('sorted', 'list', 'tuple', 'set') and v[2]:
            v = self.st.freeze(v[2][0])
        if v[0] != 'L' or len(v[2]) != 1:
            return False
        g = v[2][0]
        return g[0] == 'many' and g[3] == self.A1 and self.is_file(g[1]) and len(g[2]) == 1 and \
            self.new(g[2]) is True


def joined(a, b):
    """os.path.join(a, b) the way the analysis writes it"""
    head = a[2] if cname(a) == 'os.path.join' else (a,)
    return strip(call('os.path.join', tuple(head) + (b,)))


def mode_of(e):
    m = e.args[1] if len(e.args) > 1 else dict(e.kw).get('mode', const('r'))
    return m[2] if m[0] == 'c' and isinstance(m[2], str) else '?'


def meta_dumps(B):
    """[(index, metadata dictionary)] written by the build"""
    out = []
    for i, e in enumerate(B.evs):
        if is_call(e, 'json.dump', 'json.dumps') and e.args and e.args[0][0] == 'D':
            out.append((i, e.args[0]))
        elif e.kind in ('call', 'mut') and e.name in ('.addfile', 'addfile'):
            for x in (y for a in e.args[2:] for y in subterms(B.st.freeze(a))):
                if cname(x) == 'json.dumps' and x[2]:
                    d = B.st.freeze(x[2][0])
                    if d[0] == 'D':
                        out.append((i, d))
    return out


def each_build(R, raises=False):
    n = 0
    for env in (True, False):
        A, W, f, e, outs = build(R, raises, env)
        for o in outs:
            if o.ok:
                n += 1
                yield Build(A, W, f, e, o)
    if not n:
        raise Missing('no successful path through Formula.build')


def c14(R):
    R.rule('snapshots', 'the prefix is listed before and after the install step, the first time after all '
           'dependencies were installed')
    R.rule('archive', 'exactly the files listed after and not before are added to the archive, under their name '
           'relative to the prefix')
    R.rule('metadata', 'the metadata lists exactly these files, and is added to the archive before it is closed')
    R.rule('listing', 'the listing holds, relative to the base, every file and every link to a directory below it '
           'and nothing else')
    A = None
    for B in each_build(R):
        A = B.A
        where = loc_of(A, FORMULA + '.build')
        W = 'Formula.build'
        ok = len(B.installs) == 1 and B.before is not None and B.after is not None
        R.ob('snapshots', W, ok, where, 'install step: %d, listings before and after: %s, if %s' % (
            len(B.installs), (B.before, B.after), B.o.describe()[:200]))
        if not ok:
            continue
        deps = [i for i, e in enumerate(B.evs) if contains(e, lambda x: is_call(x, ENV + '.install'))]
        R.ob('snapshots', W + ': dependencies first', all(i < B.before for i in deps), where,
             'a dependency is installed after the files were listed')
        for i in (B.before, B.after):
            R.ob('snapshots', W + ': prefix', len(B.evs[i].args) == 1 and strip(B.evs[i].args[0]) in B.prefix,
                 B.evs[i].loc, 'lists %s' % show(B.evs[i].args[0]))
        removed = [e for e in B.evs[B.before:B.after] if contains(e, lambda x: is_call(x, *REMOVERS))]
        R.ob('snapshots', W + ': nothing removed between', not removed, where)
        R.ob('archive', W + ': one archive', len(B.archives) == 1 and B.close is not None, where,
             '%d archives, closed: %s' % (len(B.archives), B.close))
        if len(B.archives) != 1:
            continue
        t = B.archives[0][1].res
        added = [(i, e) for i, e in enumerate(B.evs) if contains(e, lambda x: adds(x, t))]
        done = [e for i, e in added if e.kind == 'loop' and e.name == 'done' and e.args[0] == B.A1]
        R.ob('archive', W + ': every new file', bool(done), where, 'no complete loop adding the new files')
        for i, e in added:
            if e.kind != 'loop' or e.args[0] != B.A1:
                R.ob('archive', W + ': only new files', False, e.loc, 'adds something else: %r' % e)
                continue
            R.ob('archive', W + ': before it is closed', B.close is None or i < B.close, e.loc)
            for r in e.kw:
                for p in rec_paths(r):
                    xs = [x for x in flatten(r[2]) if adds(x, t)]
                    new = B.new(p)
                    R.ob('archive', W + ': exactly the new files', len(xs) == (1 if new else 0) and new is not None or
                         new is None and not xs and r[0] == 'exc', e.loc,
                         '%d files are added if %s' % (len(xs), [show(a) for a, q in p]))
                    for x in xs:
                        name = x.args[2] if len(x.args) > 2 else dict(x.kw).get('arcname')
                        R.ob('archive', W + ': the file', B.full(x.args[1]), x.loc, 'adds ' + show(x.args[1]))
                        R.ob('archive', W + ': its name', name is not None and B.is_file(name), x.loc,
                             'as %s' % (show(name) if name else 'its path'))
        metas = meta_dumps(B)
        R.ob('metadata', W + ': written', len(metas) >= 1, where, 'no metadata is written')
        for i, d in metas:
            v = dict((k[2], x) for k, x in d[1] if k[0] == 'c').get('files')
            R.ob('metadata', W + ': files', v is not None and B.new_files(v), B.evs[i].loc,
                 'files: %s' % (show(v)[:300] if v else None))
        put = [i for i, e in enumerate(B.evs) if e.kind in ('call', 'mut') and e.name in ('.addfile', 'addfile') and
               e.args[0] == t]
        R.ob('metadata', W + ': archived', len(put) == 1 and metas and metas[-1][0] <= put[0] < (B.close or 0), where,
             'the metadata is not added to the archive')
        for i in put:
            x = B.evs[i].args[1]
            R.ob('metadata', W + ': name', cname(x) == 'tarfile.TarInfo' and len(x[2]) == 1 and
                 x[2][0] == const('.ipkg.meta'), B.evs[i].loc, 'added as ' + show(x))
    listing(R)


def adds(x, t):
    return (x.kind == 'mut' and x.name == 'add' or x.kind == 'call' and x.name == '.add') and x.args[0] == t


def listing(R):
    A = analysis(raises=False)
    for w in sorted(walkers(A)):
        where = loc_of(A, w)
        base = sym('base')
        outs = A.run(A.fresh(), w, [base])
        R.saw(A, outs)
        best = set()
        for o in outs:
            if not o.ok:
                R.ob('listing', w + ': no error', False, where, 'raises %s' % o.exc())
                continue
            v = o.ret()
            if v[0] != 'L':
                R.ob('listing', w, False, where, 'gives %s' % show(v)[:200])
                continue
            kinds = set()
            for g in v[2]:
                k = walked(g, base)
                R.ob('listing', w + ': nothing else', k is not None, where, 'lists %s' % show(('L', 'list', (g,)))[:400])
                kinds.add(k)
            if v[2]:
                R.ob('listing', w + ': everything', kinds >= {'files', 'links'}, where,
                     'lists only %s if %s' % (sorted(map(str, kinds)), o.describe()))
            best |= kinds
        R.ob('listing', w + ' lists', {'files', 'links'} <= best, where)


def walked(g, base):
    """'files' or 'links' if the segment is all files, or all links to
    directories, below the base"""
    if g[0] != 'all' or g[1][0] != 'nest':
        return None
    coll, inner, val, conds = [strip(x) if isinstance(x, tuple) else x for x in g[1][1:]]
    if cname(coll) != 'os.walk' or coll[2] != (base,):
        return None
    if any(k not in ('topdown', 'onerror', 'followlinks') or k == 'followlinks' and v != FALSE for k, v in coll[3]):
        return None
    b = ('bv', coll)
    path = strip(call('os.path.join', (('item', b, const(0)), ('elem', inner))))
    if val != strip(call('os.path.relpath', (path, base))):
        return None
    cs = {(strip(a), p) for a, p in conds}
    if inner == ('item', b, const(2)) and not cs:
        return 'files'
    if inner == ('item', b, const(1)) and cs == {(strip(truth(call('os.path.islink', (path,)))), True)}:
        return 'links'
    return None


def file_name(R, rule):
    """the file of a package is named after its metadata"""
    for B in each_build(R):
        where = loc_of(B.A, FORMULA + '.build')
        metas = meta_dumps(B)
        if len(B.archives) != 1 or not metas:
            R.ob(rule, 'Formula.build', False, where, 'no archive is written')
            continue
        i, e = B.archives[0]
        d = dict((k[2], strip(x)) for k, x in metas[-1][1][1] if k[0] == 'c')
        p = strip(e.args[0])
        ok = cname(p) == 'os.path.join' and len(p[2]) == 2 and p[2][0] == PDIR and all(k in d for k in FIELDS)
        # the name made of plain values
        ok = ok and fold(p[2][1], dict(zip([d[k] for k in FIELDS], ('foo', '1.0', '2', 'p-q-r')))) == \
            'foo-1.0-2-p-q-r.ipkg'
        R.ob(rule, 'Formula.build', ok, e.loc, 'the package is written to %s' % show(p)[:300])
        R.ob(rule, 'Formula.build: returned', same(B.o.ret(), e.args[0]), where, 'returns %s' % show(B.o.ret())[:200])


def c15(R):
    R.rule('files-removed', 'after the archive was closed, every new file, and nothing else, is removed from the prefix')
    R.rule('dependencies-removed', 'every package installed now and not before the dependencies were installed is '
           'uninstalled, and no other')
    R.rule('build-directory', 'the temporary build directory is removed exactly if the caller wants it')
    for B in each_build(R):
        A, where, W = B.A, loc_of(B.A, FORMULA + '.build'), 'Formula.build'
        if B.A0 is None or B.A1 is None:
            R.ob('files-removed', W, False, where, 'the files are not listed before and after')
            continue
        done = 0
        for i, e in enumerate(B.evs):
            if e.kind == 'loop' and e.args[0] == B.A1:
                hit = contains(e, lambda x: is_call(x, *REMOVERS))
                if not hit:
                    continue
                done += e.name == 'done'
                R.ob('files-removed', W + ': after packaging', B.close is not None and i > B.close, e.loc,
                     'files are removed before the package is written')
                for r in e.kw:
                    for p in rec_paths(r):
                        xs = [x for x in flatten(r[2]) if is_call(x, *REMOVERS)]
                        new = B.new(p)
                        good = [x for x in xs if x.name in REMOVES_FILE and B.full(x.args[0])]
                        R.ob('files-removed', W + ': exactly the new files',
                             new is True and len(good) == 1 and len(xs) == 1 or new is False and not xs, e.loc,
                             '%d removed if %s' % (len(xs), [show(a) for a, q in p]))
            else:
                for x in flatten([e]):
                    if is_call(x, *REMOVERS) and not any(same(x.args[0], b) for b in B.build_dirs):
                        R.ob('files-removed', W + ': nothing else', False, x.loc, 'removes %s' % show(x.args[0])[:200])
        R.ob('files-removed', W + ': all', done == 1, where, 'no complete loop removing the new files if ' +
             B.o.describe()[:200])
        rm = [x for x in o_flat(B) if is_call(x, 'shutil.rmtree') and any(same(x.args[0], b) for b in B.build_dirs)]
        want = tri(B.st.path, truth(REMOVE))
        R.ob('build-directory', W, want is not None and len(rm) == (1 if want else 0) and len(B.build_dirs) == 1, where,
             'removed %d times if %s' % (len(rm), B.o.describe()[:200]))
        dependencies(R, B, W, where)


def o_flat(B):
    return B.o.flat()


def dependencies(R, B, W, where):
    evs = B.evs
    deps = [i for i, e in enumerate(evs) if contains(e, lambda x: is_call(x, ENV + '.install'))]
    un = [(i, e) for i, e in enumerate(evs) if contains(e, lambda x: is_call(x, ENV + '.uninstall'))]
    snaps = [(i, e.res) for i, e in enumerate(evs) if is_call(e, ENV + '.packages')]
    first = [v for i, v in snaps if deps and i < deps[0]]
    last = [v for i, v in snaps if deps and i > deps[-1]]

    def name(c):
        return ('attr', ('elem', c), 'name')

    def names(v, colls):
        """v holds the names of all packages of one of these snapshots"""
        v = B.st.freeze(v)
        return v[0] == 'L' and len(v[2]) == 1 and v[2][0][0] == 'many' and not v[2][0][2] and \
            v[2][0][3] in colls and v[2][0][1] == name(v[2][0][3])

    def added(path, c):
        for a, p in path:
            if a[0] == 'cmp' and a[1] == 'in' and a[2] == name(c) and names(a[3], first):
                return not p
        return None

    def the_added(v):
        v = B.st.freeze(v)
        return v[0] == 'L' and len(v[2]) == 1 and v[2][0][0] == 'many' and v[2][0][3] in last and \
            v[2][0][1] == name(v[2][0][3]) and len(v[2][0][2]) == 1 and added(v[2][0][2], v[2][0][3]) is True

    done = 0
    for i, e in un:
        if e.kind != 'loop' or e.args[0] not in last:
            R.ob('dependencies-removed', W + ': only added ones', False, e.loc, 'uninstalls something else: %s' % repr(e)[:200])
            continue
        done += e.name == 'done'
        R.ob('dependencies-removed', W + ': after packaging', B.close is not None and i > B.close, e.loc)
        for r in e.kw:
            for p in rec_paths(r):
                xs = [x for x in flatten(r[2]) if is_call(x, ENV + '.uninstall')]
                a = added(p, e.args[0])
                R.ob('dependencies-removed', W + ': exactly the added ones',
                     a is True and len(xs) == 1 and same(xs[0].args[1], name(e.args[0])) and xs[0].args[0] == B.env or
                     a is False and not xs, e.loc, '%d uninstalled if %s' % (len(xs), [show(x)[:200] for x, q in p]))
    none = any(a[0] == 'truth' and not p and the_added(a[1]) for a, p in B.st.path)
    R.ob('dependencies-removed', W + ': all', not deps or done == 1 or none and not un, where,
         'packages installed for the build stay installed if %s' % B.o.describe()[:300])


STEPS = ('ipkg.utils.unarchive', FORMULA + '.run_command', FORMULA + '.install', ENV + '.install', '.open', '.read',
         'ipkg.requirements.Requirement.__init__', ENV + '.execute', 'ipkg.utils.mkdir')


def c16(R):
    R.rule('failure-ends-build', 'if a step of a build fails the build raises, without opening a package file')
    R.rule('patches', 'every patch is applied, in order, after unpacking and before the install step')
    R.rule('default-steps', 'the default install step runs configure, make and make install in this order')
    R.rule('command-runs', 'running a command of a formula executes exactly that command in the environment, in the '
           'sources directory if no other is given, with its data, and its failure is not caught')
    R.rule('not-added', 'a failed build adds nothing to the repository')
    W = 'Formula.build'
    nfail = 0
    for env in (True, False):
        A, Wk, f, e, outs = build(R, True, env)
        where = loc_of(A, FORMULA + '.build')
        for o in outs:
            evs = o.flat()
            bad = [i for i, x in enumerate(evs) if x.kind == 'failed' and x.name in STEPS]
            if not bad:
                continue
            nfail += 1
            R.ob('failure-ends-build', W + ': raises', not o.ok, evs[bad[0]].loc,
                 'the build goes on although %s failed' % evs[bad[0]].name)
            late = [x for x in evs[bad[0]:] if is_call(x, 'tarfile.open') and mode_of(x).startswith('w')]
            R.ob('failure-ends-build', W + ': no package', not late, evs[bad[0]].loc,
                 'a package is created although %s failed' % evs[bad[0]].name)
            early = [x for x in evs[:bad[0]] if is_call(x, 'tarfile.open') and mode_of(x).startswith('w')]
            R.ob('failure-ends-build', W + ': package last', not early, evs[bad[0]].loc,
                 'the package is created before %s' % evs[bad[0]].name)
    R.ob('failure-ends-build', W + ' has steps', nfail > 0, loc_of(A, FORMULA + '.build'))
    P, BV = sym('patches'), sym('build_envvars')
    R.rule('dependencies', 'each dependency no installed package satisfies is installed before any command runs')
    R.rule('variables', 'the build variables of the formula are set before any of its commands runs')
    for B in each_build(R):
        where = loc_of(B.A, FORMULA + '.build')
        un = [i for i, x in enumerate(B.evs) if is_call(x, 'ipkg.utils.unarchive')]
        R.ob('patches', W + ': unpacked first', len(un) == 1 and B.installs and un[0] < B.installs[0], where,
             'the sources are unpacked %d times' % len(un))
        for i in un:
            a = B.evs[i].args
            R.ob('patches', W + ': the sources', cname(a[0]) in ('.open',) and same(a[0][2][0], sym('sources')),
                 B.evs[i].loc, 'unpacks %s' % show(a[0])[:200])
        wanted_dependencies(R, B, where)
        adds = [i for i, x in enumerate(B.evs) if x.kind in ('call', 'mut') and x.name.endswith('add') and len(x.args) > 1 and
                same(x.args[1], BV)]
        R.ob('variables', W, bool(adds) and not [
            x for x in B.evs[:adds[0]] if contains(x, lambda y: is_call(
                y, FORMULA + '.run_command', INSTALL_STEP, 'ipkg.utils.unarchive', ENV + '.execute'))] or
            not adds and (tri(B.st.path, truth(BV)) is False or tri(B.st.path, ('isnone', BV)) is True), where,
            'commands run without the build variables, if ' + B.o.describe()[:200])
        loops = [(i, x) for i, x in enumerate(B.evs) if x.kind == 'loop' and same(x.args[0], P)]
        R.ob('patches', W + ': in order', not [x for x in B.evs if x.kind == 'log' and x.name == 'unordered' and
                                               mentions(x.args[0], P)], where, 'the patches are taken from a set')
        if tri(B.st.path, truth(P)) is not False:
            R.ob('patches', W + ': all', len([1 for i, x in loops if x.name == 'done']) >= 1 and B.installs and un and
                 all(un[0] < i < B.installs[0] for i, x in loops), where,
                 'the patches are not all applied before the install step, if ' + B.o.describe()[:200])
        el = ('elem', P)
        for i, x in loops:
            for r in x.kw:
                for p in rec_paths(r):
                    runs = [y for y in flatten(r[2]) if is_call(y, FORMULA + '.run_command')]
                    ok = r[0] == 'next' and len(runs) == 1 and not p and patch_command(runs[0], el)
                    R.ob('patches', W + ': each', ok, x.loc, 'a patch is not applied: %s' % (repr(runs)[:300],))
    default_steps(R)
    command(R)
    from .indexing import repository, ADD, REPO
    A, s, repo, meta = repository(R, raises=True)
    where = loc_of(A, REPO + '.build_formula')
    outs = A.method(s, repo, 'build_formula', [sym('formula')])
    R.saw(A, outs)
    seen = 0
    for o in outs:
        evs = o.flat()
        b = [i for i, x in enumerate(evs) if x.kind == 'failed' and x.name == '.build']
        add = [x for x in evs if is_call(x, ADD)]
        if b:
            seen += 1
            R.ob('not-added', 'LocalPackageRepository.build_formula', not o.ok and not add and not any(
                x.kind in ('setitem', 'mut') and meta_of(x, meta) for x in evs), where,
                'a failed build is recorded or hidden')
        elif o.ok:
            R.ob('not-added', 'LocalPackageRepository.build_formula: adds the package', len(add) == 1 and
                 cname(add[0].args[1]) == '.build' and same(add[0].args[1][2][0], sym('formula')), where,
                 'adds %s' % [show(x.args[1])[:100] for x in add])
    R.ob('not-added', 'LocalPackageRepository.build_formula builds', seen > 0, where)


COMMANDS = (FORMULA + '.run_command', INSTALL_STEP, 'ipkg.utils.unarchive', ENV + '.execute')


def asks(p):
    return any((cname(t) or '').endswith('.satisfied_by') for a, q in p for t in subterms(strip(a)))


def wanted_dependencies(R, B, where):
    """a dependency is only left out if an installed package satisfies it"""
    DEP = sym('dependencies')
    W = 'Formula.build'
    inst = lambda r: [x for x in flatten(r[2]) if is_call(x, ENV + '.install') and len(x.args) > 1 and
                      strip(x.args[1]) == ('elem', DEP)]
    loops = [(i, x) for i, x in enumerate(B.evs) if x.kind == 'loop' and same(x.args[0], DEP) and
             any(inst(r) for r in x.kw)]
    if not loops:
        R.ob('dependencies', W, tri(B.st.path, truth(DEP)) is False, where, 'the dependencies are not installed')
        return
    first = min([i for i, x in enumerate(B.evs) if contains(x, lambda y: is_call(y, *COMMANDS))] or [len(B.evs)])
    for i, x in loops:
        R.ob('dependencies', W + ': all', x.name == 'done' and i < first, x.loc,
             'not every dependency is installed before the first command')
        for r in x.kw:
            got = inst(r)
            for y in got:
                R.ob('dependencies', W + ': repository', len(y.args) > 2 and same(y.args[2], REPO_), y.loc,
                     'installs from %s' % [show(a)[:60] for a in y.args[2:3]])
            # a flag set by a loop over the packages, or a condition
            inner = any(y.kind == 'loop' and any(asks(p) for z in y.kw for p in rec_paths(z)) for y in flatten(r[2]))
            for p in rec_paths(r):
                R.ob('dependencies', W + ': left out', bool(got) or inner or asks(p), x.loc,
                    'a dependency is left out if %s' % ', '.join(show(a)[:80] for a, q in p)[:300])


def meta_of(x, meta):
    return x.args and root(x.args[0]) in (meta, sym('meta'))


def patch_command(e, el):
    """run_command(['patch', ...], data=<content of the patch>)"""
    cmd = e.args[1]
    data = e.args[2] if len(e.args) > 2 else dict(e.kw).get('data')
    words = [g[1] for g in cmd[2] if g[0] == 'one'] if cmd[0] == 'L' else list(cmd[1:]) if cmd[0] == 'tup' else [cmd]
    return bool(words) and (words[0] == const('patch') or is_str(words[0]) and words[0][2].startswith('patch ')) and \
        data is not None and cname(data) == '.read' and len(data[2]) == 1 and cname(data[2][0]) == '.open' and \
        same(data[2][0][2][0], el)


def default_steps(R):
    A = analysis(raises=True)
    A.opaque |= (OPAQUE | walkers(A)) - {INSTALL_STEP}
    s, f, e = formula(A)
    where = loc_of(A, INSTALL_STEP)
    outs = A.method(s, f, 'install')
    R.saw(A, outs)
    n = 0
    for o in outs:
        if [x for x in o.flat() if x.kind == 'failed']:
            R.ob('default-steps', 'Formula.install: failure', not o.ok, where, 'a failing command is ignored')
            continue
        if not o.ok:
            R.ob('default-steps', 'Formula.install: no error', False, where, 'raises %s' % o.exc())
            continue
        n += 1
        runs = [x.args[1] for x in o.flat() if is_call(x, FORMULA + '.run_command')]
        ok = len(runs) == 3 and configure(A, o, runs[0], e) and words(runs[1]) == ['make'] and \
            words(runs[2]) == ['make', 'install']
        R.ob('default-steps', 'Formula.install: commands', ok, where, 'runs %s' % [show(x)[:200] for x in runs])
    R.ob('default-steps', 'Formula.install returns', n > 0, where)


def words(v):
    if v[0] == 'L':
        if any(g[0] != 'one' for g in v[2]):
            return None
        v = ('tup',) + tuple(g[1] for g in v[2])
    if v[0] == 'tup':
        return [x[2] if is_str(x) else x for x in v[1:]]
    if is_str(v):
        return v[2].split()
    return None


def configure(A, o, v, env):
    """['./configure'] + [arg % directories for arg in configure_args]"""
    if v[0] != 'L' or not v[2] or v[2][0] != ('one', const('./configure')):
        return False
    ca = sym('configure_args')
    dirs = values_of(A, o.st, env, 'directories')
    if len(v[2]) == 1:      # configure_args is empty
        return any(e.kind == 'loop' and same(e.args[0], ca) for e in o.flat())
    if len(v[2]) != 2 or v[2][1][0] != 'many' or v[2][1][2] or not same(v[2][1][3], ca):
        return False
    t = v[2][1][1]
    return cname(t) == '%' and same(t[2][0], ('elem', ca)) or mentions(t, ('elem', v[2][1][3]))


def command(R):
    A = analysis(raises=True)
    A.opaque |= (OPAQUE | walkers(A)) - {FORMULA + '.run_command'}
    s, f, e = formula(A)
    where = loc_of(A, FORMULA + '.run_command')
    outs = A.method(s, f, 'run_command', [sym('command'), sym('data'), sym('cwd')])
    R.saw(A, outs)
    n = 0
    cwd = [strip(v) for v in values_of(A, s, f, '_Formula__cwd')]
    for o in outs:
        x = [c for c in o.flat() if is_call(c, ENV + '.execute')]
        failed = [c for c in o.flat() if c.kind == 'failed' and c.name == ENV + '.execute']
        if failed:
            R.ob('command-runs', 'Formula.run_command: failure', not o.ok, where, 'a failing command is ignored')
        if not o.ok:
            continue
        n += 1
        R.ob('command-runs', 'Formula.run_command: executes', len(x) == 1, where, '%d executions if %s' % (
            len(x), o.describe()[:200]))
        for c in x:
            a = bound(A, ENV + '.execute', c)
            R.ob('command-runs', 'Formula.run_command: command', a.get('command') == sym('command'), c.loc,
                 'executes %s' % show(a.get('command', NONE)))
            R.ob('command-runs', 'Formula.run_command: data', a.get('data') == sym('data'), c.loc,
                 'data is %s' % show(a.get('data', NONE)))
            given = tri(o.st.path, truth(sym('cwd')))
            if given is None:
                given = tri(o.st.path, ('not', ('isnone', sym('cwd'))))
            d = a.get('cwd', NONE)
            own_ = strip(d) != sym('cwd') and (not cwd or strip(d) in cwd or d[0] in ('sym', 'attr', 'call'))
            R.ob('command-runs', 'Formula.run_command: cwd', d == sym('cwd') if given else own_ if given is False
                 else False, c.loc, 'cwd is %s if %s' % (show(d), o.describe()[:100]))
    R.ob('command-runs', 'Formula.run_command returns', n > 0, where)


def bound(A, qual, e):
    """arguments of a call of a function of the package, by parameter"""
    names = [a.id if a.t == 'Name' else '?' for a in A.func_node(qual).args.args]
    d = dict(zip(names, e.args))
    d.update(dict(e.kw))
    return d


CHECKS = {'C14': c14, 'C15': c15, 'C16': c16}
