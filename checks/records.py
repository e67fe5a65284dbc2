"""C06, C18: metadata files and the keys of package metadata"""
from .base import *

DF = 'ipkg.utils.DictFile'
P = sym('path')
CONTENT = sym('content')
DUMPS = ('json.dump', 'simplejson.dump')
MOVES = ('os.rename', 'shutil.move', 'os.renames')
REMOVES = ('os.unlink', 'os.remove')


def dictfile(raises=True, empty=False):
    A = analysis(raises=raises)
    A.opaque |= {'ipkg.files.vopen', DF + '.reload'}
    o = instance(A, A.fresh(), DF, [P])[0]
    A.opaque.discard(DF + '.reload')
    s = o.st
    c = content_of(s, o.val)
    if c is None:
        raise Missing('DictFile is not a dictionary')
    if empty:
        s.put(c, D((), (), frozenset(), s.obj(c).default))
    else:
        havoc_dict(s, o.val, 'content')
    reset(A, s)
    return A, s, o.val, c


def exists(path):
    """formula: there is a file"""
    return ('?', lambda a, p: p if a[0] == 'truth' and cname(a[1]) in (
        'os.path.isfile', 'os.path.exists', 'os.path.lexists') and a[1][2] == (strip(path),) else None)


def clearing(R, rule):
    """DictFile.clear() always leaves an empty dictionary and no file"""
    A, s, f, c = dictfile()
    where = loc_of(A, DF + '.clear')
    outs = A.method(s, f, 'clear')
    R.saw(A, outs)
    n = 0
    for o in outs:
        if not o.ok:
            continue
        n += 1
        d = o.st.obj(c)
        R.ob(rule, 'DictFile.clear: empty', not d.items and not d.base, where,
             'still holds %s if %s' % (show(o.st.freeze(c))[:100], o.describe()[:200]))
        gone = [e for e in o.events if is_call(e, *REMOVES) and e.args[0] == P]
        missing = tri(o.st.path, exists(P)) is False or any(
            e.kind == 'failed' and e.name in REMOVES for e in o.events)
        R.ob(rule, 'DictFile.clear: file removed', bool(gone) or missing, where,
             'the file stays if ' + o.describe()[:200])
    R.ob(rule, 'DictFile.clear returns', n > 0, where)


def opened_for_writing(e):
    """the path a call opens for writing, or None"""
    if e.kind == 'call' and e.name in ('open', 'io.open', 'codecs.open', 'file'):
        mode = e.args[1] if len(e.args) > 1 else dict(e.kw).get('mode', const('r'))
        if mode[0] != 'c' or any(ch in str(mode[2]) for ch in 'wa+'):
            return e.args[0]
    return None


def whole(A, st, v, f, c):
    """v is the whole dictionary, or a complete copy of it"""
    if v in (f, c):
        return True
    v = st.freeze(v)
    return v[0] == 'D' and not v[1] and tuple(v[2]) == (('all', CONTENT),) and not v[3]


def c06(R):
    R.rule('atomic-save', 'the content is written, whole, to another file in the same directory; it is renamed over '
           'the metadata file only after it was closed; nothing else touches the metadata file')
    R.rule('empty-load', 'a missing or empty file leaves a new dictionary empty')
    R.rule('load', 'a file that is not empty gives exactly its JSON content, or the invalid-content error')
    R.rule('clear', 'clearing always empties the dictionary and removes the file')
    A, s, f, c = dictfile()
    where = loc_of(A, DF + '.save')
    outs = A.method(s, f, 'save')
    R.saw(A, outs)
    n = 0
    for o in outs:
        evs = o.flat()
        touch = [i for i, e in enumerate(evs) if opened_for_writing(e) == P or
                 is_call(e, *REMOVES) and e.args[0] == P or
                 is_call(e, *MOVES) and e.args[0] == P or is_call(e, 'os.truncate') and e.args[0] == P]
        R.ob('atomic-save', 'DictFile.save: in place', not touch, evs[touch[0]].loc if touch else where,
             'the metadata file itself is opened, removed or moved: %r' % (evs[touch[0]] if touch else '',))
        moves = [i for i, e in enumerate(evs) if is_call(e, *MOVES) and e.args[1] == P]
        for i in moves:
            before = evs[:i]
            tmp = evs[i].args[0]
            w, target = written(A, o.st, before, f, c)
            closed = target is not None and closed_before(before, target)
            R.ob('atomic-save', 'DictFile.save: complete', w and not any(
                e.kind == 'failed' and e.name not in ('.close',) for e in before), evs[i].loc,
                'the file is replaced although the content was not written completely: %s' % o.describe()[:200])
            R.ob('atomic-save', 'DictFile.save: closed', closed, evs[i].loc,
                 'the file is renamed before it is closed (buffered content is missing after a crash)')
            R.ob('atomic-save', 'DictFile.save: same file', target is not None and target_path(target) == strip(tmp),
                 evs[i].loc, 'renames %s, wrote to %s' % (show(tmp), show(target) if target else '?'))
            R.ob('atomic-save', 'DictFile.save: same directory', beside(tmp), evs[i].loc, show(tmp))
        if o.ok:
            n += 1
            R.ob('atomic-save', 'DictFile.save: saved', len(moves) == 1, where, 'returns without having saved')
    R.ob('atomic-save', 'DictFile.save returns', n > 0, where)

    A, s, f, c = dictfile(empty=True)
    where = loc_of(A, DF + '.reload')
    outs = A.method(s, f, 'reload')
    R.saw(A, outs)
    loaded = 0
    for o in outs:
        bad = [e for e in o.flat() if e.kind == 'failed' and e.name in ('json.loads', 'json.load')]
        readfail = [e for e in o.flat() if e.kind == 'failed' and e not in bad]
        d = o.st.obj(c)
        content = o.st.freeze(c)
        if bad:
            R.ob('load', 'DictFile.reload: invalid JSON', not o.ok and
                 o.exc_is('ipkg.utils.InvalidDictFileContent'), where,
                 'invalid JSON gives %s' % (o.exc() or 'no error'))
            continue
        if not o.ok:
            # content which is JSON but no dictionary
            other = o.exc_is('ipkg.utils.InvalidDictFileContent') and any(
                a[0] == 'isinst' and not b and a[1][0] == 'call' and
                a[1][1] in ('json.loads', 'json.load') for a, b in o.st.path)
            R.ob('load', 'DictFile.reload: only read errors', other or bool(readfail) or raised_by_read(o), where,
                 'raises %s if %s' % (o.exc(), o.describe()[:200]))
            continue
        none = tri(o.st.path, exists(P)) is False
        raws = [e.res for e in o.flat() if e.kind == 'call' and e.name == '.read']
        empty = any(tri(o.st.path, truth(r)) is False or tri(o.st.path, eq(r, const(''))) is True or
                    tri(o.st.path, eq(call('len', (r,)), const(0))) is True for r in raws)
        if not d.items and not d.base:
            R.ob('load', 'DictFile.reload: not dropped', (none or empty) and not readfail, where,
                 'the dictionary stays empty if ' + o.describe()[:200])
            R.ob('empty-load', 'DictFile.reload', True, where)
        else:
            src = content[2][0][1] if content[2] and not content[1] and len(content[2]) == 1 and \
                content[2][0][0] == 'all' else None
            ok = src is not None and json_of_file(src) and not none and not empty
            loaded += 1
            R.ob('load', 'DictFile.reload: content', ok, where, 'holds %s if %s' % (
                show(content)[:200], o.describe()[:200]))
    R.ob('load', 'DictFile.reload loads', loaded > 0, where)
    # a new object loads its file
    A = analysis(raises=False)
    A.opaque |= {DF + '.reload'}
    where = loc_of(A, DF + '.__init__')
    made = A.new(A.fresh(), DF, [P])
    R.saw(A, made)
    for o in made:
        r = [e for e in o.flat() if is_call(e, DF + '.reload')]
        R.ob('load', 'DictFile.__init__', o.ok and len(r) >= 1, where, 'a new object does not load its file')
    clearing(R, 'clear')


def raised_by_read(o):
    return o.exc() in ('IOError', 'OSError', '?')


def json_of_file(t):
    """json.loads(vopen(path).read()), json.load(vopen(path)) or with open()"""
    t = strip(t)
    if cname(t) == 'json.loads':
        r = t[2][0]
        if cname(r) != '.read' or len(r[2]) > 1:
            return False
        f = r[2][0]
    elif cname(t) == 'json.load':
        f = t[2][0]
    else:
        return False
    return cname(f) in ('ipkg.files.vopen', 'open', 'file', 'io.open') and f[2][0] == P


def written(A, st, evs, f, c):
    """(the whole content was written, the file it was written to)"""
    for e in evs:
        if is_call(e, *DUMPS):
            fp = e.args[1] if len(e.args) > 1 else dict(e.kw).get('fp')
            return whole(A, st, e.args[0], f, c) and fp is not None, fp
        if method_named(e, 'write') and len(e.args) == 2:
            t = e.args[1]
            if cname(t) == 'json.dumps':
                return whole(A, st, t[2][0], f, c), e.args[0]
    return False, None


def closed_before(evs, target):
    return any(e.kind == 'call' and (e.name == '.close' or e.name == '.__exit__') and same(e.args[0], target)
               for e in evs)


def target_path(t):
    """the path of an open file"""
    t = strip(t)
    if cname(t) in ('open', 'io.open', 'codecs.open', 'file') and t[2]:
        return t[2][0]
    if cname(t) == 'os.fdopen' and t[2]:
        x = t[2][0]
        if x[0] == 'item' and cname(x[1]) == 'tempfile.mkstemp':
            return ('item', x[1], const(1))
    if cname(t) == 'tempfile.NamedTemporaryFile':
        return ('attr', t, 'name')
    return None


def beside(tmp):
    """in the directory of the metadata file"""
    tmp = strip(tmp)
    if tmp == P:
        return False
    if tmp[0] == 'fmt' and tmp[1] and not isinstance(tmp[1][0], str):
        if tmp[1][0][1] == P:
            return all(isinstance(x, str) and '/' not in x or not isinstance(x, str) and cname(x[1]) in ('os.getpid',)
                       for x in tmp[1][1:])
    d = strip(call('os.path.dirname', (P,)))
    if cname(tmp) == 'os.path.join' and tmp[2][0] == d:
        return True
    m = [x for x in subterms(tmp) if cname(x) in ('tempfile.mkstemp', 'tempfile.NamedTemporaryFile')]
    return any(dict(x[3]).get('dir') == d for x in m)


# ------------------------------------------------- C18: keys of package metadata

PKG, PKGFILE, ENVQ, REPOQ = ('ipkg.packages.MetaPackage', 'ipkg.packages.PackageFile',
                             'ipkg.environments.Environment', 'ipkg.repositories.LocalPackageRepository')
ABSENT = ('KeyError', 'AttributeError', 'ipkg.packages.UnknownMeta')


COPIES = ('str', 'unicode', 'list', 'tuple', 'dict', 'sorted')


def written_values(R, B, i, d):
    def plain(v):
        v = B.st.freeze(v)
        while True:
            v = strip(v)
            if cname(v) in COPIES and len(v[2]) == 1:
                v = v[2][0]
            elif v[0] == 'L' and len(v[2]) == 1 and v[2][0][0] == 'all':
                v = v[2][0][1]
            elif v[0] == 'D' and not v[1] and len(v[2]) == 1 and v[2][0][0] == 'all':
                v = v[2][0][1]
            elif v[0] == 'L' and len(v[2]) == 1 and v[2][0][0] == 'many' and v[2][0][1] == ('elem', v[2][0][3]) and \
                    not v[2][0][2]:
                v = v[2][0][3]
            elif v[0] == 'fmt' and len(v[1]) == 1 and not isinstance(v[1][0], str):
                v = v[1][0][1]
            else:
                return v
    for k in ('name', 'version', 'revision', 'dependencies', 'envvars', 'homepage', 'platform'):
        if k not in d:
            continue
        v = plain(d[k])
        want = sym(k)
        ok = v == want or v == NONE and tri(B.st.path, truth(want)) is False
        if k in ('dependencies', 'envvars') and v[0] in ('L', 'D', 'tup'):
            ok |= tri(B.st.path, truth(want)) is False and not any(v[1:] if v[0] != 'L' else v[2:])
        if k == 'platform' and not ok:
            ok = tri(B.st.path, truth(want)) is False or mentions(v, want) or \
                tri(B.st.path, ('isnone', want)) is True
        R.ob('values', 'Formula.build: ' + k, ok, B.evs[i].loc, 'the %s written is %s, if %s' % (
            k, show(v)[:100], B.o.describe()[:150]))


def written_keys(R):
    """(keys every build writes, where)"""
    from . import building
    keys, loc = None, None
    for env in (True, False):
        A, W, f, e, outs = building.build(R, False, env)
        if not any(o.ok for o in outs):
            x = sorted(set(str(o.exc()) for o in outs))
            R.ob('keys', 'written by a build', False, loc_of(A, building.FORMULA + '.build'),
                 'every build fails with %s' % ', '.join(x))
    for B in building.each_build(R):
        for i, d in building.meta_dumps(B):
            here = set(k[2] for k, v in d[1] if k[0] == 'c')
            if d[2] or len(here) != len(d[1]):
                raise Missing('the metadata of a package has keys that are not known')
            keys = here if keys is None else keys & here
            loc = B.evs[i].loc
    if keys is None:
        raise Missing('the metadata written by a build')
    return sorted(keys), loc


class Keys(object):
    """readers of a package whose metadata holds exactly what a build writes"""

    def __init__(self, R, keys):
        self.R, self.keys = R, keys
        self.A = A = analysis(raises=False)
        A.opaque |= ENV_OPAQUE | {'ipkg.utils.check_tar_members', 'ipkg.utils.check_relative_path'}

    def record(self, st, who, more=()):
        items = [(const(k), sym('%s of %s' % (k, who))) for k in self.keys]
        items += [(const(k), sym('%s of %s' % (k, who))) for k in more]
        return st.new(D(tuple(items)))

    def start(self):
        st = self.A.fresh()
        return st

    def package(self, st, who='package', cls=PKGFILE, more=()):
        m = self.record(st, who, more)
        o = instance(self.A, st, cls, [sym('path'), m] if cls == PKGFILE else [m])[0]
        return o.st, o.val, m

    def environment(self):
        """an environment with one installed package"""
        st, env, meta = environment(self.A, self.A.fresh())
        r = self.record(st, 'installed')
        st.put(content_of(st, meta), D(((const('packages'), st.new(D(((sym('installed'), r),)))),
                                        (const('config'), st.new(D(()))))))
        return st, env

    def repository(self):
        o = instance(self.A, self.A.fresh(), REPOQ, [sym('base')])[0]
        st = o.st
        meta = st.obj(o.val).attrs.get('meta')
        if meta is None or meta[0] != 'ref':
            raise Missing('%s.meta' % REPOQ)
        r = self.record(st, 'indexed', ('checksum',))
        st.put(content_of(st, meta), D(((sym('name'), st.new(L('list', (('one', r),)))),)))
        return st, o.val

    def check(self, what, outs, loc):
        R = self.R
        R.saw(self.A, outs)
        R.ob('keys', what, bool(outs), loc, 'no result')
        for o in outs:
            x = o.exc() if not o.ok else None
            msg = ''
            if x in ABSENT:
                v = o.val
                msg = '%s %s' % (x, ', '.join(show(a) if isinstance(a, tuple) else str(a)
                                              for a in (v[2] if len(v) > 2 and isinstance(v[2], tuple) else ())))
            R.ob('keys', what, x not in ABSENT, loc, '%s if %s' % (msg, o.describe()[:200]))

    def method(self, what, st, obj, name, args=(), kw=(), cls=None):
        reset(self.A, st)
        self.check(what, self.A.method(st, obj, name, list(args), list(kw)), loc_of(self.A, cls) if cls else None)

    def run(self, what, st, q, args=(), kw=()):
        reset(self.A, st)
        self.check(what, self.A.run(st, q, list(args), list(kw)), loc_of(self.A, q))


def c18(R):
    R.rule('keys', 'no reader of the metadata of a package, given a package with exactly the keys a build writes, can '
           'find a key missing')
    keys, loc = written_keys(R)
    R.ob('keys', 'written by a build', len(keys) > 0, loc, 'no key is written')
    from . import building
    R.rule('values', 'what is written describes the formula that was built')
    for B in building.each_build(R):
        for i, d in building.meta_dumps(B):
            written_values(R, B, i, dict((k[2], v) for k, v in d[1] if k[0] == 'c'))
    R.notes.append('keys written: ' + ', '.join(keys))
    K = Keys(R, keys)
    A = K.A
    # installing
    for cls in (PKGFILE,):
        st, env = K.environment()
        st, p, m = K.package(st, cls=cls)
        K.method('installing a package', st, env, 'install', [p, sym('repository')], cls=ENVQ + '.install')
    A.opaque -= {ENVQ + '.uninstall', PKGFILE + '.extract'}
    st, env = K.environment()
    K.method('uninstalling a package', st, env, 'uninstall', [sym('installed')], cls=ENVQ + '.uninstall')
    st, env = K.environment()
    reset(A, st)
    K.check('the installed packages', printed(A, values(A, st, env, 'packages')), loc_of(A, ENVQ + '.uninstall'))
    st, p, m = K.package(K.start())
    K.method('extracting a package', st, p, 'extract', [sym('target')], cls=PKGFILE + '.extract')
    loading(K)
    # indexing and finding
    st, repo = K.repository()
    st, p, m = K.package(st)
    K.method('indexing a package', st, repo, 'add', [p], cls=REPOQ + '.add')
    for name, args in (('find', [sym('text')]), ('__getitem__', [sym('text')]), ('__iter__', [])):
        st, repo = K.repository()
        for t in ('basestring', 'str', 'unicode'):
            st.assume(('isinst', sym('text'), ('ext', t)), t != 'unicode')
        A.hooks['ipkg.requirements.Requirement'] = requirement_named
        K.method('a repository: ' + name, st, repo, name, args)
        del A.hooks['ipkg.requirements.Requirement']
    # comparing, naming, printing
    for cls, more in ((PKGFILE, ()), (PKGFILE, ('checksum',)), (PKG, ())):
        for op in ('__eq__', '__ne__', '__lt__', '__gt__', '__le__', '__ge__'):
            st, p, m = K.package(K.start(), cls=cls, more=more)
            st, q, m = K.package(st, 'other', cls=PKG)
            K.method('comparing packages', st, p, op, [q])
            st, p, m = K.package(K.start(), cls=cls, more=more)
            K.method('comparing a package with a text', st, p, op, [const('name==1:1')])
        for name in ('__str__', '__repr__', 'as_requirement'):
            st, p, m = K.package(K.start(), cls=cls, more=more)
            K.method('printing a package', st, p, name)
        st, p, m = K.package(K.start(), cls=cls, more=more)
        K.run('naming a package', st, 'ipkg.utils.make_package_spec', [p])
        K.run('naming a package', st.copy(), 'ipkg.utils.make_package_spec', [m])
        st, p, m = K.package(K.start(), cls=cls, more=more)
        K.run('naming a package file', st, 'ipkg.packages.make_filename', [],
              [(k, st.obj(m).items[i][1]) for i, k in enumerate(keys)])
        for x in (p, m):
            K.run('the version of a package', st.copy(), 'ipkg.versions.extract', [x])
            s = st.copy()
            r = requirement_named(A, s, [sym('text')], (), None, None)[0][2]
            K.method('a requirement on a package', s, r, 'satisfied_by', [x])
    # solving
    A.hooks['ipkg.requirements.Requirement'] = requirement_named
    for q in ('ipkg.dependencies.Node',):
        st, p, m = K.package(K.start(), cls=PKG)
        reset(A, st)
        K.check('solving dependencies', A.new(st, q, [p]), loc_of(A, q + '.__init__'))
    st, p, m = K.package(K.start(), cls=PKG)
    K.run('solving dependencies', st, 'ipkg.dependencies.select_most_recent_version',
          [st.new(L('list', (('one', p),)))])
    st, env = K.environment()
    K.run('listing packages', st, 'ipkg.cli.list_packages', [env])


def values(A, st, obj, name):
    cx = A.cx(st, [obj])
    return [(s, k, v) for s, k, v in A.quiet(lambda: A.getattr_(st, obj, name, cx, A.node()))]


def printed(A, got):
    """the texts of the packages of a list"""
    outs = []
    for s, k, v in got:
        o = s.obj(v)
        if k == 'x' or not isinstance(o, L):
            raise Missing('Environment.packages gives no list')
        for g in o.segs:
            if g[0] != 'all':
                outs += A.method(s.copy(), g[1], '__str__')
    return outs


def loading(K):
    """an environment with an installed package is opened"""
    A = K.A
    st = A.fresh()
    r = K.record(st, 'installed')
    packages = st.new(D(((sym('installed'), r),)))

    def reload(A, st, args, kw, cx, n):
        c = content_of(st, args[0])
        st.put(c, D(((const('packages'), packages), (const('config'), st.new(D(()))))))
        return [(st, 'v', NONE)]
    A.hooks[DF + '.reload'] = reload
    reset(A, st)
    K.check('opening an environment', A.new(st, ENVQ, [sym('prefix')]), loc_of(A, ENVQ + '.__init__'))
    del A.hooks[DF + '.reload']


def requirement_named(A, st, args, kw, cx, n):
    r = I('ipkg.requirements.Requirement', {'name': sym('name'), 'versions': st.new(L('list', (('all', sym('vs')),))),
                                            'platform': sym('platform')})
    return [(st, 'v', st.new(r))]


CHECKS = {'C06': c06, 'C18': c18}
