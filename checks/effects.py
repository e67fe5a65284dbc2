"""C45, C46: what functions change beyond what they are asked to change"""
from engine.lib import Outcome
from .base import *

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'add', 'discard',
            'sort', 'reverse', '__setitem__', '__delitem__', 'intersection_update', 'difference_update'}
PROCESS = {'os.' + n for n in ('chdir', 'fchdir', 'chroot', 'putenv', 'unsetenv', 'umask', 'setuid', 'setgid', 'seteuid',
                               'setegid', 'setpgid', 'setsid', 'nice', 'dup2', 'close', 'closerange', 'fork', 'kill')} | \
    {'signal.signal', 'signal.alarm', 'locale.setlocale', 'socket.setdefaulttimeout', 'sys.setrecursionlimit',
     'sys.setdefaultencoding', 'sys.settrace', 'random.seed', 'warnings.simplefilter', 'warnings.filterwarnings',
     'mimetypes.init', 'time.tzset', 'logging.disable', 'reload', 'setattr'}
# a module-level or class-level value of one of these is not changed in place
PLAIN = ('c', 'func', 'cls', 'mod')


class Summary(object):
    """one function run with unknown arguments; the others are not entered"""

    def __init__(self, fi):
        self.fi, self.outs, self.error = fi, [], None


class Effects(object):

    def __init__(self, R):
        self.R = R
        self.A = A = analysis(raises=False)
        self.quals = [q for q in sorted(set(f.qual for f in A.funcs.values())) if q.startswith('ipkg.')]
        self.fi = {f.qual: f for f in A.funcs.values()}
        self.done = {}
        self.class_attrs = shared_attrs(A)
        self.failed = []

    def top(self):
        """functions that can be run by name"""
        for q in self.quals:
            try:
                self.A.func_node(q)
            except Exception:
                continue
            if '<' not in q:
                yield q

    def run(self, q, bound=()):
        """outcomes of the function, parameters bound to the given values"""
        key = q, tuple(sorted(bound, key=repr))
        if key in self.done:
            return self.done[key]
        self.done[key] = []
        # what handlers do matters too
        A = analysis(raises=any(n.t.startswith('Try') for n in self.fi[q].node.walk()))
        A.opaque |= {x for x in self.quals if x != q and not x.startswith(q + '.')} | \
            {x for x in A.classes if x.startswith('ipkg.') and not A.is_exc_class(x)}
        A.budget = 60000
        A.step_fors = A.step_whiles = True
        fi = self.fi[q]
        st = A.fresh()
        args = []
        owner = q.rsplit('.', 1)[0]
        bound = dict(bound)
        n = len(fi.params) - len(fi.defaults)
        static = is_static(fi)
        for i, p in enumerate(fi.params):
            if i == 0 and owner in A.classes and not static:
                if is_classmethod(fi):
                    continue
                attrs = {'*': NONE}
                for a, v in self.class_attrs.get(owner, {}).items():
                    attrs[a] = v
                attrs.update({k[5:]: v for k, v in bound.items() if k.startswith('self.')})
                args.append(st.new(I(owner, attrs)))
            elif p in bound:
                args.append(bound[p])
            elif i < n:
                args.append(sym(p))
            else:
                break
        A.set_mark(st)
        self.self_ref = args[0] if args else None
        try:
            outs = self.call(A, st, q, owner, fi, args)
        except AnalysisError as e:
            self.failed.append((q, str(e)))
            outs = []
        self.done[key] = [(A, o) for o in outs]
        self.R.saw(A, outs)
        return self.done[key]

    def call(self, A, st, q, owner, fi, args):
        if owner in A.classes and is_classmethod(fi):
            out = []
            for s, k, f in A.getattr_(st, ('cls', owner), fi.name, A.cx(st, args), A.node()):
                out += [Outcome(s2, k2, v, A) for s2, k2, v in A.call(s, f, args, [], [], A.cx(s, args), A.node())]
            return out
        return A.run(st, q, args)


def is_classmethod(fi):
    return any(d.t == 'Name' and d.id == 'classmethod' for d in fi.node.decorator_list)


def is_static(fi):
    return any(d.t == 'Name' and d.id == 'staticmethod' for d in fi.node.decorator_list)


def shared_attrs(A):
    """class -> {attribute defined by the class and not by its instances: value}"""
    out = {}
    stores = set()
    for fi in A.funcs.values():
        for n in fi.node.walk():
            if n.t in ('Assign', 'AugAssign'):
                for t in (n.get('targets') or [n.get('target')]):
                    for x in (t.walk() if t is not None else ()):
                        if x.t == 'Attribute' and x.value.t == 'Name' and x.value.id == 'self':
                            if n.t == 'Assign':
                                stores.add(x.attr)
    for q, c in A.classes.items():
        if not q.startswith('ipkg.'):
            continue
        ns = {}
        for k in A.mro(q):
            if k in A.classes and k.startswith('ipkg.'):
                for a, v in A.classes[k].ns.items():
                    if not a.startswith('__') and a not in stores and v[0] not in (
                            'func', 'prop', 'cmeth', 'smeth', 'cls', 'mod'):
                        ns.setdefault(a, sym('class attribute ' + a))
        out[q] = ns
    return out


def shared(A, v):
    """what every use of the package shares, or None"""
    v = v if isinstance(v, tuple) else ()
    while v and v[0] in ('attr', 'item') and not (v[0] == 'attr' and v[1][:1] == ('ref',)):
        v = v[1]
    if not v:
        return None
    if v[0] == 'ext':
        return v[1]
    if v[0] == 'sym' and v[1].startswith('class attribute '):
        return v[1]
    if v[0] == 'ref' and v[1] in A.base and isinstance(A.base[v[1]], (L, D, I)):
        return 'an object made when the package is loaded'
    if v[0] in ('cls', 'mod', 'func'):
        return show(v)
    return None


def changes(e):
    """the objects an event changes in place"""
    if e.kind in ('setitem', 'delitem', 'mut', 'setattr', 'delattr') and e.args:
        return e.args[:1]
    if e.kind == 'call' and isinstance(e.name, str) and e.name[:1] == '.' and e.name[1:] in MUTATORS and e.args:
        return e.args[:1]
    return ()


def c45(R):
    R.rule('process', 'no function changes the working directory, the variables or other settings of the process')
    R.rule('shared', 'no function changes an object every use of the package shares: module variables, class '
           'attributes, default values of parameters, os.environ, sys.*')
    R.rule('globals', 'no function assigns a module variable or class attribute')
    F = Effects(R)
    todo = [(q, ()) for q in F.top()]
    seen = set()
    n = 0
    while todo:
        q, bound = todo.pop()
        if (q, bound) in seen or len(seen) > 2000:
            continue
        seen.add((q, bound))
        for A, o in F.run(q, bound):
            n += 1
            st = o.st
            for e in flatten(o.events):
                if e.kind == 'call':
                    R.ob('process', q, e.name not in PROCESS or e.name == 'setattr' and not shared(A, e.args[0]),
                         e.loc, 'calls %s' % e.name)
                    todo += passed(A, F, e)
                for x in changes(e):
                    s = shared(A, x)
                    if e.kind in ('setattr', 'delattr') and s:
                        R.ob('globals', q, False, e.loc, 'sets an attribute of %s' % s)
                    else:
                        R.ob('shared', q, not s, e.loc, 'changes %s%s' % (s, ' ' + show(x)[:60] if s else ''))
            for m, a in A.modframe.items():
                f = st.heap.get(a)
                if f is not None and f is not A.base.get(a):
                    old = A.base[a].vars
                    for k, v in f.vars.items():
                        R.ob('globals', q, k in old and (old[k] == v or old[k] is v), loc_of(A, q),
                             'assigns %s.%s' % (m, k))
            todo += kept(A, F, q, o)
    R.ob('shared', 'functions', n > 100, (0, 0) if False else loc_of(F.A, 'ipkg.utils.execute'), '%d runs' % n)
    if F.failed:
        R.notes.append('not analysed: %s' % F.failed)


def passed(A, F, e):
    """shared objects handed to another function of the package"""
    q = e.name
    if q in A.classes:
        q = q + '.__init__'
        shift = 1
    else:
        shift = 0
    fi = F.fi.get(q)
    if fi is None:
        return []
    b = []
    params = fi.params[shift:]
    for p, v in list(zip(params, e.args)) + list(e.kw or ()):
        if p in fi.params and mutable(A, v):
            b.append((p, v))
    return [(q, tuple(b))] if b else []


def mutable(A, v):
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 'ext':
        return v[1] in ('os.environ', 'sys.path', 'sys.argv', 'sys.modules', 'sys.meta_path')
    return v[0] == 'ref' and v[1] in A.base and isinstance(A.base[v[1]], (L, D)) or \
        v[0] == 'sym' and v[1].startswith('class attribute ')


def kept(A, F, q, o):
    """shared objects that became attributes: the other methods find them there"""
    owner = q.rsplit('.', 1)[0]
    out = []
    if owner not in A.classes:
        return out
    for a, x in o.st.heap.items():
        if a in A.base or not isinstance(x, I) or x.cls != owner:
            continue
        b = tuple(('self.' + k, v) for k, v in sorted(x.attrs.items()) if k != '*' and mutable(A, v) and
                  v[0] != 'sym')
        if b:
            for q2 in F.top():
                if q2.rsplit('.', 1)[0] == owner and q2 != q and not q2.endswith('.__init__'):
                    out.append((q2, b))
    return out


# ------------------------------------------------------------------- C46

QUERIES = ('ipkg.cli.list_packages', 'ipkg.cli.printenv', 'ipkg.cli.config_get', 'ipkg.environments.current',
           'ipkg.environments.in_env', 'ipkg.environments.Environment.__init__',
           'ipkg.environments.Environment.get_config', 'ipkg.environments.EnvironmentVariables.',
           'ipkg.environments.EnvironmentDirectories.__init__', 'ipkg.repositories.BaseRepository.',
           'ipkg.repositories.PackageRepository.', 'ipkg.repositories.FormulaRepository.',
           'ipkg.packages.MetaPackage.', 'ipkg.packages.make_filename', 'ipkg.packages.PackageFile.__init__',
           'ipkg.mixins.', 'ipkg.requirements.', 'ipkg.versions.', 'ipkg.platforms.', 'ipkg.dependencies.',
           'ipkg.utils.is_package_like', 'ipkg.utils.make_package_spec', 'ipkg.utils.parse_package_spec',
           'ipkg.utils.which', 'ipkg.utils.check_', 'ipkg.utils.DictFile.__init__', 'ipkg.utils.DictFile.reload',
           'ipkg.files.vopen')
WRITES = {'os.' + n for n in (
    'unlink', 'remove', 'rename', 'renames', 'replace', 'mkdir', 'makedirs', 'rmdir', 'removedirs', 'chmod', 'chown',
    'lchown', 'fchmod', 'symlink', 'link', 'utime', 'truncate', 'ftruncate', 'mkfifo', 'mknod', 'write', 'system',
    'popen', 'execv', 'execve', 'execvp', 'execvpe', 'execl', 'execlp', 'spawnv', 'spawnl', 'spawnvp', 'startfile')} | \
    {'shutil.' + n for n in ('rmtree', 'copy', 'copy2', 'copyfile', 'copytree', 'move', 'copymode', 'copystat')} | \
    {'tempfile.' + n for n in ('mkdtemp', 'mkstemp', 'mktemp', 'NamedTemporaryFile')} | \
    {'subprocess.' + n for n in ('Popen', 'call', 'check_call', 'check_output')} | \
    {'.extractall', '.extract', '.addfile'}
OPENS = ('open', 'file', 'io.open', 'codecs.open', 'os.fdopen', 'gzip.open', 'bz2.BZ2File', 'tarfile.open',
         'zipfile.ZipFile', 'tarfile.TarFile.open')
CACHE = 'ipkg.files.cache.'


def writing(e):
    """the event writes to the file system or runs a command"""
    if e.kind != 'call':
        return False
    if e.name in WRITES:
        return True
    if e.name == 'os.open':
        return len(e.args) > 1 and any(isinstance(x, tuple) and x[:1] == ('ext',) and x[1].rsplit('.', 1)[-1] in (
            'O_WRONLY', 'O_RDWR', 'O_CREAT', 'O_APPEND', 'O_TRUNC') for x in subterms(strip(e.args[1])))
    if e.name in OPENS:
        m = dict(e.kw or ()).get('mode', e.args[1] if len(e.args) > 1 else const('r'))
        m = strip(m)
        return not (m[0] == 'c' and isinstance(m[2], str) and not set(m[2][:1]) & set('wax') and '+' not in m[2])
    return False


def records(v):
    """the object is, or is part of, the metadata of something"""
    v = strip(v)
    while v[0] in ('attr', 'item', 'elem', 'wit', 'last', 'call'):
        if v[0] == 'attr' and v[2] == 'meta':
            return True
        if v[0] == 'call':
            if not v[2] or cname(v) not in ('.get', '.values', '.items', '.setdefault', '.itervalues', '.iteritems',
                                            'iter', 'sorted'):
                return False
            if cname(v) == 'sorted':
                return False
            v = v[2][0]
        else:
            v = v[1]
    return v in (sym('meta'), sym('data'))


def private(q):
    """a helper, which counts when a query calls it"""
    name = q.rsplit('.', 1)[-1]
    return name.startswith('_') and not (name.startswith('__') and name.endswith('__'))


def c46(R):
    R.rule('nothing-written', 'no function a query may call writes, creates, renames or removes a file, or runs a '
           'command; the download cache apart')
    R.rule('records-kept', 'no function a query may call changes the metadata of an environment, repository or package')
    F = Effects(R)
    A = F.A
    tops = list(F.top())
    methods = {}
    for q in tops:
        if q.rsplit('.', 1)[0] in A.classes:
            methods.setdefault(q.rsplit('.', 1)[1], []).append(q)
    start = [q for q in tops if any(q == x or x.endswith(('.', '_')) and q.startswith(x) and
                                    not private(q) for x in QUERIES)]
    start += [q for q in tops if is_property(F.fi[q])]
    R.ob('nothing-written', 'queries', len(start) > 60, loc_of(A, 'ipkg.repositories.BaseRepository.find'),
         'only %d functions found' % len(start))
    via = {q: None for q in start}
    todo = list(start)
    building = set()        # helpers that constructors call to fill the new object
    while todo:
        q = todo.pop(0)
        for A2, o in F.run(q):
            for e in flatten(o.events):
                R.ob('nothing-written', q, not writing(e), e.loc, '%s calls %s' % (chain(via, q), e.name))
                for x in changes(e):
                    if e.kind not in ('setattr', 'delattr') or strip(x)[:1] != ('ref',):
                        R.ob('records-kept', q, not records(x) or q in building and own_record(x), e.loc, '%s changes %s' % (chain(via, q), show(x)[:80]))
                if e.kind != 'call' or not isinstance(e.name, str):
                    continue
                for c in callees(A2, F, methods, e):
                    mine = private(c) and q in (c.rsplit('.', 1)[0] + '.__init__', *building) and \
                        e.args and strip(e.args[0])[:1] == ('ref',)
                    if (c not in via or c in building and not mine) and not c.startswith(CACHE):
                        building.add(c) if mine else building.discard(c)
                        via[c] = q
                        todo.append(c)


def own_record(v):
    """the metadata of the object itself"""
    v = strip(v)
    while v[0] in ('item', 'elem', 'wit', 'last'):
        v = v[1]
    return v[0] == 'attr' and v[2] == 'meta' and v[1][:1] == ('ref',)


def callees(A, F, methods, e):
    if e.name in A.classes:
        for k in A.mro(e.name):
            if k + '.__init__' in F.fi:
                return [k + '.__init__']
        return []
    if e.name in F.fi:
        return [e.name]
    if e.name[:1] == '.' and e.name[1:] not in MUTATORS and e.name[1:] not in (
            'get', 'set', 'keys', 'values', 'items', 'read', 'seek', 'tell', 'close', 'copy', 'open', 'split', 'strip',
            'load', 'match', 'index', 'count', 'format', 'join', 'replace'):
        return methods.get(e.name[1:], [])
    return []


def is_property(fi):
    return any(d.t == 'Name' and d.id == 'property' for d in fi.node.decorator_list)


def chain(via, q):
    out = [q]
    while via.get(out[-1]):
        out.append(via[out[-1]])
    return ' < '.join(x.split('.', 1)[1] for x in out)


CHECKS = {'C45': c45, 'C46': c46}
