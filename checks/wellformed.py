"""C23: names that exist, errors of the tool's own"""
import importlib
import re
from .base import *
from .processes import parents
from engine import model
from engine.lib import Outcome

IPKG = 'ipkg.exceptions.IpkgException'
MODULE_NAMES = {'__file__', '__name__', '__doc__', '__path__', '__package__', '__builtins__', 'WindowsError'}
# modules which are the same in Python 3 as far as their names go, and names only Python 2 has
SAME = {'os', 'os.path', 'sys', 'shutil', 'tempfile', 'json', 'hashlib', 'tarfile', 'zipfile', 'errno', 'stat', 're',
        'logging', 'time', 'operator', 'shlex', 'subprocess', 'socket', 'platform', 'argparse', 'types', 'collections'}
ONLY2 = {'os': {'getcwdu', 'popen2', 'popen3', 'popen4', 'errno', 'tempnam', 'tmpnam', 'tmpfile'},
         'sys': {'maxint', 'setdefaultencoding', 'exc_clear', 'exc_type', 'exc_value', 'exc_traceback', 'subversion',
                 'py3kwarning', 'registry', 'builtins', 'version_info', 'getwindowsversion', 'winver'},
         'os.path': {'walk'}, 'tempfile': {'template'}, 'operator': {
             'div', 'isCallable', 'sequenceIncludes', 'isSequenceType', 'isMappingType', 'isNumberType', 'repeat',
             'getslice', 'setslice', 'delslice', 'idiv'},
         'types': {'StringType', 'UnicodeType', 'StringTypes', 'ListType', 'TupleType', 'DictType', 'IntType', 'NoneType',
                   'LongType', 'FloatType', 'BooleanType', 'ClassType', 'InstanceType', 'ObjectType', 'TypeType',
                   'FileType', 'UnboundMethodType', 'DictionaryType', 'SliceType', 'EllipsisType', 'XRangeType'},
         'tarfile': {'TarFileCompat', 'TAR_PLAIN', 'TAR_GZIPPED'}, 'zipfile': {'BadZipfile'},
         'platform': {'linux_distribution', 'dist', 'popen', 'java_ver'}, 'collections': {
             'Mapping', 'MutableMapping', 'Iterable', 'Callable', 'Set', 'Sequence', 'Hashable', 'Sized', 'Container'},
         'time': {'clock'}, 'stat': set(), 'socket': {'_fileobject'}, 'logging': set(), 'json': set(), 'subprocess': {
             'mswindows'}, 'hashlib': set(), 'shutil': set(), 'errno': set(), 're': set(), 'shlex': set(),
         'argparse': set()}


# ------------------------------------------------------------------- scopes

def stored(body, out, glob):
    """names bound by the statements of one scope"""
    stack = list(body)
    while stack:
        n = stack.pop()
        if not hasattr(n, 't'):
            continue
        if n.t in ('FunctionDef', 'ClassDef'):
            out.add(n.name)
            stack.extend(n.get('decorator_list') or ())
            continue
        if n.t == 'Lambda':
            continue
        if n.t == 'GeneratorExp':
            # its targets are local to it
            continue
        if n.t == 'Global':
            glob |= set(n.names)
        elif n.t in ('Import', 'ImportFrom'):
            for a in n.names:
                out.add(a.get('asname') or a.get('name').split('.')[0])
        elif n.t == 'Name' and n.ctx is not None and ctx(n) in ('Store', 'Param', 'Del', 'AugStore'):
            out.add(n.id)
        for v in n.f.values():
            stack.extend(x for x in (v if isinstance(v, list) else [v]) if hasattr(x, 't'))
    return out


def ctx(n):
    c = n.get('ctx')
    return c.t if hasattr(c, 't') else str(c)


class Names(object):
    """resolves every name of a module"""

    def __init__(self, R, A, module, tree):
        self.R, self.A, self.module, self.tree = R, A, module, tree
        self.glob = set()
        self.top = stored(tree.body, set(), set())
        # names made global by functions
        for n in tree.walk():
            if n.t == 'Global':
                self.top |= set(n.names)
        self.total = 0
        self.star = any(n.t == 'ImportFrom' and any(a.get('name') == '*' for a in n.names) for n in tree.walk())

    def run(self):
        if self.star:
            return
        self.block(self.tree.body, [self.top])

    def block(self, stmts, scopes):
        for n in stmts:
            self.visit(n, scopes)

    def visit(self, n, scopes):
        """scopes: the innermost is last"""
        if n.t == 'Name':
            if ctx(n) in ('Load', 'AugLoad', 'Del'):
                self.total += 1
                ok = n.id in ('None', 'True', 'False') or any(n.id in s for s in scopes) or \
                    n.id in model.BUILTINS or n.id in model.EXC or n.id in MODULE_NAMES or \
                    n.id in self.top or builtin_exception(n.id)
                if not ok or not self.total % 50:
                    self.R.ob('names', '%s.%s' % (self.module, n.id) if not ok else self.module, ok, (n.file, n.line),
                              'nothing is called %s' % n.id)
            return
        if n.t in ('FunctionDef', 'Lambda'):
            for d in (n.get('decorator_list') or ()):
                self.visit(d, scopes)
            a = n.args
            for d in a.defaults:
                self.visit(d, scopes)
            local = set()
            for p in a.args:
                stored([p], local, set())
                for x in p.walk():
                    if x.t == 'Name':
                        local.add(x.id)
            for v in (a.vararg, a.kwarg):
                if v:
                    local.add(v if isinstance(v, str) else v.id)
            body = n.body if isinstance(n.body, list) else [n.body]
            glob = set()
            stored(body, local, glob)
            inner = [s for s in scopes if not getattr(s, 'of_class', False)]
            self.block(body, inner + [local - glob])
            return
        if n.t == 'ClassDef':
            for d in list(n.bases) + list(n.get('decorator_list') or ()):
                self.visit(d, scopes)
            s = ClassScope(stored(n.body, set(), set()) | {'__module__'})
            self.block(n.body, scopes + [s])
            return
        if n.t in ('GeneratorExp', 'ListComp', 'SetComp', 'DictComp'):
            local = set()
            for g in n.generators:
                for x in g.target.walk():
                    if x.t == 'Name':
                        local.add(x.id)
            scopes = scopes + [local]
        for v in n.f.values():
            for x in (v if isinstance(v, list) else [v]):
                if hasattr(x, 't'):
                    self.visit(x, scopes)


EXCEPTIONS = set('''ArithmeticError AssertionError AttributeError BaseException BufferError BytesWarning
DeprecationWarning EOFError EnvironmentError Exception FloatingPointError FutureWarning GeneratorExit IOError ImportError
ImportWarning IndentationError IndexError KeyError KeyboardInterrupt LookupError MemoryError NameError
NotImplementedError OSError OverflowError PendingDeprecationWarning ReferenceError RuntimeError RuntimeWarning
StandardError StopIteration SyntaxError SyntaxWarning SystemError SystemExit TabError TypeError UnboundLocalError
UnicodeDecodeError UnicodeEncodeError UnicodeError UnicodeTranslateError UnicodeWarning UserWarning ValueError Warning
ZeroDivisionError'''.split())


class ClassScope(set):
    of_class = True


def builtin_exception(name):
    return name in EXCEPTIONS


def module_names(A):
    """module -> names it defines"""
    out = {}
    for m, (tree, path) in A.src.items():
        s = stored(tree.body, set(), set())
        for n in tree.walk():
            if n.t == 'Global':
                s |= set(n.names)
        s |= set(x[len(m) + 1:].split('.')[0] for x in A.src if x.startswith(m + '.'))
        out[m] = s | MODULE_NAMES
    return out


def absolute(m, path, n):
    """the module an import-from names"""
    lvl = n.get('level') or 0
    name = n.get('module') or ''
    if not lvl:
        return name
    p = m.split('.')
    if not path.endswith('__init__.py'):
        p = p[:-1]
    p = p[:len(p) - lvl + 1]
    return '.'.join(p + ([name] if name else []))


def attributes(R, A):
    """names imported from, and attributes of, modules"""
    names = module_names(A)
    stars = set(m for m, (t, p) in A.src.items() if any(
        n.t == 'ImportFrom' and any(a.get('name') == '*' for a in n.names) for n in t.walk()))
    total = 0
    for m, (tree, path) in sorted(A.src.items()):
        mods = {}       # local name -> module
        optional = set()
        for n in tree.walk():
            if n.t in ('TryExcept', 'Try') and any(catches(h, ('ImportError',)) for h in n.handlers):
                for b in n.body:
                    for y in b.walk():
                        optional.add(y.uid)
                for h in n.handlers:
                    for y in h.walk():
                        optional.add(y.uid)
        rebound = set()
        for n in tree.walk():
            if n.t == 'Name' and ctx(n) in ('Store', 'Param'):
                rebound.add(n.id)
        for n in tree.walk():
            if n.t == 'Import':
                for a in n.names:
                    full, local = a.get('name'), a.get('asname')
                    if local or '.' not in full:
                        mods[local or full] = full
                    if '.' in full and not local:
                        mods.setdefault(full.split('.')[0], full.split('.')[0])
            elif n.t == 'ImportFrom':
                src = absolute(m, path, n)
                for a in n.names:
                    x = a.get('name')
                    if x == '*':
                        continue
                    if src in names and n.uid not in optional:
                        total += 1
                        ok = x in names[src] or src in stars
                        R.ob('names', '%s imports' % m, ok, (n.file, n.line), '%s has no %s' % (src, x))
                    elif src in SAME and n.uid not in optional:
                        total += 1
                        R.ob('names', '%s imports' % m, library_has(src, x), (n.file, n.line),
                             '%s has no %s' % (src, x))
                    sub = '%s.%s' % (src, x)
                    if sub in names or sub in SAME:
                        mods[a.get('asname') or x] = sub
        for n in tree.walk():
            if n.t != 'Attribute' or ctx(n) not in ('Load', 'AugLoad'):
                continue
            full = chain(n.value)
            if not full:
                continue
            head = full.split('.')[0]
            if head not in mods or head in rebound:
                continue
            mod = '.'.join([mods[head]] + full.split('.')[1:])
            if mod in names:
                total += 1
                R.ob('names', '%s: attributes of modules' % m, n.attr in names[mod] or mod in stars, (n.file, n.line),
                     '%s has no %s' % (mod, n.attr))
            elif mod in SAME:
                total += 1
                R.ob('names', '%s: attributes of modules' % m, library_has(mod, n.attr), (n.file, n.line),
                     '%s has no %s' % (mod, n.attr))
    return total


def chain(n):
    if n.t == 'Name':
        return n.id
    if n.t == 'Attribute':
        b = chain(n.value)
        return b and '%s.%s' % (b, n.attr)
    return None


def library_has(mod, name):
    if name in ONLY2.get(mod, ()) or name.startswith('_'):
        return True
    try:
        return hasattr(importlib.import_module(mod), name)
    except ImportError:
        return True


# ------------------------------------------------------- attributes of self

def of_self(R, A):
    """attributes of self that nothing ever sets"""
    assigned = set()        # attribute names any code sets
    for m, (tree, path) in A.src.items():
        for n in tree.walk():
            if n.t == 'Attribute' and ctx(n) in ('Store', 'AugStore'):
                assigned.add(n.attr)
            elif n.t == 'Call' and n.func.t == 'Name' and n.func.id == 'setattr' and len(n.args) > 1:
                if n.args[1].t == 'Str':
                    assigned.add(str(n.args[1].s))
                else:
                    assigned.add('*')
    classes = {}
    for m, (tree, path) in A.src.items():
        for n in tree.walk():
            if n.t == 'ClassDef':
                classes.setdefault(n.name, []).append((n, m))
    total = 0
    for m, (tree, path) in sorted(A.src.items()):
        for c in tree.walk():
            if c.t != 'ClassDef':
                continue
            have = defines(A, c, classes, set())
            if have is None:
                continue
            for f in c.body:
                if f.t != 'FunctionDef' or not f.args.args or f.args.args[0].t != 'Name':
                    continue
                if any(chain(d) in ('staticmethod',) for d in (f.get('decorator_list') or ())):
                    continue
                me = f.args.args[0].id
                rebound = any(x.t == 'Name' and x.id == me and ctx(x) == 'Store' for x in f.walk())
                if rebound:
                    continue
                for x in f.walk():
                    if x.t == 'Attribute' and x.value.t == 'Name' and x.value.id == me and ctx(x) == 'Load':
                        total += 1
                        ok = x.attr in have or x.attr in assigned or x.attr.startswith('__') and x.attr.endswith('__')
                        R.ob('names', '%s.%s: attributes of itself' % (m, c.name), ok, (x.file, x.line),
                             '%s has no %s' % (c.name, x.attr))
    return total


def defines(A, c, classes, seen):
    """attributes a class and its bases define; None if they are not known"""
    if c.uid in seen:
        return set()
    seen.add(c.uid)
    out = stored(c.body, set(), set())
    if '__getattr__' in out or '__getattribute__' in out:
        return None
    for b in c.bases:
        name = chain(b)
        if name is None:
            return None
        short = name.split('.')[-1]
        if short in classes:
            for k, m in classes[short]:
                d = defines(A, k, classes, seen)
                if d is None:
                    return None
                out |= d
        elif short in ('object', 'dict', 'list', 'set', 'tuple', 'str', 'Exception', 'IOError', 'OSError',
                       'ValueError', 'KeyError', 'TypeError', 'RuntimeError'):
            import builtins
            out |= set(dir(getattr(builtins, short))) | {'message', 'has_key', 'iteritems', 'itervalues', 'iterkeys'}
        else:
            return None
    # mixins: what the classes using it define
    for k in classes.values():
        for x, m in k:
            if x is not c and any((chain(b) or '').split('.')[-1] == c.name for b in x.bases):
                if x.uid not in seen:
                    d = stored(x.body, set(), set())
                    if '__getattr__' in d:
                        return None
                    out |= d
    return out


# ------------------------------------------------------- formats and arguments

SPEC = re.compile(r'%(?:\((?P<key>[^)]*)\))?[#0\- +]*(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d+))?[hlL]?(?P<c>.)', re.S)


def formats(R, A):
    """the number of values of a format string"""
    total = 0
    for m, (tree, path) in sorted(A.src.items()):
        for n in tree.walk():
            if n.t != 'BinOp' or n.op.t != 'Mod' or n.left.t != 'Str':
                continue
            text = str(n.left.s)
            need, keys, ok = 0, set(), True
            for x in SPEC.finditer(text):
                if x.group('c') == '%':
                    continue
                if x.group('c') not in 'diouxXeEfFgGcrs':
                    ok = False
                if x.group('key') is not None:
                    keys.add(x.group('key'))
                else:
                    need += 1 + (x.group('w') == '*') + (x.group('p') == '*')
            total += 1
            r = n.right
            where = '%s: formats' % m
            R.ob('names', where, ok, (n.file, n.line), 'unknown conversion in %r' % text[:60])
            if r.t == 'Tuple' and not keys:
                R.ob('names', where, len(r.elts) == need, (n.file, n.line), '%d values for %d places in %r' % (
                    len(r.elts), need, text[:60]))
            elif r.t == 'Dict' and keys and all(k.t == 'Str' for k in r.keys):
                have = set(str(k.s) for k in r.keys)
                R.ob('names', where, keys <= have and not need, (n.file, n.line), '%r lacks %s' % (
                    text[:60], ', '.join(sorted(keys - have))))
            elif r.t in ('Str', 'Num', 'JoinedStr', 'BinOp', 'Subscript') and not keys and r.t != 'Subscript' and (
                    r.t != 'BinOp'):
                R.ob('names', where, need == 1, (n.file, n.line), 'one value for %d places in %r' % (need, text[:60]))
    return total


def arity(R, A):
    """calls of the functions and classes of the repository, by name"""
    total = 0
    for m, (tree, path) in sorted(A.src.items()):
        fr = A.modframe.get(m)
        if fr is None or fr not in A.base:
            continue
        vars_ = A.base[fr].vars
        rebound = {}
        for n, fn in parents(tree):
            if n.t != 'Call' or n.func.t != 'Name' or n.get('starargs') or n.get('kwargs'):
                continue
            if fn is not None:
                loc = rebound.get(fn.uid)
                if loc is None:
                    loc = rebound[fn.uid] = stored(fn.body if isinstance(fn.body, list) else [fn.body], set(), set()) | \
                        set(x.id for p in fn.args.args for x in p.walk() if x.t == 'Name')
                if n.func.id in loc:
                    continue
            v = vars_.get(n.func.id)
            if v is None:
                continue
            if v[0] == 'func':
                fi, skip = A.funcs.get(v[1]), 0
            elif v[0] == 'cls':
                fi, skip = initializer(A, v[1]), 1
            else:
                continue
            if fi is None or fi.node.get('decorator_list') or fi.node.t != 'FunctionDef':
                continue
            a = fi.node.args
            params = fi.params[skip:]
            least = len(params) - len(a.defaults)
            given = len(n.args)
            kws = [k.arg for k in n.keywords]
            total += 1
            ok = (given <= len(params) or a.vararg) and \
                all(k in params or a.kwarg for k in kws) and \
                len(set(params[:given]) | set(k for k in kws)) >= least and \
                all(p in params[:given] or p in kws for p in params[:max(least, 0)])
            R.ob('names', '%s: calls' % m, bool(ok), (n.file, n.line), '%s takes %s' % (n.func.id, ', '.join(
                str(p) for p in params)))
    return total


def initializer(A, q):
    for c in A.mro(q):
        ci = A.classes.get(c)
        if ci is None:
            if c in ('object',):
                continue
            return None
        v = ci.ns.get('__init__')
        if v is not None and v[0] == 'func':
            return A.funcs.get(v[1])
        if v is not None:
            return None
    return None


# ---------------------------------------------------------------- raise sites

def catches(h, names):
    t = h.get('type')
    if t is None:
        return True
    ts = t.elts if t.t == 'Tuple' else [t]
    return any((chain(x) or '').split('.')[-1] in names for x in ts)


BASES = {'KeyError': ('LookupError',), 'IndexError': ('LookupError',), 'IOError': ('EnvironmentError',),
         'OSError': ('EnvironmentError',), 'UnicodeError': ('ValueError',), 'NotImplementedError': ('RuntimeError',)}


def raise_sites(R, A):
    total = 0
    stack = {}
    for m, (tree, path) in sorted(A.src.items()):
        fr = A.modframe.get(m)
        vars_ = A.base[fr].vars if fr in A.base else {}

        def visit(n, fn, tries):
            nonlocal total
            if n.t == 'Raise' and n.get('type') is not None:
                total += 1
                judge(n, fn, tries, m, vars_)
            if n.t in ('FunctionDef', 'Lambda'):
                fn, tries = n, ()
            if n.t in ('TryExcept', 'Try'):
                for x in n.body:
                    visit(x, fn, tries + (n,))
                for k, v in n.f.items():
                    if k != 'body':
                        for x in (v if isinstance(v, list) else [v]):
                            if hasattr(x, 't'):
                                visit(x, fn, tries)
                return
            for v in n.f.values():
                for x in (v if isinstance(v, list) else [v]):
                    if hasattr(x, 't'):
                        visit(x, fn, tries)

        def judge(n, fn, tries, m, vars_):
            e = n.type
            what = '%s.%s' % (m, fn.name if fn is not None and fn.t == 'FunctionDef' else '')
            x = e.func if e.t == 'Call' else e
            name = chain(x)
            if name is None:
                return
            v = vars_.get(name.split('.')[0])
            caught = False
            for t in tries:
                if any(catches(h, (name.split('.')[-1], 'Exception', 'StandardError', 'BaseException') +
                               BASES.get(name, ())) for h in t.handlers):
                    caught = True
            if v is not None and v[0] == 'cls' and '.' not in name:
                own = IPKG in A.mro(v[1])
                R.ob('own', what, own or caught, (n.file, n.line), '%s is not one of the errors of ipkg' % name)
                return
            if name in model.EXC or builtin_exception(name):
                kind = stdlib_exception(name)
                R.ob('own', what, caught or allowed(A, kind, n, fn), (n.file, n.line),
                     '%s is not one of the errors of ipkg' % name)
                return
            if v is not None or '.' in name:
                # an exception of a library, or one that was caught
                return
        visit(tree, None, ())
    return total


def stdlib_exception(name):
    return name


def allowed(A, name, n, fn):
    """errors which report a misuse of the code, not malformed input"""
    if name in ('SystemExit', 'NotImplementedError', 'KeyboardInterrupt', 'StopIteration'):
        return True
    if name == 'AttributeError':
        return fn is not None and fn.t == 'FunctionDef' and fn.name in ('__getattr__', '__getattribute__', '__delattr__',
                                                                         '__setattr__')
    if name == 'TypeError' and fn is not None and fn.t == 'FunctionDef':
        return wrong_type(A, n, fn)
    return False


def wrong_type(A, n, fn):
    """every path to this raise has found that a value is no text and of no class"""
    B = analysis(raises=False)
    hits = []
    for q, f in B.funcs.items():
        if f.node.t == 'FunctionDef' and f.node.line == n_line(fn) and f.node.file == fn.file and f.name == fn.name:
            B.opaque |= set(g.qual for g in B.funcs.values() if g.qual != f.qual)
            outs = B.run(B.fresh(), f.qual, [sym(p) for p in f.params if isinstance(p, str)])
            for o in outs:
                if not o.ok and o.exc() == 'TypeError':
                    hits.append(any(a[0] == 'isinst' and not p for a, p in o.st.path))
    return bool(hits) and all(hits)


def n_line(n):
    return n.line


def locals_set(R):
    """no path through a function reads a local name before it is set"""
    A = analysis(raises=True)
    A.step_whiles = A.step_fors = True
    every = set(f.qual for f in A.funcs.values())
    n = 0
    for k, f in sorted(A.funcs.items()):
        q = f.qual
        if f.name == '<lambda>' or q.rsplit('.', 1)[0] not in A.src and q.rsplit('.', 2)[0] not in A.src:
            continue
        A.opaque = every - {q}
        A.unresolved = []
        A.budget = 100000
        A.run(A.fresh(), q, [sym(p) if isinstance(p, str) else sym('pair') for p in f.params])
        n += 1
        for file, line, name in A.unresolved or [(None, None, None)]:
            R.ob('names', 'names of ' + q, name is None, (file, line) if name else loc_of(A, q),
                 '%s is read before it is set' % name)
    return n


# ---------------------------------------------------------- malformed input

REFUSED = {
    'json.loads': ['ValueError'], 'json.load': ['ValueError'], 'tarfile.open': ['tarfile.ReadError', 'tarfile.CompressionError'],
    '.extractfile': ['KeyError'], 'imp.load_source': ['ImportError', 'SyntaxError'],
    'zipfile.ZipFile': ['zipfile.BadZipfile'], 'int': ['ValueError'], 'float': ['ValueError'],
}


def refused(A, names):
    """these calls may refuse what they are given"""
    for name in names:
        def hook(A, st, args, kw, cx, n, name=name):
            c = ('refused', name, args, kw)
            k = st.cnt.get(c, 0)
            st.cnt[c] = k + 1
            res = ('call', name, args, kw, k)
            st.emit(Ev('call', name, args, kw, res, (n.file, n.line)))
            out = [(st, 'v', res)]
            for e in REFUSED[name]:
                s = st.copy()
                s.emit(Ev('failed', name, args, kw, None, (n.file, n.line)))
                out.append((s, 'x', ('xinst', e, ())))
            return out
        A.hooks[name] = hook


def own_error(A, o):
    x = o.exc()
    return x in A.classes and IPKG in A.mro(x)


def matches(R, what, outs, loc):
    """a match of a pattern is used only where there is one"""
    for o in outs:
        found = set()
        terms = [a for a, p in o.st.path] + [o.st.freeze(o.val)] + [x for e in o.flat() for x in e.args]
        for t in terms:
            for v in subterms(strip(t)):
                if isinstance(v, tuple) and len(v) > 2 and v[0] == 'call' and v[1] in (
                        '.group', '.groups', '.groupdict', '.start', '.end', '.span') and v[2]:
                    m = v[2][0]
                    if m[0] == 'call' and m[1] in ('.match', '.search', 're.match', 're.search'):
                        found.add(m)
        for m in found:
            there = tri(o.st.path, truth(m)) is True or tri(o.st.path, ('isnone', m)) is False
            R.ob('malformed', what + ': match', there, loc, 'uses %s without knowing that there is a match' %
                 show(m)[:100])


def judge_errors(R, A, what, outs, loc, expect=()):
    """only errors of ipkg; expect: calls whose refusal has to be seen"""
    R.saw(A, outs)
    matches(R, what, outs, loc)
    seen = set()
    for o in outs:
        f = [e for e in o.flat() if e.kind == 'failed']
        seen |= set(e.name for e in f)
        if o.ok:
            R.ob('malformed', what, not f, f[0].loc if f else loc, 'returns although %s refused its input' % (
                f[0].name if f else ''))
        else:
            R.ob('malformed', what, own_error(A, o), f[0].loc if f else loc, 'raises %s if %s%s' % (
                o.exc(), o.describe()[:150], ', %s refuses its input' % f[0].name if f else ''))
    R.ob('malformed', what, bool(outs), loc, 'no result')
    for names in expect:
        R.ob('malformed', what, bool(seen & set(names)), loc, 'the input is not read with %s' % ' or '.join(names))


def text_of(A, st, *names):
    for n in names:
        st.assume(('isinst', sym(n), ('ext', 'basestring')), True)
        st.assume(('isinst', sym(n), ('ext', 'str')), True)
        st.assume(('isinst', sym(n), ('ext', 'unicode')), False)
        st.assume(('isnone', sym(n)), False)
    return st


def not_a_dictionary(R, what, outs, loc):
    """what was decoded is used only if it is a dictionary"""
    n = 0
    for o in outs:
        for e in o.flat():
            if e.kind == 'call' and e.name in ('json.loads', 'json.load'):
                n += 1
                d = strip(e.res)
                is_dict = any(a[0] == 'isinst' and strip(a[1]) == d and p and show(a[2]) in ('dict', 'collections.Mapping')
                              for a, p in o.st.path)
                R.ob('malformed', what + ': what was decoded', is_dict or not o.ok, e.loc,
                     'is used as a dictionary if it is none')
    R.ob('malformed', what + ': what was decoded', n > 0, loc, 'nothing is decoded')


def malformed(R):
    """what the operations which read input raise"""
    # texts
    for q in ('ipkg.requirements.parse', 'ipkg.requirements.parse_version', 'ipkg.utils.parse_package_spec'):
        A = analysis(raises=False)
        refused(A, ('int', 'float'))
        # the combination of version constraints: C19
        A.opaque |= {'ipkg.requirements.remove_useless_version_selectors', 'ipkg.requirements.parse_version'} - {q}
        st = text_of(A, A.fresh(), 'text')
        judge_errors(R, A, q, A.run(st, q, [sym('text')]), loc_of(A, q))
    A = analysis(raises=True)
    A.raises_only = {'.split', '.rsplit'}
    st = text_of(A, A.fresh(), 'text')
    q = 'ipkg.platforms.Platform.parse'
    outs = A.run(st, q, [('cls', 'ipkg.platforms.Platform'), sym('text')])
    judge_errors(R, A, q, outs, loc_of(A, q))
    # dictionaries naming a package
    q = 'ipkg.utils.make_package_spec'
    for items in ((), ('version',), ('revision', 'version'), ('name',), ('name', 'version'),
                  ('name', 'version', 'revision')):
        A = analysis(raises=False)
        st = A.fresh()
        d = st.new(D(tuple((const(i), sym(i)) for i in items)))
        reset(A, st)
        judge_errors(R, A, q, A.run(text_of(A, st, *items), q, [d]), loc_of(A, q))
    # metadata files
    A = analysis(raises=False)
    refused(A, ('json.loads', 'json.load'))
    A.opaque.add('ipkg.files.vopen')
    q = 'ipkg.utils.DictFile'
    A.opaque.add(q + '.reload')
    o = instance(A, A.fresh(), q, [sym('path')])[0]
    A.opaque.discard(q + '.reload')
    outs = A.method(reset(A, o.st), o.val, 'reload')
    judge_errors(R, A, q + '.reload', outs, loc_of(A, q + '.reload'), [('json.loads', 'json.load')])
    not_a_dictionary(R, q + '.reload', outs, loc_of(A, q + '.reload'))
    # package files
    A = analysis(raises=False)
    refused(A, ('json.loads', 'json.load', 'tarfile.open', '.extractfile'))
    A.opaque |= {'ipkg.files.vopen'}
    q = 'ipkg.packages.PackageFile'
    o = instance(A, A.fresh(), q, [sym('path')])[0]
    st = reset(A, o.st)
    cx = A.cx(st, [o.val])
    outs = [Outcome(s2, k, v, A) for s2, k, v in A.getattr_(st, o.val, 'meta', cx, A.node())]
    judge_errors(R, A, q + '.meta', outs, loc_of(A, q + '.__init__'),
                 [('json.loads', 'json.load'), ('tarfile.open',), ('.extractfile',)])
    not_a_dictionary(R, q + '.meta', outs, loc_of(A, q + '.__init__'))
    # formula files
    A = analysis(raises=False)
    refused(A, ('imp.load_source',))
    q = 'ipkg.build.Formula.from_file'
    st = text_of(A, A.fresh(), 'path')
    judge_errors(R, A, q, A.run(st, q, [sym('cls'), sym('path')]), loc_of(A, q), [('imp.load_source',)])
    # archives of sources
    A = analysis(raises=False)
    refused(A, ('tarfile.open', 'zipfile.ZipFile'))
    q = 'ipkg.utils.unarchive'
    # C07 judges the members
    A.opaque |= {'ipkg.utils.execute', 'ipkg.utils.which', 'ipkg.utils.check_tar_members',
                 'ipkg.utils.check_relative_path'}
    judge_errors(R, A, q, A.run(A.fresh(), q, [sym('file'), sym('target')]), loc_of(A, q),
                 [('tarfile.open',), ('zipfile.ZipFile',)])
    # URLs
    A = analysis(raises=False)
    q = 'ipkg.files.vopen'
    judge_errors(R, A, q, A.run(text_of(A, A.fresh(), 'url'), q, [sym('url')]), loc_of(A, q))


def c23(R):
    R.rule('names', 'every name, attribute of a module and attribute of itself that a function mentions exists; '
           'formats and calls have the values they need')
    R.rule('own', 'what a raise statement raises is one of the errors of ipkg, unless it is caught on the spot or '
           'reports a value of a wrong type')
    R.rule('malformed', 'input that the reader of a library refuses is reported by one of the errors of ipkg')
    A = analysis(raises=False)
    n = 0
    for m, (tree, path) in sorted(A.src.items()):
        N_ = Names(R, A, m, tree)
        N_.run()
        n += N_.total
    R.ob('names', 'names', n > 500, None, 'only %d names' % n)
    k = attributes(R, A)
    s = of_self(R, A)
    f = formats(R, A)
    c = arity(R, A)
    l = locals_set(R)
    r = raise_sites(R, A)
    R.notes.append('%d names, %d attributes of modules, %d attributes of self, %d formats, %d calls, %d raise '
                   'statements' % (n, k, s, f, c, r))
    R.paths += n + k + s + f + c + r
    R.functions |= set(x.qual for x in A.funcs.values())
    R.ob('own', 'raise statements', r > 20, None, 'only %d raise statements' % r)
    malformed(R)


CHECKS = {'C23': c23}
