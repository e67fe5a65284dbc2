"""Front end: Python 2.7 syntax trees of /repo's current source.

The repository is Python 2 (octal literals, print statements), so the trees
come from the parser of the Jython that builds it.  Files are parsed, never
imported or run."""
import hashlib, json, os, subprocess, sys, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(os.path.dirname(HERE), '.cache')


class AnalysisError(Exception):
    """The analysis cannot be carried out (not a verdict)."""


class N(object):
    """A syntax tree node."""
    __slots__ = ('t', 'f', 'line', 'col', 'file', 'uid')
    count = 0

    def __init__(self, t, f, line, col, file):
        self.t, self.f, self.line, self.col, self.file = t, f, line, col, file
        N.count += 1
        self.uid = N.count

    def __getattr__(self, k):
        try:
            return self.f[k]
        except KeyError:
            raise AttributeError('%s has no %s' % (self.t, k))

    def get(self, k, d=None):
        return self.f.get(k, d)

    def __repr__(self):
        return '<%s %s:%s>' % (self.t, self.file, self.line)

    def walk(self):
        yield self
        for v in self.f.values():
            if isinstance(v, N):
                for x in v.walk():
                    yield x
            elif isinstance(v, list):
                for e in v:
                    if isinstance(e, N):
                        for x in e.walk():
                            yield x


class U(str):
    """A unicode literal."""


def build(x, file, line=0, col=0):
    if isinstance(x, dict):
        if '_u' in x:
            return U(x['_u'])
        if '_f' in x:
            return float(x['_f'])
        if '_o' in x:
            return x['_o']
        line, col = x.get('l', line), x.get('c', col)
        return N(x['_'], {k: build(v, file, line, col) for k, v in x.items()
                          if k not in ('_', 'l', 'c')}, line, col, file)
    if isinstance(x, list):
        return [build(e, file, line, col) for e in x]
    return x


def same_tree(a, b):
    """equal but for positions"""
    if isinstance(a, N):
        return isinstance(b, N) and a.t == b.t and a.f.keys() == b.f.keys() and all(
            same_tree(v, b.f[k]) for k, v in a.f.items())
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same_tree(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def continues(stmts):
    """a continue of the loop whose body this is"""
    for s in stmts:
        if s.t == 'Continue':
            return True
        if s.t in ('For', 'While', 'FunctionDef', 'ClassDef'):
            if continues(s.get('orelse') or []):
                return True
            continue
        for v in s.f.values():
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, N) and x.t == 'ExceptHandler':
                    if continues(x.body):
                        return True
                elif isinstance(x, N) and isinstance(v, list) and continues([x]):
                    return True
    return False


def normal(x):
    """Loops that read until a value comes, in one form:

        for v in iter(f, end): B    while True: v = f()
                                        if v == end: break
                                        B
        v = E; while T: B; v = E    while True: v = E
                                        if not T: break
                                        B

    and adding to a set what it does not hold:

        if v not in s: s.add(v)     s.add(v)

    and removing what a condition holds for:

        for v in list(s):           s.__keep__([v for v in list(s) if not C])
            if C: s.remove(v)
    """
    if isinstance(x, list):
        for y in x:
            normal(y)
        i = 0
        while i < len(x):
            n = x[i]
            if isinstance(n, N) and n.t == 'If' and not n.orelse and len(n.body) == 1 and \
                    n.test.t == 'Compare' and len(n.test.ops) == 1 and n.test.ops[0].t == 'NotIn' and \
                    n.body[0].t == 'Expr' and n.body[0].value.t == 'Call' and \
                    n.body[0].value.func.t == 'Attribute' and n.body[0].value.func.attr == 'add' and \
                    len(n.body[0].value.args) == 1 and not n.body[0].value.get('keywords') and \
                    same_tree(n.body[0].value.args[0], n.test.left) and \
                    same_tree(n.body[0].value.func.value, n.test.comparators[0]):
                n = x[i] = n.body[0]
            r = removal(n)
            if r is not None:
                n = x[i] = r
            if isinstance(n, N) and n.t == 'For' and not n.orelse and n.iter.t == 'Call' and \
                    n.iter.func.t == 'Name' and n.iter.func.id == 'iter' and len(n.iter.args) == 2:
                f, end = n.iter.args
                mk = lambda t, **kw: N(t, kw, n.line, n.col, n.file)
                if f.t == 'Lambda':
                    read = f.body
                elif f.t == 'Call' and f.func.get('id', f.func.get('attr')) == 'partial' and f.args:
                    read = N('Call', dict(f.f, func=f.args[0], args=f.args[1:]), n.line, n.col, n.file)
                else:
                    read = mk('Call', func=f, args=[], keywords=[], starargs=None, kwargs=None)
                if n.target.t == 'Name':
                    var = mk('Name', id=n.target.id, ctx=mk('Load'))
                    test = mk('Compare', left=var, ops=[mk('Eq')], comparators=[end])
                    x[i] = mk('While', test=mk('Name', id='True', ctx=mk('Load')), orelse=[], body=[
                        mk('Assign', targets=[n.target], value=read),
                        mk('If', test=test, body=[mk('Break')], orelse=[])] + n.body)
            if i and isinstance(n, N) and n.t == 'While' and not n.orelse and len(n.body) > 1 and \
                    n.body[-1].t == 'Assign' and isinstance(x[i - 1], N) and same_tree(n.body[-1], x[i - 1]) and \
                    not continues(n.body):
                mk = lambda t, **kw: N(t, kw, n.line, n.col, n.file)
                out = mk('If', test=mk('UnaryOp', op=mk('Not'), operand=n.test), body=[mk('Break')], orelse=[])
                x[i - 1:i + 1] = [mk('While', test=mk('Name', id='True', ctx=mk('Load')), orelse=[],
                                     body=[x[i - 1], out] + n.body[:-1])]
                continue
            i += 1
    elif isinstance(x, N):
        for v in x.f.values():
            if isinstance(v, (N, list)):
                normal(v)
    return x


def removal(n):
    if not isinstance(n, N) or n.t != 'For' or n.orelse or n.target.t != 'Name' or len(n.body) != 1:
        return None
    b = n.body[0]
    if b.t != 'If' or b.orelse or len(b.body) != 1 or b.body[0].t != 'Expr' or b.body[0].value.t != 'Call':
        return None
    c = b.body[0].value
    if c.func.t != 'Attribute' or c.func.attr not in ('remove', 'discard') or len(c.args) != 1 or \
            c.get('keywords') or c.args[0].t != 'Name' or c.args[0].id != n.target.id:
        return None
    it = n.iter
    if it.t == 'Call' and it.func.t == 'Name' and it.func.id in ('list', 'set', 'tuple', 'sorted', 'frozenset') and \
            len(it.args) == 1 and not it.get('keywords'):
        src = it.args[0]
    elif it.t == 'Call' and it.func.t == 'Attribute' and it.func.attr == 'copy' and not it.args:
        src = it.func.value
    else:
        return None
    if not same_tree(src, c.func.value):
        return None
    mk = lambda t, **kw: N(t, kw, n.line, n.col, n.file)
    no = mk('UnaryOp', op=mk('Not'), operand=b.test)
    var = mk('Name', id=n.target.id, ctx=mk('Load'))
    kept = mk('ListComp', elt=var, generators=[mk('comprehension', target=n.target, iter=it, ifs=[no])])
    return mk('Expr', value=N('Call', dict(c.f, func=mk('Attribute', value=c.func.value, attr='__keep__', ctx=mk('Load')),
                                           args=[kept]), c.line, c.col, c.file))


def repo_files(repo):
    out = []
    for dirpath, dirs, names in os.walk(os.path.join(repo, 'ipkg')):
        dirs.sort()
        for n in sorted(names):
            if n.endswith('.py'):
                out.append(os.path.relpath(os.path.join(dirpath, n), repo))
    for n in ('setup.py', '__main__.py'):
        if os.path.exists(os.path.join(repo, n)):
            out.append(n)
    return out


def jython():
    env = dict(os.environ, HOME='/root', LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC',
               PATH='/bin:/usr/bin:/usr/sbin:/sbin', PYTHONDONTWRITEBYTECODE='1')
    for k in ('PYTHONPATH', 'JAVA_HOME', 'JYTHON_HOME', 'CLASSPATH', 'JYTHONPATH'):
        env.pop(k, None)
    cmd = ['java', '-Xss16m', '-Xshare:auto', '-XX:TieredStopAtLevel=1', '-XX:+UseSerialGC',
           '-jar', '/usr/share/java/jython.jar', '-Dpython.home=/usr/share/jython',
           '-Dpython.executable=/usr/bin/jython', '-Dpython.cachedir.skip=true', '-B']
    return cmd, env


def load(repo=None):
    """{relative path: Module node}, digest"""
    repo = repo or REPO
    files = repo_files(repo)
    h = hashlib.sha256(open(os.path.join(HERE, 'dump_ast.py'), 'rb').read())
    for p in files:
        h.update(p.encode() + b'\0')
        h.update(hashlib.sha256(open(os.path.join(repo, p), 'rb').read()).digest())
    digest = h.hexdigest()
    cached = os.path.join(CACHE, digest + '.json')
    if os.path.exists(cached) and not os.environ.get('VERIF_NOCACHE'):
        data = json.load(open(cached))
    else:
        cmd, env = jython()
        fd, out = tempfile.mkstemp(prefix='ipkg-ast-')
        os.close(fd)
        try:
            r = subprocess.run(cmd + [os.path.join(HERE, 'dump_ast.py'), out, repo] + files,
                               env=env, capture_output=True, text=True, timeout=300,
                               stdin=subprocess.DEVNULL)
            try:
                data = json.load(open(out))
            except ValueError:
                raise AnalysisError('the parser failed: ' + r.stderr[-2000:])
        finally:
            os.unlink(out)
        try:
            os.makedirs(CACHE, exist_ok=True)
            tmp = cached + '.%d' % os.getpid()
            json.dump(data, open(tmp, 'w'))
            os.rename(tmp, cached)
        except OSError:
            pass
    mods = {}
    for p in files:
        if data[p]['_'] == 'SyntaxError':
            raise AnalysisError('%s does not parse: %s' % (p, data[p]['msg']))
        mods[p] = normal(build(data[p], p))
    return mods, digest


if __name__ == '__main__':
    m, d = load()
    print(d, {k: sum(1 for _ in v.walk()) for k, v in m.items()})
