"""Running the analysis for an entry point, and looking at its outcomes."""
import sys
from .pyast import load, AnalysisError, REPO
from .terms import *
from .terms import Ev
from .state import *
from .state import St, L, D, I, F
from .absint import Interp, Cx

sys.setrecursionlimit(30000)


class Outcome(object):
    """One class of executions: how it ends, under which conditions, with
    which effects in which order."""

    def __init__(self, st, kind, val, interp):
        self.st, self.kind, self.val, self.interp = st, kind, val, interp
        self.events = st.events()

    @property
    def ok(self):
        return self.kind == 'v'

    def exc(self):
        return self.interp.exc_class(self.st, self.val) if self.kind == 'x' else None

    def exc_is(self, *names):
        m = self.interp.exc_mro(self.exc())
        return any(n in m for n in names)

    def ret(self):
        return self.st.freeze(self.val)

    def calls(self, *names):
        return [e for e in self.events if e.kind == 'call' and (not names or e.name in names)]

    def flat(self):
        return list(flatten(self.events))

    def describe(self):
        c = sorted('%s%s' % ('' if p else 'not ', show(a)) for a, p in self.st.path)
        return 'if ' + ' and '.join(c) if c else 'always'

    def __repr__(self):
        return '<%s %s | %s | %s>' % (self.kind, show(self.val), self.describe(), self.events)


def flatten(events):
    """all events, those of completed loop iterations included (an iteration
    that ends the loop is an outcome of its own, with its own events)"""
    for e in events:
        if e.kind == 'loop':
            yield e
            for r in e.kw:
                if r[0] == 'next':
                    for x in flatten(r[2]):
                        yield x
        else:
            yield e


class Analysis(Interp):

    def value(self, qual):
        """the function, method or class of a dotted name"""
        if qual in self.classes:
            return ('cls', qual)
        parts = qual.split('.')
        for i in range(len(parts) - 1, 0, -1):
            m = '.'.join(parts[:i])
            if m in self.modframe:
                v = self.base[self.modframe[m]].vars.get(parts[i])
                if v is None:
                    raise AnalysisError('anchor %s does not exist' % qual)
                for a in parts[i + 1:]:
                    if v[0] != 'cls':
                        raise AnalysisError('anchor %s does not exist' % qual)
                    w = self.find_method(v[1], a) or self.find_method(
                        v[1], '_%s%s' % (v[1].rsplit('.', 1)[1].lstrip('_'), a))
                    if w is None:
                        raise AnalysisError('anchor %s does not exist' % qual)
                    v = w
                return v
        raise AnalysisError('anchor %s does not exist' % qual)

    def func_node(self, qual):
        v = self.value(qual)
        while v[0] in ('cmeth', 'smeth', 'prop'):
            v = v[1]
        if v[0] != 'func':
            raise AnalysisError('anchor %s is not a function' % qual)
        return self.funcs[v[1]].node

    def cx(self, st, keep=(), module=None):
        ref = st.new(F({'<keep%d>' % i: v for i, v in enumerate(keep)}, None))
        return Cx(frame=ref[1], module=module or sorted(self.src)[0], cls=None, fn=None, stack=(),
                  frames=(), catch=(), exc=None, globals=frozenset())

    NODE = None

    def node(self):
        if self.NODE is None:
            from .pyast import N
            Analysis.NODE = N('Pass', {}, 0, 0, '<entry>')
        return self.NODE

    def run(self, st, f, args=(), kw=(), keep=(), module=None):
        """outcomes of calling f"""
        if isinstance(f, str):
            f = self.value(f)
        cx = self.cx(st, list(args) + [v for k, v in kw] + [f] + list(keep), module)
        return [Outcome(s, k, v, self) for s, k, v in
                self.call(st, f, list(args), list(kw), [], cx, self.node())]

    def method(self, st, obj, name, args=(), kw=(), keep=()):
        cx = self.cx(st, [obj] + list(args) + list(keep))
        out = []
        for s, k, m in self.getattr_(st, obj, name, cx, self.node()):
            if k == 'x':
                out.append(Outcome(s, k, m, self))
                continue
            out += [Outcome(s2, k2, v2, self) for s2, k2, v2 in
                    self.call(s, m, list(args), list(kw), [], cx, self.node())]
        return out

    def new(self, st, qual, args=(), kw=()):
        """an instance made by the class's own constructor: one per outcome"""
        return [o for o in self.run(st, self.value(qual), args, kw)]

    def quiet(self, f):
        """run f without exceptional paths of library calls"""
        r = self.raises
        self.raises = False
        try:
            return f()
        finally:
            self.raises = r


def analysis(opaque=(), raises=True, **kw):
    mods, digest = load()
    a = Analysis(mods, opaque=opaque, raises=raises, **kw)
    a.digest = digest
    return a
