"""C09, C40 and the dispatch part of C08: rewriting the prefix of a file"""
from .base import *
from engine import rx

REWRITE = 'ipkg.prefix_rewriters.rewrite_prefix'
X, B, P = sym('file'), sym('build'), sym('prefix')
FILE = call('os.path.join', (P, X))
PKG = ('^lib(64)?/pkgconfig/[^/]+\\.pc$', 0, 'match')
LIB = ('^lib(64)?/[^/]+\\.la$', 0, 'match')
EITHER = ('^lib(64)?/(pkgconfig/[^/]+\\.pc|[^/]+\\.la)$', 0, 'match')

CASES = (('pkg-config file', PKG, None), ('libtool file', LIB, None),
         ('script', None, '#!' + 60 * 'x'), ('32 bit Mach-O', None, '\xce\xfa\xed\xfe' + 60 * '\x07'),
         ('64 bit Mach-O', None, '\xcf\xfa\xed\xfe' + 60 * '\x07'), ('other', None, 'abcd'),
         ('ELF', None, '\x7fELF'), ('empty', None, ''), ('hash', None, '#abc'))
STARTS = {'pkg-config file': 'prefix=', 'libtool file': 'libdir='}


def language(case, t):
    """does the file name of this case match the pattern of the term t"""
    m = rx.of_term(t)
    if m is None or strip(m[1]) != X:
        return None
    try:
        if case[1] is not None:
            if rx.included(case[1], m[0]) is None:
                return True
            return False if rx.intersects(case[1], m[0]) is None else None
        return False if rx.included(m[0], EITHER) is None else None
    except rx.Unsupported:
        return None


def valuation(case):
    memo = {}

    def val(a):
        if a in memo:
            return memo[a]
        r = None
        t, neg = a, False
        while t[0] in ('truth', 'not', 'isnone'):
            neg ^= t[0] in ('not', 'isnone')
            t = t[1]
        m = language(case, t) if cname(t) else None
        if m is not None:
            r = m != neg
        else:
            env = {}
            for s in subterms(a):
                if is_first(s) and case[2] is not None:
                    env[s] = case[2][:s[2][1][2]]
            if env:
                r = foldb(a, env)
        memo[a] = r
        return r
    return val


def is_first(s):
    """the first bytes of the file"""
    return isinstance(s, tuple) and cname(s) == '.read' and len(s[2]) == 2 and s[2][1][0] == 'c' and \
        cname(s[2][0]) in ('open', 'file') and strip(s[2][0][2][0]) == strip(FILE)


def run(R, raises=False):
    A = analysis(raises=raises)
    A.head_facts = True
    outs = A.run(A.fresh(), REWRITE, [X, B, P])
    R.saw(A, outs)
    return A, outs


def mode_of(e):
    m = e.args[1] if len(e.args) > 1 else dict(e.kw or ()).get('mode', const('r'))
    return m[2] if m[0] == 'c' else '?'


def opens(e):
    return e.kind == 'call' and e.name in ('open', 'file', 'io.open', 'codecs.open', 'os.fdopen')


def effect(e):
    """something that changes a file or runs a program"""
    if opens(e):
        return not (mode_of(e).startswith('r') and '+' not in mode_of(e))
    if e.kind != 'call' or not isinstance(e.name, str):
        return False
    if e.name.startswith('subprocess.') or e.name == 'ipkg.utils.execute':
        return True
    if e.name.startswith(('os.', 'shutil.')):
        return e.name.split('.')[-1] in (
            'chmod', 'rename', 'unlink', 'remove', 'rmdir', 'mkdir', 'makedirs', 'symlink', 'link', 'utime',
            'rmtree', 'move', 'copy', 'copyfile', 'copy2', 'system', 'popen', 'write', 'truncate', 'chown')
    return e.name in ('.write', '.writelines', '.truncate')


def written(o):
    """the file is written"""
    return [e for e in flatten(o.events) if opens(e) and effect(e)]


def starts_used(o):
    out = set()

    def look(path):
        for a, p in path:
            a = strip(a)
            if a[0] == 'truth' and cname(a[1]) == '.startswith' and a[1][2][1][0] == 'c' and \
                    not any(is_first(s) for s in subterms(a)):
                out.add(a[1][2][1][2])
    look(o.st.path)
    for e in flatten(o.events):
        if e.kind == 'loop':
            for r in e.kw:
                for p in rec_paths(r):
                    look(p)
    return out


def dispatch(R):
    A, outs = run(R)
    where = loc_of(A, REWRITE)
    for case in CASES:
        val = valuation(case)
        n = 0
        for o in outs:
            if consistent(o.st.path, val) is False:
                continue
            n += 1
            W = 'rewrite_prefix: ' + case[0]
            eff = [e for e in flatten(o.events) if effect(e)]
            if case[0] in STARTS:
                R.ob('dispatch', W, bool(written(o)) and not tool(o) and
                     starts_used(o) <= {STARTS[case[0]]}, where, 'goes elsewhere, ' + o.describe()[:300])
            elif case[0] == 'script':
                R.ob('dispatch', W, bool(written(o)) and not tool(o) and not starts_used(o), where,
                     'goes elsewhere, ' + o.describe()[:300])
            elif 'Mach-O' in case[0]:
                R.ob('dispatch', W, not written(o) and (not o.ok or bool(tool(o))), where,
                     'goes elsewhere, ' + o.describe()[:300])
            else:
                R.ob('dispatch', W, o.ok and not eff, where, 'is changed (%s), %s' % (eff[:1], o.describe()[:300]))
        R.ob('dispatch', 'rewrite_prefix: %s handled' % case[0], n > 0, where)


def tool(o):
    return [e for e in flatten(o.events) if e.kind == 'call' and e.name in ('subprocess.Popen', 'ipkg.utils.execute')
            and any(strip(t) == const('install_name_tool') for t in subterms(e.args[0]))]


# ------------------------------------------------------------ C09

class Lost(Exception):
    pass


class Content(object):
    """What was read from the file and what was written back, as segments of
    the original content: ('rest', T) everything from position T on, ('first',
    T) the line at T, ('upto', T) the lines from T to some later position.
    Positions: 'start', ('tail', T) after the line at T, ('some', T) later."""

    def __init__(self, o, begin):
        self.o = o
        self.begin = begin
        self.pos = {}           # reading handle -> position
        self.vals = {}          # value -> segment
        self.popped = {}
        self.out = []           # (segment, replaced)
        self.wpath = {}
        self.dest = None
        self.final = False
        self.replaced = []      # lines replaced
        self.renamed = None

    def path_ok(self, v):
        return strip(v) == strip(FILE)

    def toks(self, v):
        if v in self.vals:
            return list(self.vals[v])
        n = cname(v)
        if n == '.replace' and len(v[2]) == 3 and v[2][1:] == (B, P) or \
                n == '.join' and v[2][0] == P and cname(v[2][1]) == '.split' and v[2][1][2][1:] == (B,):
            t = self.toks(v[2][0] if n == '.replace' else v[2][1][2][0])
            if len(t) == 1 and not t[0][1]:
                return [(t[0][0], True)]
            raise Lost('several lines are replaced')
        if n == '.join' and v[2][0] == const('') and len(v[2]) == 2:
            return self.toks(v[2][1])
        if n == '+':
            return self.toks(v[2][0]) + self.toks(v[2][1])
        if n == '.pop' and v[2][0] in self.vals:
            return [(self.popped[v[2][0]], False)]
        if n == '.pop':
            for k in self.popped:
                if strip(k) == strip(v[2][0]):
                    return [(self.popped[k], False)]
        if n in ('iter', 'list', 'tuple') and len(v[2]) == 1:
            return self.toks(v[2][0])
        if v[0] in ('elem', 'wit') and ('at', strip(v[1])) in self.vals:
            return list(self.vals[('at', strip(v[1]))])
        if v[0] == 'item' and v[1] in self.vals and len(self.vals[v[1]]) == 1:
            (s, r), = self.vals[v[1]]
            if s[0] == 'rest' and v[2] == const(0):
                return [(('first', s[1]), r)]
        if n == 'slice' and v[2][0] in self.vals and v[2][1:] in (
                (const(1), NONE, NONE), (const(1), NONE)):
            (s, r), = self.vals[v[2][0]]
            if s[0] == 'rest':
                return [(('rest', ('tail', s[1])), r)]
        if n == '.splitlines' and dict(v[3]).get('keepends', v[2][1] if len(v[2]) > 1 else NONE) == TRUE:
            return self.toks(v[2][0])
        if v[0] == 'L':
            out = []
            for g in v[2]:
                if g[0] == 'one':
                    out += self.toks(g[1])
                elif g[0] == 'all' or g[1] == ('elem', g[3]) and not g[2]:
                    out += self.toks(g[1] if g[0] == 'all' else g[3])
                else:
                    raise Lost('unknown content %s' % show(v)[:200])
            return out
        if v == const(''):
            return []
        if v[0] == 'fmt':
            out = []
            for x in v[1]:
                if not isinstance(x, str):
                    out += self.toks(x[1])
                elif x:
                    raise Lost('%r is written' % x)
            return out
        raise Lost('unknown content %s is written' % show(v)[:200])

    def event(self, e, path):
        if opens(e):
            if self.path_ok(e.args[0]) and not effect(e):
                self.pos[e.res] = self.begin
            elif effect(e):
                self.dest = e.args[0]
                if '+' in mode_of(e) or 'a' in mode_of(e):
                    raise Lost('opened with mode %s' % mode_of(e))
                self.out = []
                self.wpath[e.res] = e.args[0]
                if self.path_ok(e.args[0]) and any(self.pos[h] == self.begin for h in self.pos) and not self.vals:
                    raise Lost('the file is truncated before it is read')
            return
        if e.kind == 'mut' and e.name == 'pop' and self.known(e.args[0]):
            v = self.known(e.args[0])
            (s, r), = self.vals[v]
            if len(e.args) > 1 and e.args[1] == const(0) and s[0] == 'rest' and not r:
                self.popped[v] = ('first', s[1])
                self.vals[v] = [(('rest', ('tail', s[1])), False)]
                return
            raise Lost('the lines are taken in another order')
        if e.kind in ('mut', 'setitem', 'delitem') and e.args and self.known(e.args[0]):
            v = self.known(e.args[0])
            if e.kind == 'setitem':
                (s, r), = self.vals[v]
                t = self.toks(e.args[2])
                k = strip(e.args[1])
                if len(t) == 1 and t[0][1]:
                    if k == const(0) and t[0][0] == ('first', s[1]):
                        self.vals[v] = [t[0], (('rest', ('tail', s[1])), False)]
                        return
                    if t[0][0] == ('first', ('some', s[1])) and (k[0] == 'call' and k[1] == 'index'):
                        self.vals[v] = [(('upto', s[1]), False), t[0], (('rest', ('tail', ('some', s[1]))), False)]
                        return
            raise Lost('the lines are changed: %s' % e)
        if e.kind != 'call':
            return
        if e.name in ('.readlines', '.read', '.xreadlines') and e.args[0] in self.pos:
            if len(e.args) > 1:
                self.pos[e.args[0]] = None
                return
            self.vals[e.res] = [(('rest', self.at(e.args[0])), False)]
            self.pos[e.args[0]] = 'end'
        elif e.name == '.readline' and e.args[0] in self.pos and len(e.args) > 1:
            self.pos[e.args[0]] = None      # part of a line
        elif e.name in ('.readline', '.next', 'next') and e.args[0] in self.pos:
            t = self.at(e.args[0])
            self.vals[e.res] = [(('first', t), False)]
            self.pos[e.args[0]] = ('tail', t)
        elif e.name == '.write' and e.args[0] in self.wpath:
            self.out += self.toks(e.args[1])
        elif e.name == '.writelines' and e.args[0] in self.wpath:
            v = e.args[1]
            if v in self.pos:
                self.out.append((('rest', self.at(v)), False))
                self.pos[v] = 'end'
            else:
                self.out += self.toks(v)
        elif e.name in ('os.rename', 'shutil.move', 'os.replace') and e.args[0] == self.dest:
            self.dest = e.args[1]
        elif e.name in ('.truncate', '.seek') and (e.args[0] in self.pos or e.args[0] in self.wpath):
            raise Lost(str(e))

    def known(self, v):
        if v in self.vals:
            return v
        for k in self.vals:
            if isinstance(k, tuple) and k[0] != 'at' and strip(k) == strip(v):
                return k
        return None

    def at(self, h):
        t = self.pos[h]
        if t in (None, 'end'):
            raise Lost('the content is read after something was skipped')
        return t


def source(C, coll):
    """(value or handle iterated, its segment)"""
    v = coll
    while True:
        if v in C.pos:
            return v, ('rest', C.at(v))
        k = C.known(v)
        if k is not None:
            if len(C.vals[k]) != 1:
                raise Lost('a loop over changed lines')
            return k, C.vals[k][0][0]
        if v[0] == 'L' and len(v[2]) == 1 and v[2][0][0] == 'all':
            v = v[2][0][1]
        elif v[0] == 'L' and len(v[2]) == 1 and v[2][0][0] == 'many':
            v = v[2][0][3]
        elif cname(v) in ('enumerate', 'iter', 'list', 'reversed', '.xreadlines', '.readlines') and \
                cname(v) != 'reversed' and len(v[2]) == 1:
            v = v[2][0]
        else:
            return None, None


def starts(path, line, start):
    """True/False/None: the line starts with start"""
    for f in (lambda x: x, strip):
        for a, p in path:
            if a[0] == 'truth' and cname(a[1]) == '.startswith' and f(a[1][2][0]) == f(line) and \
                    a[1][2][1] == const(start):
                return p
            if a[0] == 'cmp' and a[1] == '==' and cname(a[2]) == 'slice' and f(a[2][2][0]) == f(line) and \
                    a[3] == const(start):
                return p
    return None


def nonempty(path, v):
    v = strip(v)
    for a, p in path:
        a = strip(a)
        if a == ('truth', v) and p:
            return True
        if a[0] == 'cmp' and any(cname(x) == 'len' and x[2] == (v,) for x in a[2:]):
            r = consistent([(a, p)], lambda x: foldb(x, {call('len', (v,))[:4]: 0, call('len', (v,)): 0}))
            if r is False:
                return True
    return False


def iteration(R, C, e, start):
    """one loop of the rewriter: every iteration must keep its line"""
    coll = e.args[0]
    wh = coll[0] == 'while'
    if wh:
        # the lines taken off a list
        vs = [v for v in C.vals if v[0] != 'at' and len(C.vals[v]) == 1 and C.vals[v][0][0][0] == 'rest' and
              any(x.kind == 'mut' and x.name == 'pop' and strip(x.args[0]) == strip(v)
                  for r in e.kw for x in r[2])]
        hs = [h for h in C.pos if any(x.kind == 'call' and x.name in ('.readline', '.next', 'next') and x.args[0] == h
                                      for r in e.kw for x in r[2])]
        v, seg = (vs[0], C.vals[vs[0]][0][0]) if vs else (hs[0], ('rest', C.at(hs[0]))) if hs else (None, None)
    else:
        v, seg = source(C, coll)
    if v is None or seg[0] != 'rest':
        for r in e.kw:
            for x in r[2]:
                if x.kind == 'call' and x.name in ('.write', '.writelines') and x.args[0] in C.wpath:
                    raise Lost('a loop over something else writes')
        return
    T = seg[1]
    S = ('some', T)
    writes = False
    did = later = False
    for r in e.kw:
        if r[0] not in ('next', 'skip'):
            continue
        for p in rec_paths(r):
            D = Content(C.o, C.begin)
            D.pos, D.vals, D.wpath, D.dest = dict(C.pos), dict(C.vals), dict(C.wpath), C.dest
            line = None
            if wh:
                if v in D.pos:
                    D.pos[v] = S
                else:
                    D.vals[v] = [(('rest', S), False)]
            else:
                D.vals[('at', strip(coll))] = [(('first', S), False)]
                line = ('elem', coll)
                if cname(coll) is None and coll[0] == 'L' and coll[2][0][0] == 'many':
                    D.vals[('at', strip(coll[2][0][3]))] = [(('first', S), False)]
                inner = coll
                D.vals[('at', strip(v))] = [(('first', S), False)]
            for x in r[2]:
                if x.kind == 'loop':
                    raise Lost('a loop inside of a loop over the lines')
                D.event(x, p)
            lines = [strip(('elem', coll)), strip(('elem', v))]
            if wh:
                for x in r[2]:
                    if x.kind == 'mut' and x.name == 'pop' and x.args and strip(x.args[0]) == strip(v) and \
                            not nonempty(p, v):
                        raise Lost('a line is taken although there may be none')
                lines = [x.args[1] for x in r[2] if x.kind == 'call' and x.name == '.write'
                         and cname(x.args[1]) != '.replace'] + [
                    x.args[1][2][0] for x in r[2] if x.kind == 'call' and x.name == '.write'
                    and cname(x.args[1]) == '.replace']
            if D.out:
                writes = True
                if len(D.out) != 1 or D.out[0][0] != ('first', S):
                    raise Lost('an iteration writes %s' % (D.out,))
            if wh and v in D.vals and D.vals[v] != [(('rest', ('tail', S)), False)]:
                raise Lost('an iteration takes %s' % (D.vals[v],))
            hit = None
            if start:
                for l in lines:
                    h = starts(p, l, start)
                    hit = h if hit is None else hit
            if D.out and D.out[0][1]:
                did = True
                if start is None or hit is not True:
                    raise Lost('a line is replaced if %s' % (sorted(map(str, p)),))
            elif start and hit is True:
                raise Lost('a line starting with %s is not replaced' % start)
            elif start and hit is None:
                later = True
            if not D.out and wh:
                raise Lost('an iteration drops its line')
    if any(r[0] == 'next' for r in e.kw):
        outs = [bool(any(x.kind == 'call' and x.name == '.write' and x.args[0] in C.wpath for x in r[2]))
                for r in e.kw if r[0] == 'next']
        if len(set(outs)) > 1:
            raise Lost('some iterations write their line and others do not')
    if later and not did:
        raise Lost('lines are passed over without looking at them')
    if did and not later:
        raise Lost('every matching line is replaced, not the first one')
    if e.name == 'done':
        if writes:
            if wh:
                C.out.append((('upto', T), False))
                C.vals[v] = [(('rest', S), False)]
                if v not in C.pos and any(strip(a) == strip(('truth', v)) and not q for a, q in C.o.st.path):
                    C.out.append((('rest', S), False))
                    C.vals[v] = []
            else:
                C.out.append((('rest', T), False))
        if not wh and v in C.pos:
            if not writes:
                C.vals[coll] = [(seg, False)]
            C.pos[v] = 'end'
        if did:
            C.replaced.append('loop')
        C.scanned = True
    else:
        if writes:
            C.out.append((('upto', T), False))
        if wh:
            C.vals[v] = [(('rest', S), False)]
        else:
            if v in C.pos:
                C.pos[v] = ('tail', S)
            C.vals[('at', strip(coll))] = [(('first', S), False)]
            C.vals[('at', strip(v))] = [(('first', S), False)]
            if coll[0] == 'L' and coll[2][0][0] == 'many':
                C.vals[('at', strip(coll[2][0][3]))] = [(('first', S), False)]


def complete(out, T):
    """the segments are the content from T on, in order; the replaced ones"""
    rep = []
    while out:
        (s, r) = out.pop(0)
        if s[1] != T:
            return None
        if r:
            rep.append(s)
        if s[0] == 'rest':
            return None if out else rep
        T = ('tail', T) if s[0] == 'first' else ('some', T)
    return None


def c09(R):
    R.rule('all-content', 'on every path, what is written is the whole content of the file, line by line and in order')
    R.rule('right-line', 'only the first line of a script, the first line starting with prefix= or libdir= are '
           'changed, and these are')
    R.rule('prefix-only', 'the change is the replacement of every occurrence of the build prefix by the environment prefix')
    R.rule('no-failure', 'no content makes rewriting fail')
    A, outs = run(R)
    where = loc_of(A, REWRITE)
    for case in CASES[:3]:
        val = valuation(case)
        start = STARTS.get(case[0])
        n = 0
        W = 'rewrite_prefix: ' + case[0]
        for o in outs:
            if consistent(o.st.path, val) is False:
                continue
            R.ob('no-failure', W, o.ok, where, 'fails: %s' % o.exc())
            if not o.ok:
                continue
            n += 1
            C = Content(o, 'start')
            C.scanned = False
            try:
                for e in o.events:
                    if e.kind == 'loop':
                        iteration(R, C, e, start)
                    else:
                        C.event(e, o.st.path)
                empty = any(strip(('truth', v)) == strip(a) and not p for a, p in o.st.path for v in C.vals
                            if v[0] != 'at') and not C.scanned
                if not C.wpath and empty:
                    continue
                rep = complete(list(C.out), 'start')
                if rep is None and not C.out and empty:
                    continue
                R.ob('all-content', W, rep is not None and C.dest is not None and
                     strip(C.dest) == strip(FILE), where, 'writes %s to %s, %s' % (
                         C.out, show(C.dest) if C.dest else None, o.describe()[:200]))
                if rep is None:
                    continue
                if start is None:
                    R.ob('right-line', W, rep == [('first', 'start')] or not rep and empty, where,
                         'changes %s' % rep)
                else:
                    lines = set()
                    for e in o.events:
                        if e.kind == 'call' and e.name in ('.write', '.writelines') or e.kind == 'setitem':
                            for t in subterms(e.args[-1]):
                                if cname(t) == '.replace':
                                    lines.add(t[2][0])
                    if rep:
                        R.ob('right-line', W, len(rep) == 1 and all(
                            starts(o.st.path, l, start) is True for l in lines), where, 'changes %s' % rep)
                    else:
                        R.ob('right-line', W, C.scanned, where, 'nothing is changed and the lines were not looked at')
            except Lost as e:
                R.ob('all-content', W, False, where, '%s, %s' % (e, o.describe()[:200]))
        R.ob('all-content', W + ' is rewritten', n > 0, where)
    replacements(R, A, outs, where)


def replacements(R, A, outs, where):
    for o in outs:
        for e in flatten(o.events):
            if e.kind == 'call' and e.name in ('.write', '.writelines'):
                for t in subterms(e.args[1]) if len(e.args) > 1 else ():
                    if cname(t) == '.replace':
                        R.ob('prefix-only', 'rewrite_prefix', t[2][1:] == (B, P) and not t[3], e.loc,
                             'replaces %s' % show(t)[-200:])


# ------------------------------------------------------------ C40

def c40(R):
    R.rule('restored', 'however the rewriting of a Mach-O binary ends, the last successful change of the file\'s '
           'mode sets the mode it had at first, or there was none')
    R.rule('writable-untouched', 'the mode of a writable file is not changed')
    R.rule('made-writable', 'a read-only file is made writable before the tool runs')
    A, outs = run(R, raises=True)
    where = loc_of(A, REWRITE)
    n = m = 0
    W = 'rewrite_prefix: Mach-O'
    vals = [valuation(c) for c in CASES if 'Mach-O' in c[0]]
    for o in outs:
        if all(consistent(o.st.path, v) is False for v in vals):
            continue
        n += 1
        cur = None
        changed = False
        stats = None
        w = writable(o.st.path)
        evs = list(flatten(o.events))
        for i, e in enumerate(evs):
            if is_call(e, 'os.chmod') and strip(e.args[0]) == strip(FILE):
                m += 1
                mode = e.args[1]
                failed = i + 1 < len(evs) and evs[i + 1].kind == 'failed' and evs[i + 1].name == 'os.chmod'
                orig = original(mode, evs[:i])
                R.ob('writable-untouched', W, w is not True or orig, e.loc, 'the mode of a writable file is changed to %s' % show(mode))
                if failed:
                    # nothing more can be done if restoring fails
                    if orig:
                        cur = None
                    continue
                cur = None if orig else mode
        R.ob('restored', W, cur is None, where, 'the mode stays %s, %s' % (show(cur) if cur else '', o.describe()[:300]))
        for i, e in enumerate(evs):
            if e in tool(o):
                before = [x for x in evs[:i] if is_call(x, 'os.chmod')]
                R.ob('made-writable', W, w is True or any(adds_write(x.args[1]) for x in before), e.loc,
                     'the tool runs on a read-only file')
    R.ob('restored', W + ' changes modes', m > 0, where)


STAT = ('os.stat', 'os.lstat')


def original(mode, before):
    """the mode the file had before any change"""
    if cname(mode) == 'stat.S_IMODE':
        mode = mode[2][0]
    if mode[0] == 'item' and mode[2] == const(0) or mode[0] == 'item' and mode[2] == ('ext', 'stat.ST_MODE'):
        s = mode[1]
    elif mode[0] == 'attr' and mode[2] == 'st_mode':
        s = mode[1]
    else:
        return False
    if cname(s) not in STAT or strip(s[2][0]) != strip(FILE):
        return False
    return all(s != t for x in before if is_call(x, 'os.chmod') for t in ()) and fresh_stat(s, before)


def fresh_stat(s, before):
    """taken before the first change: the file system version of the value is
    that of the values used in the first change"""
    ks = [t[4] for x in before if is_call(x, 'os.chmod') for t in subterms(x.args[1])
          if cname(t) in STAT]
    return not ks or s[4] <= min(ks)


def adds_write(mode):
    return cname(mode) == '|' and any(
        t == ('ext', 'stat.S_IWRITE') or t == ('ext', 'stat.S_IWUSR') or t == const(0o200) for t in mode[2])


def writable(path):
    for a, p in path:
        neg = False
        while a[0] in ('not', 'truth'):
            neg ^= a[0] == 'not'
            a = a[1]
        a = strip(a)
        if cname(a) == '&' and any(cname(t) in STAT for t in subterms(a)) and \
                any(t in (('ext', 'stat.S_IWRITE'), ('ext', 'stat.S_IWUSR'), const(0o200)) for t in a[2]):
            return p != neg
        if cname(a) == 'os.access' and len(a[2]) == 2 and a[2][1] == ('ext', 'os.W_OK'):
            return p != neg
    return None


CHECKS = {'C09': c09, 'C40': c40}
