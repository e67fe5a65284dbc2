"""Regular expressions as languages: deciding whether two patterns found in the
source accept the same strings (over all strings, not samples), by comparing
the automata of both.  Python 2 semantics; groups only matter for structure."""
import re
try:
    from re import _parser as sre_parse, _constants as K
except ImportError:         # before Python 3.11
    import sre_parse
    import sre_constants as K


class Unsupported(Exception):
    pass


def parse(pattern, flags=0):
    return sre_parse.parse(pattern, flags | re.ASCII)


class NFA(object):
    """states are integers; edges by predicate on a character class"""

    def __init__(self):
        self.n = 0
        self.eps = {}
        self.edges = []     # (from, set of characters or (negated, set), to)
        self.cond = {}      # state -> list of (assertion, to)

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, set()).add(b)


CATS = {
    K.CATEGORY_DIGIT: '[0-9]', K.CATEGORY_NOT_DIGIT: '[^0-9]',
    K.CATEGORY_WORD: '[A-Za-z0-9_]', K.CATEGORY_NOT_WORD: '[^A-Za-z0-9_]',
    K.CATEGORY_SPACE: '[ \\t\\n\\r\\f\\v]', K.CATEGORY_NOT_SPACE: '[^ \\t\\n\\r\\f\\v]',
}
DIGIT = frozenset('0123456789')
WORD = frozenset('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')
SPACE = frozenset(' \t\n\r\f\v')
ALPHABET = frozenset(chr(i) for i in range(256))


def cat(c):
    return {K.CATEGORY_DIGIT: DIGIT, K.CATEGORY_NOT_DIGIT: ALPHABET - DIGIT, K.CATEGORY_WORD: WORD,
            K.CATEGORY_NOT_WORD: ALPHABET - WORD, K.CATEGORY_SPACE: SPACE,
            K.CATEGORY_NOT_SPACE: ALPHABET - SPACE}[c]


def chars_of(items, flags):
    neg = False
    s = set()
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            s.add(chr(av))
        elif op is K.RANGE:
            s |= {chr(i) for i in range(av[0], av[1] + 1)}
        elif op is K.CATEGORY:
            s |= cat(av)
        else:
            raise Unsupported(str(op))
    if flags & re.I:
        s |= {c.lower() for c in s} | {c.upper() for c in s}
    s = frozenset(s) & ALPHABET
    return ALPHABET - s if neg else s


def build(nfa, tree, flags, a):
    """add the tree after state a; the state after it"""
    for op, av in tree:
        b = nfa.new()
        if op is K.LITERAL:
            nfa.edges.append((a, chars_of([(op, av)], flags), b))
        elif op is K.NOT_LITERAL:
            nfa.edges.append((a, ALPHABET - chars_of([(K.LITERAL, av)], flags), b))
        elif op is K.ANY:
            nfa.edges.append((a, ALPHABET if flags & re.S else ALPHABET - {'\n'}, b))
        elif op is K.IN:
            nfa.edges.append((a, chars_of(av, flags), b))
        elif op is K.BRANCH:
            for t in av[1]:
                nfa.e(build(nfa, t, flags, a), b)
        elif op is K.SUBPATTERN:
            nfa.e(build(nfa, av[-1], flags, a), b)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, t = av
            x = a
            for _ in range(lo):
                x = build(nfa, t, flags, x)
            if hi is K.MAXREPEAT or hi == K.MAXREPEAT:
                h = nfa.new()
                nfa.e(x, h)
                nfa.e(build(nfa, t, flags, h), h)
                nfa.e(h, b)
            else:
                nfa.e(x, b)
                for _ in range(hi - lo):
                    x = build(nfa, t, flags, x)
                    nfa.e(x, b)
        elif op is K.AT:
            nfa.cond.setdefault(a, []).append((av, b))
        else:
            raise Unsupported(str(op))
        a = b
    return a


def automaton(pattern, flags=0, how='match'):
    """(nfa, start, accept): the strings s for which re.<how>(pattern, s)"""
    p = parse(pattern, flags)
    flags = p.state.flags
    nfa = NFA()
    s = nfa.new()
    a = s
    if how == 'search':
        nfa.edges.append((s, ALPHABET, s))
        a = nfa.new()
        nfa.e(s, a)
    end = build(nfa, p, flags, a)
    if how != 'fullmatch':
        z = nfa.new()
        nfa.e(end, z)
        nfa.edges.append((z, ALPHABET, z))
        end = z
    return nfa, s, end, flags


class DFA(object):

    def __init__(self, auto):
        self.nfa, self.s, self.z, self.flags = auto
        self.ml = bool(self.flags & re.M)
        self.by = {}
        for x, cs, y in self.nfa.edges:
            self.by.setdefault(x, []).append((cs, y))
        self.cache = {}

    def closure(self, states, first, last=None):
        """last: None in the middle, 'end' when nothing follows, 'nl' when a
        final newline follows"""
        todo = list(states)
        seen = set(states)
        while todo:
            x = todo.pop()
            ys = set(self.nfa.eps.get(x, ()))
            for c, y in self.nfa.cond.get(x, ()):
                if c in (K.AT_BEGINNING, K.AT_BEGINNING_STRING) and first:
                    ys.add(y)
                elif c is K.AT_END and last in ('end', 'nl'):
                    ys.add(y)
                elif c is K.AT_END_STRING and last == 'end':
                    ys.add(y)
                elif c not in (K.AT_BEGINNING, K.AT_BEGINNING_STRING, K.AT_END, K.AT_END_STRING) or \
                        self.ml and c in (K.AT_BEGINNING, K.AT_END):
                    raise Unsupported(str(c))
            for y in ys - seen:
                seen.add(y)
                todo.append(y)
        return frozenset(seen)

    def start(self):
        return (frozenset([self.s]), True)

    def step(self, q, ch):
        k = (q, ch)
        if k not in self.cache:
            st = self.closure(q[0], q[1])
            self.cache[k] = (frozenset(y for x in st for cs, y in self.by.get(x, ()) if ch in cs), False)
        return self.cache[k]

    def accepts(self, q):
        """accepts when the string ends here"""
        return self.z in self.closure(q[0], q[1], 'end')

    def accepts_nl(self, q):
        """accepts when exactly one newline follows"""
        st = self.closure(q[0], q[1], 'nl')
        st2 = frozenset(y for x in st for cs, y in self.by.get(x, ()) if '\n' in cs)
        return self.z in self.closure(st2, False, 'end') or self.z in st


def classes(*nfas):
    """representatives of the characters no edge tells apart"""
    sets = {cs for n in nfas for x, cs, y in n.edges} | {frozenset('\n')}
    parts = {}
    for c in sorted(ALPHABET):
        parts.setdefault(tuple(c in s for s in sorted(sets, key=sorted)), c)
    return sorted(parts.values())


def difference(p1, p2, newline=False):
    """a string that exactly one of two (pattern, flags, how) accepts, or None.
    newline=False: strings without newlines."""
    a, b = automaton(*p1), automaton(*p2)
    A, B = DFA(a), DFA(b)
    alpha = [c for c in classes(a[0], b[0]) if newline or c != '\n']
    todo = [(A.start(), B.start(), '')]
    seen = {todo[0][:2]}
    while todo:
        x, y, w = todo.pop(0)
        if A.accepts(x) != B.accepts(y):
            return w
        if newline and A.accepts_nl(x) != B.accepts_nl(y):
            return w + '\n'
        for c in alpha:
            k = (A.step(x, c), B.step(y, c))
            if k not in seen:
                seen.add(k)
                if len(seen) > 20000:
                    raise Unsupported('too many states')
                todo.append(k + (w + c,))
    return None


def included(p1, p2, newline=False):
    """a string that the first accepts and the second does not, or None"""
    a, b = automaton(*p1), automaton(*p2)
    A, B = DFA(a), DFA(b)
    alpha = [c for c in classes(a[0], b[0]) if newline or c != '\n']
    todo = [(A.start(), B.start(), '')]
    seen = {todo[0][:2]}
    while todo:
        x, y, w = todo.pop(0)
        if A.accepts(x) and not B.accepts(y):
            return w
        for c in alpha:
            k = (A.step(x, c), B.step(y, c))
            if k not in seen:
                seen.add(k)
                if len(seen) > 20000:
                    raise Unsupported('too many states')
                todo.append(k + (w + c,))
    return None


def intersects(p1, p2, newline=False):
    """a string that both accept, or None"""
    a, b = automaton(*p1), automaton(*p2)
    A, B = DFA(a), DFA(b)
    alpha = [c for c in classes(a[0], b[0]) if newline or c != '\n']
    todo = [(A.start(), B.start(), '')]
    seen = {todo[0][:2]}
    while todo:
        x, y, w = todo.pop(0)
        if A.accepts(x) and B.accepts(y):
            return w
        for c in alpha:
            k = (A.step(x, c), B.step(y, c))
            if k not in seen and k[0][0] and k[1][0]:
                seen.add(k)
                if len(seen) > 20000:
                    raise Unsupported('too many states')
                todo.append(k + (w + c,))
    return None


def accepts(p, s):
    D = DFA(automaton(*p))
    q = D.start()
    for c in s:
        q = D.step(q, c)
    return D.accepts(q)


def of_term(t):
    """((pattern, flags, how), subject) of a match term, or None"""
    if t[0] != 'call':
        return None
    f, args = t[1], t[2]
    how = f.rsplit('.', 1)[-1]
    if how not in ('match', 'search', 'fullmatch'):
        return None
    if f.startswith('.') and len(args) == 2 and args[0][0] == 'call' and args[0][1] == 're.compile':
        c, subj = args[0], args[1]
        pat = c[2][0]
        fl = c[2][1] if len(c[2]) > 1 else dict(c[3]).get('flags')
    elif f.startswith('re.') and len(args) in (2, 3):
        pat, subj = args[0], args[1]
        fl = args[2] if len(args) > 2 else dict(t[3]).get('flags')
    else:
        return None
    if pat[0] != 'c' or pat[1] != 'str':
        return None
    n = flags_of(fl)
    return None if n is None else ((pat[2], n, how), subj)


def flags_of(fl):
    if fl is None:
        return 0
    if fl[0] == 'c':
        return fl[2] if isinstance(fl[2], int) else None
    if fl[0] == 'ext' and fl[1].startswith('re.'):
        v = getattr(re, fl[1][3:], None)
        return int(v) if v is not None else None
    if fl[0] == 'call' and fl[1] == '|':
        a, b = [flags_of(x) for x in fl[2]]
        return None if a is None or b is None else a | b
    return None


# ---------------------------------------------------- exponential backtracking

def walks(nfa, a):
    """the ways from state a to the next character: [(index of the edge, way)], a way using no empty edge twice;
    and whether the end of the pattern can be reached without an assertion"""
    out, free = [], set()
    succ = {}
    for x in list(nfa.eps):
        succ.setdefault(x, []).extend((y, False) for y in nfa.eps[x])
    for x, l in nfa.cond.items():
        succ.setdefault(x, []).extend((y, True) for _, y in l)
    starts = {}
    for i, (x, cs, y) in enumerate(nfa.edges):
        starts.setdefault(x, []).append(i)
    stack = [(a, (), False)]
    steps = 0
    count = {}
    while stack:
        steps += 1
        if steps > 200000:
            raise Unsupported('too many ways')
        x, used, checked = stack.pop()
        if not checked:
            free.add(x)
        for i in starts.get(x, ()):
            # two ways are enough
            if count.get(i, 0) < 2:
                count[i] = count.get(i, 0) + 1
                out.append((i, used))
        for y, c in succ.get(x, ()):
            if (x, y) not in used:
                stack.append((y, used + ((x, y),), checked or c))
    return out, free


def ambiguous(pattern, flags=0):
    """a character set which can be read over and over in more than one way, before something that can fail: the
    time to find out grows exponentially with the length of the text; None if there is none"""
    nfa, s, end, fl = automaton(pattern, flags, 'fullmatch')
    moves, free = {}, {}
    states = {s} | {y for _, _, y in nfa.edges}
    for q in states:
        w, free[q] = walks(nfa, q)
        moves[q] = [(nfa.edges[i][1], nfa.edges[i][2], (i, used)) for i, used in w]
    for q in sorted(states):
        if end in free[q]:
            continue        # the text matches here: nothing is tried again
        seen = set()
        todo = [(q, q, False, frozenset())]
        while todo:
            p, r, apart, cs = todo.pop()
            for c1, y1, m1 in moves[p]:
                for c2, y2, m2 in moves[r]:
                    common = c1 & c2
                    if not common:
                        continue
                    d = apart or m1 != m2
                    if d and y1 == y2 == q:
                        return ''.join(sorted(common)[:3])
                    k = (y1, y2, d)
                    if k not in seen:
                        seen.add(k)
                        todo.append((y1, y2, d, common))
    return None
