"""C42: texts are read in less than exponential time"""
from .base import *
from engine import rx

HOWS = ('compile', 'match', 'search', 'split', 'sub', 'subn', 'findall', 'finditer', 'fullmatch')


def names_of_re(tree):
    """local names of the module re and of its functions"""
    mods, funs = set(), {}
    for n in tree.walk():
        if n.t == 'Import':
            for a in n.names:
                if a.get('name') == 're':
                    mods.add(a.get('asname') or 're')
        elif n.t == 'ImportFrom' and n.module == 're':
            for a in n.names:
                if a.get('name') in HOWS:
                    funs[a.get('asname') or a.get('name')] = a.get('name')
    return mods, funs


def uses(tree):
    """(function of re, call)"""
    mods, funs = names_of_re(tree)
    for n in tree.walk():
        if n.t == 'Call':
            f = n.func
            if f.t == 'Attribute' and f.value.t == 'Name' and f.value.id in mods and f.attr in HOWS:
                yield f.attr, n
            elif f.t == 'Name' and f.id in funs:
                yield funs[f.id], n


def value(A, st, m, node):
    """the constant an expression is, or None"""
    cx = A.cx(st, module=m)
    try:
        got = A.ev(node, st.copy(), cx)
    except AnalysisError:
        return None
    vals = set(v for s, k, v in got if k == 'v')
    return vals.pop() if len(vals) == 1 and len(got) == 1 else None


def c42(R):
    R.rule('exponential', 'no pattern can read the same characters over and over in more than one way before it fails')
    A = analysis(raises=False)
    n = unknown = 0
    st = A.fresh()
    for m, (tree, path) in sorted(A.src.items()):
        R.functions.add(m)
        for how, c in uses(tree):
            args = {('pattern', 'flags')[i] if how == 'compile' else str(i): a for i, a in enumerate(c.args)}
            args.update({k.arg: k.value for k in c.keywords})
            p = args.get('pattern', args.get('0'))
            fl = args.get('flags')
            if fl is None and how in ('match', 'search', 'fullmatch', 'findall', 'finditer'):
                fl = args.get('2')
            pat = value(A, st, m, p) if p is not None else None
            flags = rx.flags_of(value(A, st, m, fl)) if fl is not None else 0
            where = (path, c.line)
            if pat is not None and pat[0] == 'call' and pat[1] == 're.compile':
                continue        # judged where it was compiled
            if pat is None or pat[0] != 'c' or not isinstance(pat[2], str) or flags is None:
                unknown += 1
                R.notes.append('%s:%s: this pattern is not constant' % where)
                continue
            n += 1
            try:
                bad = rx.ambiguous(pat[2], flags)
            except rx.Unsupported as e:
                R.notes.append('%s:%s: not decided: %s' % (where + (e,)))
                unknown += 1
                continue
            R.ob('exponential', 're.%s in %s' % (how, m), bad is None, where,
                 'a text of many %r may be read in exponentially many ways before it is refused: %r' % (
                     bad and bad[0], pat[2]))
    R.paths += n
    R.ob('exponential', 'patterns', n + unknown > 0, None, 'no pattern')


CHECKS = {'C42': c42}
