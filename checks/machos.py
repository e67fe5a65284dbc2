"""C47: the references of Mach-O binaries"""
from .base import *

REWRITE = 'ipkg.prefix_rewriters.rewrite_osx_bin'
EXECUTE = 'ipkg.utils.execute'
FILE, BUILD, INSTALL = sym('file'), sym('build'), sym('install')
RUNS = (EXECUTE, 'subprocess.Popen', 'subprocess.call', 'subprocess.check_call', 'subprocess.check_output')
LINE = '\t%s (compatibility version 1.0.0, current version 1.2.3)\n'
SYSTEM = '/usr/lib/libSystem.B.dylib'
# build prefix, environment prefix, the libraries a file refers to
WORLDS = [(b, i, libs) for b, i in (('/opt/build', '/home/me/env'), ('/b', '/env'), ('/opt/env/old', '/opt/env'),
                                    ('/opt/e', '/opt/e/new')) for libs in (
    [], [SYSTEM], [b + '/lib/libfoo.1.dylib'], [b + '/lib/libfoo.1.dylib', SYSTEM],
    [SYSTEM, b + '/lib/libfoo.1.dylib', b + '/lib/sub/libbar.dylib', '/usr/lib/libz.1.dylib'],
    [b + '/lib/libfoo.dylib', b + '/lib/libfoo.dylib.2'],
    ['@rpath/libfoo.dylib', 'libbar.dylib', b + '/lib/libfoo.dylib'],
    [b + '2/lib/libfoo.dylib', b + '/lib/libfoo.dylib'],
    [b + '/lib' + b + '/libfoo.dylib'],
    ['/other' + b + '/lib/libfoo.dylib'])]


def tool_args(t, env):
    """the words of a command"""
    t = strip(t)
    if t[0] == 'L':
        out, i, segs = [], 0, t[2]
        while i < len(segs):
            g = segs[i]
            if g[0] == 'one':
                out.append(fold(strip(g[1]), env))
                i += 1
                continue
            if g[0] == 'all':
                c = fold(strip(g[1]), env)
                if c is UNKNOWN:
                    return UNKNOWN
                out += list(c)
                i += 1
                continue
            # words added in one iteration stay together
            group = [g]
            while i + len(group) < len(segs) and segs[i + len(group)][0] == 'many' and \
                    segs[i + len(group)][2:] == g[2:]:
                group.append(segs[i + len(group)])
            coll = fold(strip(g[3]), env)
            if coll is UNKNOWN:
                return UNKNOWN
            for m in coll:
                e = dict(env)
                e['elem', strip(g[3])] = e['elem', g[3]] = m
                c = [(foldb(strip(a), e), p) for a, p in g[2]]
                if any(v is None for v, p in c):
                    return UNKNOWN
                if all(v == p for v, p in c):
                    out += [fold(strip(x[1]), e) for x in group]
            i += len(group)
        return out
    v = fold(t, env)
    return list(v) if isinstance(v, (list, tuple)) else v.split() if isinstance(v, str) else UNKNOWN


def model(t, env):
    f = cname(t)
    if f in RUNS and t[2]:
        w = tool_args(t[2][0], env)
        if w is not UNKNOWN and w and w[0] == 'otool' and w[-1] == env[FILE] and '-L' in w:
            return env['otool'] if f == 'subprocess.check_output' else (env['otool'], None)
        return UNKNOWN
    if f == '.communicate':
        return fold(t[2][0], env)
    if f == 'os.path.relpath' and len(t[2]) == 2:
        import posixpath
        r = [fold(x, env) for x in t[2]]
        return UNKNOWN if UNKNOWN in r else posixpath.relpath(*r)
    if f in ('.replace', '.splitlines', '.partition', '.rpartition', '.join', '.index', '.rsplit', '.isspace') and \
            not t[3]:
        r = [fold(x, env) for x in t[2]]
        if UNKNOWN in r or not isinstance(r[0], str):
            return UNKNOWN
        try:
            return getattr(r[0], f[1:])(*r[1:])
        except (TypeError, ValueError):
            return UNKNOWN
    if f == '+' and len(t[2]) == 2:
        r = [fold(x, env) for x in t[2]]
        try:
            return UNKNOWN if UNKNOWN in r else r[0] + r[1]
        except TypeError:
            return UNKNOWN
    if f == 'len' and len(t[2]) == 1:
        r = fold(t[2][0], env)
        return UNKNOWN if r is UNKNOWN else len(r)
    return UNKNOWN


def commands(events, env):
    """the words of the commands which are run, loops unrolled; UNKNOWN if they cannot be told"""
    out = []
    for e in events:
        if e.kind == 'loop':
            if not any(is_call(x, *RUNS) for r in e.kw for x in flatten(r[2])):
                continue
            coll = fold(strip(e.args[0]), env)
            if coll is UNKNOWN or e.name != 'done':
                return UNKNOWN
            for m in coll:
                v = dict(env)
                v['elem', strip(e.args[0])] = v['elem', e.args[0]] = m
                got = []
                for r in e.kw:
                    if r[0] == 'next' and any(consistent(p, lambda a: foldb(strip(a), v)) is not False
                                              for p in rec_paths(r)):
                        got.append(commands(r[2], v))
                if not got or any(g != got[0] for g in got) or got[0] is UNKNOWN:
                    return UNKNOWN
                out += got[0]
        elif is_call(e, *RUNS):
            w = tool_args(e.args[0], env)
            if w is UNKNOWN or UNKNOWN in w:
                return UNKNOWN
            out.append(w)
    return out


def references(words):
    """(-id, {old: new}, file) of an install_name_tool command, or None"""
    w = list(words[1:])
    own, change = [], []
    while len(w) > 1:
        if w[0] == '-id' and len(w) > 2:
            own.append(w[1])
            w = w[2:]
        elif w[0] == '-change' and len(w) > 3:
            change.append((w[1], w[2]))
            w = w[3:]
        else:
            return None
    return own, change, w[0] if w else None


def c47(R):
    R.rule('references', 'install_name_tool changes every reference to a library below the build prefix to the same '
           'library below the environment prefix, and no other')
    R.rule('own-name', 'the name the binary gives itself is its path')
    A = analysis(raises=False)
    A.opaque.add(EXECUTE)
    loc = loc_of(A, REWRITE)
    outs = A.run(A.fresh(), REWRITE, [FILE, BUILD, INSTALL])
    R.saw(A, outs)
    for b, i, libs in WORLDS:
        f = i + '/lib/libself.dylib'
        env = {FILE: f, BUILD: b, INSTALL: i, 'model': model,
               'otool': '%s:\n' % f + ''.join(LINE % l for l in libs)}
        want = sorted((l, i + l[len(b):]) for l in libs if l.startswith(b + '/'))
        some = False
        for o in outs:
            if not o.ok or consistent(o.st.path, lambda a: foldb(strip(a), env)) is False:
                continue
            some = True
            cs = commands(o.events, env)
            if cs is UNKNOWN:
                R.ob('references', 'rewrite_osx_bin', False, loc, 'the commands cannot be told, ' + o.describe()[:200])
                continue
            tools = [references(w) for w in cs if w and w[0] == 'install_name_tool']
            R.ob('references', 'rewrite_osx_bin', None not in tools and all(t[2] == f for t in tools), loc,
                 'runs %s' % cs)
            tools = [t for t in tools if t]
            got = sorted(set(c for t in tools for c in t[1]))
            R.ob('references', 'rewrite_osx_bin', got == sorted(set(want)), loc,
                 'of %s, built in %s and installed in %s: changes %s' % (libs, b, i, got))
            R.ob('own-name', 'rewrite_osx_bin', [x for t in tools for x in t[0]] == [f], loc,
                 'names itself %s' % [x for t in tools for x in t[0]])
        R.ob('references', 'rewrite_osx_bin', some, loc, 'no answer')


CHECKS = {'C47': c47}
