"""C35, C36, C37: the variables of an environment"""
from .base import *

Q = 'ipkg.environments.'
VARS, DIRS, ENV = Q + 'EnvironmentVariables', Q + 'EnvironmentDirectories', Q + 'Environment'
PATHS_OF = {'PATH': ('bin', 'sbin'), 'MANPATH': ('share/man',), 'C_INCLUDE_PATH': ('include',),
            'PKG_CONFIG_PATH': ('lib/pkgconfig',)}
WHERE = {'prefix': '/e', 'bin': '/e/bin', 'sbin': '/e/sbin', 'include': '/e/include', 'lib': '/e/lib',
         'share': '/e/share', 'man': '/e/share/man', 'pkgconfig': '/e/lib/pkgconfig', 'tmp': '/e/tmp'}
PREFIX = {sym('prefix'): '/e'}
TEXT = (('ext', 'basestring'), ('ext', 'str'))


def scope(A):
    A.opaque.add('ipkg.platforms.Platform.current')
    A.hooks['ipkg.platforms.Platform.current'] = lambda A, st, args, kw, cx, n: [(st, 'v', sym('platform'))]

    def split(A, st, args, kw, cx, n):
        # a list of its own
        if len(args) != 2 or args[0][0] == 'c':
            return None
        return [(st, 'v', st.new(L('list', (('all', call('.split', args)),))))]
    A.hooks['.split'] = split
    return A


def is_text(st, *values):
    for v in values:
        for t in TEXT:
            st.assume(('isinst', v, t), True)
        st.assume(('isinst', v, ('ext', 'unicode')), False)
        st.assume(('isnone', v), False)


def directories(A, st):
    o = instance(A, st, DIRS, [sym('prefix')])[0]
    return o.st, o.val


def in_prefix(v):
    """the path, in the prefix /e"""
    r = fold(strip(v), PREFIX)
    return None if r is UNKNOWN else r


# -------------------------------------------------------- C35: path lists

LISTS = ['', 'a', 'a:b', 'a:b:c', 'b:c:a']


def reference(text, op, args):
    l = text.split(':') if text else []
    item = args[0]
    if item in l:
        l.remove(item)
    if op == 'insert':
        l.insert(args[1] if len(args) > 1 else 0, item)
    if op == 'append':
        l.append(item)
    return ':'.join(l)


def lists(R):
    A = scope(analysis())
    cls = Q + 'PathListVariable'
    for text in LISTS + [None]:
        cases = [('', None, ())] + [(i, 'insert', (i,)) for i in 'abcx'] + [(i, 'append', (i,)) for i in 'abcx'] + \
            [(i, 'remove', (i,)) for i in 'abcx'] + [(i, 'insert', (i, 1)) for i in 'abcx']
        for _, op, args in cases:
            want = reference(text or '', op, args) if op else text or ''
            what = '%s(%s)' % (op or 'value', ', '.join(map(repr, args)))
            loc = loc_of(A, Q + 'ListVariable.' + (op or 'set'))
            st = A.fresh()
            outs = A.new(reset(A, st), cls, [const('X'), const(text)])
            if op:
                outs = [y for x in outs for y in (A.method(x.st, x.val, op, [const(a) for a in args]) if x.ok else [x])
                        for y in [(y, x.val)]]
            else:
                outs = [(x, x.val) for x in outs]
            R.ob('lists', what, bool(outs), loc, 'no result')
            for y, v in outs:
                if isinstance(y, tuple) or not y.ok:
                    R.ob('lists', what, False, loc, 'of %r raised: %s' % (text, y.describe()[:120]))
                    continue
                R.saw(A, [y])
                for z in A.method(y.st, v, '__str__', []):
                    got = fold(strip(z.ret()), {}) if z.ok else None
                    R.ob('lists', what, got == want, loc, 'of %r gives %s instead of %r' % (
                        text, repr(got) if isinstance(got, str) else z.describe()[:120], want))


# ------------------------------------------------------ C35: the variables

def worlds(names):
    """what the parent environment defines"""
    yield {k: sym(k) for k in names}
    yield {}
    yield {k: const('') for k in names}
    for k in names:
        for v in (None, const('')):
            yield {n: (v if n == k else sym(n)) for n in names if n != k or v is not None}
    yield {names[0]: sym(names[0])}


OTHERS = ('FOO', 'IPKG_ENVIRONMENT', 'TMPDIR', 'PS1', 'HOME')


def search(R):
    for os_name in ('linux', 'osx'):
        dyn, other = ('DYLD_LIBRARY_PATH', 'LD_LIBRARY_PATH')[::1 if os_name == 'osx' else -1]
        paths = dict(PATHS_OF)
        paths[dyn] = ('lib',)
        for i, world in enumerate(worlds(sorted(paths))):
            if world:
                for k in OTHERS + (other,):
                    world[k] = sym(k) if i or k != 'FOO' else const('')
            one_world(R, os_name, paths, world)


def one_world(R, os_name, paths, world):
    A = scope(analysis(raises=False))
    loc = loc_of(A, VARS + '.__init__')
    st, dirs = directories(A, A.fresh())
    home = ('item', ('ext', 'os.environ'), const('HOME'))
    c = st.new(D(tuple((const(k), v) for k, v in sorted(world.items()))))
    reset(A, st)
    is_text(st, sym('prefix'), home, *[v for v in world.values() if v[0] == 'sym'])
    st.assume(('cmp', '==', ('attr', sym('platform'), 'os_name'), const('osx')), os_name == 'osx')
    env = {sym('prefix'): '/e', home: '/home', ('attr', sym('platform'), 'os_name'): os_name}
    env.update((v, 'y:x:z' if k in paths else 'value of ' + k) for k, v in world.items() if v[0] == 'sym')
    keys = {show(k)[1:-1]: v for k, v in st.obj(content_of(st, dirs)).items}
    for k in paths:
        if world.get(k, NONE)[0] != 'sym':
            continue
        st.assume(('cmp', '==', sym(k), const('')), False)
        for d in keys.values():
            st.assume(mk_in(st.freeze(d), call('.split', (sym(k), const(':')))), False)
    outs = A.new(st, VARS, [dirs, c])
    R.saw(A, outs)
    what = '%s, %s' % (os_name, ' '.join('%s=%s' % (k, show(v)) for k, v in sorted(world.items()) if k in paths))
    some = False
    for o in outs:
        if known(o.st.path, ('isinst', home, TEXT[0])) is False or \
                any(foldb(strip(a), env) not in (None, p) for a, p in o.st.path):
            continue
        some = True
        if not o.ok:
            R.ob('search', what, False, loc, 'raised: %s' % o.describe()[:160])
            continue
        for x in A.method(o.st, o.val, 'as_string_dict', []):
            if not x.ok:
                R.ob('dictionary', what, False, loc_of(A, VARS + '.as_string_dict'), 'raised: %s' % x.describe()[:120])
                continue
            v = x.st.freeze(x.val)
            if v[0] == 'ref':
                got = {k: w for k, w in x.st.obj(v).items}
            elif v[0] == 'D':
                got = {k: w for k, w in v[1]}
            else:
                got = {}
            got = {k[2]: x.st.freeze(w) for k, w in got.items() if k[0] == 'c'}
            the_variables(R, loc, what, paths, world, env, got)
    R.ob('search', what, some, loc, 'no result')


def the_variables(R, loc, what, paths, world, env, got):
    text = {k: fold(strip(v), env) for k, v in got.items()}

    def shown(k):
        return 'not set' if k not in text else repr(text[k]) if text[k] is not UNKNOWN else show(got[k])[:120]
    for name, dirs in sorted(paths.items()):
        now = text.get(name)
        now = now.split(':') if isinstance(now, str) else []
        front = ['/e/' + d for d in dirs]
        R.ob('search', name, sorted(now[:len(dirs)]) == sorted(front), loc, 'is %s (%s)' % (shown(name), what))
        old = fold(world[name], env) if name in world else ''
        want = [old.split(':') if old else []] + ([['/usr/share/man']] if name == 'MANPATH' and not world.get(name)
                                                  else [])
        R.ob('kept', name, now[len(dirs):] in want, loc, 'is %s (%s)' % (shown(name), what))
    for name, where in (('IPKG_ENVIRONMENT', '/e'), ('TMPDIR', '/e/tmp')):
        R.ob('names', name, text.get(name) == where, loc, 'is %s (%s)' % (shown(name), what))
    for name in world:
        if name in paths or name in ('IPKG_ENVIRONMENT', 'TMPDIR', 'PS1'):
            continue
        want = [fold(world[name], env)] + (['/home', '/'] if name == 'HOME' else [])
        R.ob('kept', name, text.get(name) in want, loc, 'is %s (%s)' % (shown(name), what))
    more = set(got) - set(world) - set(paths) - set(OTHERS)
    R.ob('kept', 'others', not more, loc, 'sets %s' % sorted(more))


def plain(v):
    v = strip(v)
    while v[0] == 'call' and v[1] in ('str', 'unicode') and len(v[2]) == 1 or \
            v[0] == 'fmt' and len(v[1]) == 1 and v[1][0][0] == 's':
        v = v[2][0] if v[0] == 'call' else v[1][0][1]
    return v


def places(R):
    A = scope(analysis(raises=False))
    loc = loc_of(A, DIRS + '.__init__')
    st, d = directories(A, A.fresh())
    got = {k[2]: in_prefix(st.freeze(v)) for k, v in st.obj(content_of(st, d)).items if k[0] == 'c'}
    for k, v in WHERE.items():
        R.ob('directories', k, got.get(k) == v, loc, 'is %s' % got.get(k))


# ----------------------------------------------------- C35: packages, commands

def is_add(e):
    return e.kind in ('mut', 'call') and e.name in ('add', '.add', VARS + '.add') and \
        e.args and strip(e.args[0]) == sym('variables')


def packages(R):
    A = scope(analysis(raises=False))
    A.hooks[VARS] = lambda A, st, args, kw, cx, n: [(st, 'v', sym('variables'))]
    A.hooks['ipkg.utils.DictFile'] = lambda A, st, args, kw, cx, n: [(st, 'v', sym('meta'))]
    loc = loc_of(A, ENV + '.__init__')
    outs = A.new(reset(A, A.fresh()), ENV, [sym('prefix')])
    R.saw(A, outs)
    what = 'opening an environment'
    mine = ('item', sym('meta'), const('packages'))
    some = False
    for o in outs:
        if known(o.st.path, mk_in(const('packages'), sym('meta'))) is False:
            continue
        if not o.ok:
            R.ob('packages', what, False, loc, 'raised: %s' % o.describe()[:120])
            continue
        some = True
        loops = [e for e in o.events if e.kind == 'loop' and any(is_add(x) for r in e.kw for x in flatten(r[2]))]
        R.ob('packages', what, len(loops) == 1 and loops[0].name == 'done', loc,
             'the variables of the packages are not all added')
        for l in loops[:1]:
            R.ob('packages', what, mentions_item(l.args[0], mine), loc, 'goes over %s' % show(l.args[0])[:80])
            for r in l.kw:
                adds = [x for x in flatten(r[2]) if is_add(x)]
                if len(adds) == 1 and r[0] == 'next':
                    v = strip(adds[0].args[1]) if len(adds[0].args) > 1 else NONE
                    R.ob('packages', what, v[0] == 'item' and v[2] == const('envvars') and
                         contains_term(v, ('elem',)), adds[0].loc, 'adds %s' % show(v)[:80])
                    continue
                none = any(has_envvars(a) and (p if a[0] == 'isnone' else not p) for a, p in r[1])
                R.ob('packages', what, r[0] == 'next' and none and not adds, loc,
                     'the variables of a package are not added: %s' % (r[:2],))
    R.ob('packages', what, some, loc, 'no path opens an environment with packages')
    # a package being installed
    A = scope(analysis(raises=False))
    A.opaque |= ENV_OPAQUE
    st, env, meta = environment(A, A.fresh())
    o = st.obj(env)
    a = dict(o.attrs)
    a['variables'] = sym('variables')
    st.put(env, I(o.cls, a, o.content))
    reset(A, st)
    pkg = sym('package')
    st.assume(('isinst', pkg, ('ext', 'basestring')), False)
    st.assume(('isinst', pkg, ('cls', 'ipkg.packages.MetaPackage')), True)
    outs = A.method(st, env, 'install', [pkg, sym('repository')])
    R.saw(A, outs)
    loc = loc_of(A, ENV + '.install')
    some = False
    for o in outs:
        ev = list(o.flat())
        if not o.ok or index(ev, lambda e: e.kind == 'call' and e.name.endswith('.extract')) is None:
            continue
        some = True
        adds = [e for e in ev if is_add(e)]
        vars_ = ('attr', pkg, 'envvars')
        none = known(o.st.path, ('isnone', vars_)) is True or known(o.st.path, ('truth', vars_)) is False
        meta = ('item', ('attr', pkg, 'meta'), const('envvars'))
        R.ob('packages', 'installing', none and not adds or len(adds) == 1 and
             strip(adds[0].args[1]) in (vars_, meta), loc,
             'the variables of the package are not added: %s' % adds)
    R.ob('packages', 'installing', some, loc, 'no path installs')


def has_envvars(a):
    return a[0] in ('isnone', 'truth', 'cmp') and any(t == const('envvars') for t in subterms(a))


def contains_term(v, head):
    return any(isinstance(t, tuple) and t[:len(head)] == head for t in subterms(v))


def mentions_item(v, item):
    return any(isinstance(t, tuple) and t and strip(t) == item for t in subterms(v))


def commands(R):
    A = scope(analysis(raises=False))
    A.opaque.add('ipkg.utils.execute')
    A.func_node('ipkg.utils.execute')
    st = A.fresh()
    me = st.new(I(ENV, {'variables': sym('variables'), 'prefix': sym('prefix'), 'directories': sym('directories'),
                        'meta': sym('meta')}))
    names = ('command', 'stdin', 'stdout', 'stderr', 'cwd', 'data')
    outs = A.method(reset(A, st), me, 'execute', [sym(n) for n in names])
    R.saw(A, outs)
    loc = loc_of(A, ENV + '.execute')
    sig = [p for f in A.funcs.values() if f.qual == 'ipkg.utils.execute' for p in f.params]
    R.ob('execute', 'Environment.execute', bool(outs), loc, 'no result')
    for o in outs:
        calls = [e for e in o.flat() if e.kind == 'call' and e.name == 'ipkg.utils.execute']
        R.ob('execute', 'Environment.execute', o.ok and len(calls) == 1, loc, 'runs %d commands' % len(calls))
        for e in calls:
            got = dict(zip(sig, [strip(a) for a in e.args]))
            got.update((k, strip(v)) for k, v in e.kw or ())
            env = got.get('env', NONE)
            R.ob('execute', 'env', env == strip(call('.as_string_dict', (sym('variables'),))), e.loc,
                 'the variables of the command are %s' % show(env)[:100])
            for n in names:
                R.ob('execute', n, got.get(n) == sym(n), e.loc, 'is %s' % show(got.get(n, NONE))[:80])
            if o.ok:
                R.ob('execute', 'result', strip(o.ret()) == strip(call(e.name, e.args, e.kw)), e.loc,
                     'returns %s' % show(o.ret())[:80])


def c35(R):
    R.rule('lists', 'inserting, appending and removing change a path list like a list without that entry')
    R.rule('directories', 'each directory of an environment is where its name says')
    R.rule('search', 'the directories of the environment come first in the search variables')
    R.rule('kept', 'other entries and other variables keep their value')
    R.rule('names', 'IPKG_ENVIRONMENT and TMPDIR name the prefix and the temporary directory')
    R.rule('dictionary', 'every variable is handed to the commands')
    R.rule('packages', 'the variables of the installed packages are added')
    R.rule('execute', 'commands get the variables of the environment, and everything else unchanged')
    lists(R)
    places(R)
    search(R)
    packages(R)
    commands(R)
    plain_text(R)


def plain_text(R):
    """the value of a variable is the text it was set to"""
    A = scope(analysis(raises=False))
    loc = loc_of(A, Q + 'Variable.set')
    st = A.fresh()
    v = sym('v')
    is_text(st, v)
    outs = instance(A, st, Q + 'Variable', [const('X'), v])
    R.saw(A, outs)
    for x in outs:
        reset(A, x.st)
        is_text(x.st, v)
        for o in A.method(x.st, x.val, '__str__', []):
            t = strip(o.ret()) if o.ok else None
            R.ob('kept', 'Variable', t in (v, call('ext:str', [v])), loc, 'a variable set to a text has %s' % (
                show(t)[:80] if t else o.describe()[:80]))


# ------------------------------------------------------- C36: exported text

VALUES = {'a_B': 'Variable', 'PATH': 'PathListVariable'}


def variables(A, st, content):
    """an environment with these variables"""
    st, dirs = directories(A, st)
    o = instance(A, st, VARS, [dirs, st.new(D(()))])[0]
    st = o.st
    items = []
    for name, v in content:
        x = instance(A, st, Q + 'Variable', [const(name), v])[0]
        st = x.st
        items.append((const(name), x.val))
    c = content_of(st, o.val)
    st.put(c, D(tuple(items)))
    return st, o.val, dirs


def flat_text(v):
    """strings and values the text is made of"""
    v = strip(v)
    if v[0] == 'c' and isinstance(v[2], str):
        return [v[2]]
    if v[0] == 'fmt':
        out = []
        for p in v[1]:
            out += [p] if isinstance(p, str) else flat_text(p[1]) if p[0] == 's' else [p]
        return out
    if v[0] == 'call' and v[1] in ('str', 'unicode') and len(v[2]) == 1:
        return flat_text(v[2][0])
    if v[0] == 'call' and v[1] in ('+', '.__add__') and len(v[2]) == 2:
        return flat_text(v[2][0]) + flat_text(v[2][1])
    if v[0] == 'call' and v[1] == '.join' and v[2][0][0] == 'c' and v[2][1][0] == 'L' and \
            all(g[0] == 'one' for g in v[2][1][2]):
        out = []
        for i, g in enumerate(v[2][1][2]):
            out += ([v[2][0][2]] if i else []) + flat_text(g[1])
        return out
    return [v]


QUOTES = ('pipes.quote', 'shlex.quote', 'commands.mkarg')


def quoted(v):
    """the value the term quotes for a shell"""
    if isinstance(v, tuple) and v[0] == 'call' and v[1] in QUOTES and len(v[2]) == 1:
        return plain(v[2][0])
    return None


def by_hand(parts):
    """ '...' with the quotes inside escaped """
    out = []
    i = 0
    while i < len(parts):
        p = parts[i]
        if isinstance(p, tuple) and p[0] == 'call' and p[1] == '.replace' and len(p[2]) == 3 and \
                p[2][1] == const("'") and p[2][2] in (const("'\\''"), const("'\"'\"'")) and out and \
                isinstance(out[-1], str) and out[-1].endswith("'") and i + 1 < len(parts) and \
                isinstance(parts[i + 1], str) and parts[i + 1].startswith("'"):
            out[-1] = out[-1][:-1]
            out.append(call('pipes.quote', (p[2][0],)))
            parts = parts[:i + 1] + [parts[i + 1][1:]] + parts[i + 2:]
        else:
            out.append(p)
        i += 1
    return out


def merged(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return out


def c36(R):
    R.rule('quoted', 'each exported value is quoted for the shell')
    R.rule('lines', 'each variable is printed on a line of its own')
    R.rule('text', 'text which is not ASCII is encoded')
    for export in (True, False):
        A = scope(analysis(raises=False))
        loc = loc_of(A, VARS + '.as_string')
        values = [('a_B', sym('v1')), ('c', sym('v2')), ('D', sym('v3'))]
        st = A.fresh()
        st, me, dirs = variables(A, st, values)
        reset(A, st)
        is_text(st, *[v for n, v in values])
        outs = A.method(st, me, 'as_string', [const(export)])
        R.saw(A, outs)
        rule = 'quoted' if export else 'lines'
        R.ob(rule, 'as_string', bool(outs), loc, 'no result')
        for o in outs:
            if not o.ok:
                R.ob(rule, 'as_string', False, loc, 'raised: %s' % o.describe()[:120])
                continue
            parts = by_hand(merged(flat_text(o.ret())))
            text = ''
            for p in parts:
                if isinstance(p, str):
                    text += p
                    continue
                v = quoted(p)
                name = [n for n, w in values if w == (v or p)]
                R.ob('quoted', 'as_string', not export or v is not None, loc, 'a value is not quoted: %s' % show(p))
                text += '\0' + name[0] if name else '?'
            want = set('%s%s=\0%s' % ('export ' if export else '', n, n) for n, w in values)
            also = set('%s=\0%s; export %s' % (n, n, n) for n, w in values)
            lines = text.split('\n')
            if lines and lines[-1] == '':
                lines.pop()
            R.ob('lines', 'as_string', len(lines) == len(values) and (set(lines) == want or export and
                 set(lines) == also), loc, 'prints %r' % text)
    encoded(R)


def encoded(R):
    """a value which is unicode text"""
    A = scope(analysis(raises=False))
    loc = loc_of(A, Q + 'Variable.__str__')
    st = A.fresh()
    v = sym('v')
    x = instance(A, st, Q + 'Variable', [const('X'), v])[0]
    st = x.st
    reset(A, st)
    st.assume(('isinst', v, TEXT[0]), True)
    st.assume(('isinst', v, TEXT[1]), False)
    st.assume(('isinst', v, ('ext', 'unicode')), True)
    outs = A.method(st, x.val, '__str__', [])
    R.saw(A, outs)
    R.ob('text', 'Variable.__str__', bool(outs), loc, 'no result')
    for o in outs:
        t = strip(o.ret()) if o.ok else None
        ok = o.ok and t[0] == 'call' and t[1] in ('.encode', 'codecs.encode') and t[2][0] == v and (
            len(t[2]) > 1 and str(t[2][1][2]).lower().replace('_', '-') in ('utf-8', 'utf8') or
            dict(t[3]).get('encoding', NONE)[0] == 'c' and
            str(dict(t[3])['encoding'][2]).lower() in ('utf-8', 'utf8'))
        R.ob('text', 'Variable.__str__', ok, loc, 'unicode text is converted by %s' % (
            show(t)[:80] if t else o.describe()[:80]))


# ------------------------------------------------------- C37: any value

def c37(R):
    R.rule('added', 'a variable is added whatever text its value is')
    R.rule('expanded', 'its value is the text with the directories filled in, or else the text itself')
    loc = None
    for many in (False, True):
        A = scope(analysis())
        A.fmt_raises = True
        loc = loc_of(A, VARS + '.add')
        st = A.fresh()
        A.fmt_raises = False
        st, me, dirs = variables(A, st, [])
        A.fmt_raises = True
        names = ['v1', 'v2'] if many else ['v1']
        values = {n: sym(n) for n in names}
        given = st.new(D(tuple((const(n), v) for n, v in sorted(values.items()))))
        mine = expansions(A, st, dirs, values)
        reset(A, st)
        is_text(st, *values.values())
        outs = A.method(st, me, 'add', [given] if many else [const('v1'), values['v1']])
        R.saw(A, outs)
        what = 'add(%s)' % ('a dictionary' if many else 'name, value')
        R.ob('added', what, bool(outs), loc, 'no result')
        for o in outs:
            # what formatting makes of a text is a text
            if any(p is False and a[0] == 'isinst' and a[2] in TEXT + (('ext', 'unicode'),) and
                   is_expansion(strip(a[1])) and a[2] != TEXT[1] for a, p in o.st.path):
                continue
            R.ob('added', what, o.ok, loc, 'raised: %s %s' % (o.exc() if not o.ok else '', o.describe()[:120]))
            if not o.ok:
                continue
            items = {k[2]: v for k, v in o.st.obj(content_of(o.st, me)).items if k[0] == 'c'}
            failures = len([e for e in o.flat() if e.kind == 'catch'])
            raw = 0
            for n in names:
                if n not in items:
                    R.ob('added', what, False, loc, '%s is not added' % n)
                    continue
                got = [strip(v) for v in values_of(A, o.st, items[n], 'value')]
                ok = [g for g in got if g == values[n] or is_expansion(g) and g[2][0] == values[n] and
                      (g[2][1] in mine or g[2][1] == ('ref', dirs[1]))]
                raw += values[n] in got
                R.ob('expanded', what, got and len(ok) == len(got), loc, '%s becomes %s' % (
                    n, [show(g)[:80] for g in got]))
            R.ob('expanded', what, raw == failures, loc, '%d values are kept as they are after %d failures' % (
                raw, failures))


def is_expansion(t):
    return t[0] == 'call' and t[1] == '%' and len(t[2]) == 2


def expansions(A, st, dirs, values):
    return [strip(st.freeze(dirs)), strip(st.freeze(content_of(st, dirs)))]


CHECKS = {'C35': c35, 'C36': c36, 'C37': c37}
