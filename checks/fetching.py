"""C12, C13, C38: opening files, wherever they are"""
from .base import *

OPEN = 'ipkg.files.vopen'
HTTP = 'ipkg.files.backends.http.HttpFile'
CACHE = 'ipkg.files.cache.'
IN_CACHE = {CACHE + n for n in ('has', 'get', 'set', 'is_active')}
URL = sym('url')
NET = 'requests.'


def entry_points(A):
    """{scheme: class} of the entry points setup.py declares"""
    tree = A.src.get('setup') or next((m for k, m in A.src.items() if k.endswith('setup.py')), None)
    if tree is None:
        from engine.pyast import load
        tree = load()[0].get('setup.py')
    if tree is None:
        raise Missing('setup.py')
    group = 'ipkg.files.backend'
    out = {}
    for n in tree.walk():
        if n.t == 'Str' and group in str(n.s):
            here = None
            for line in str(n.s).splitlines():
                line = line.partition('#')[0].strip()
                if line.startswith('['):
                    here = line.strip('[] ')
                elif here == group and '=' in line:
                    k, _, v = line.partition('=')
                    out[k.strip()] = v.strip().replace(':', '.')
        if n.t == 'Dict':
            for k, v in zip(n.keys, n.values):
                if k.t == 'Str' and str(k.s) == group:
                    for x in v.walk():
                        if x.t == 'Str' and '=' in str(x.s):
                            a, _, b = str(x.s).partition('=')
                            out[a.strip()] = b.strip().replace(':', '.')
    return out


def backend_classes(A):
    """the classes the entry points name, those which exist"""
    out = sorted({c for c in entry_points(A).values() if c in A.classes})
    if not out:
        raise Missing('entry points of ipkg.files.backend')
    return out


# --------------------------------------------------------------- C38

def c38(R):
    R.rule('by-scheme', 'a URL is opened by the class loaded from the entry point named as its scheme, file being the '
           'scheme of a plain path; it gets the URL and the options unchanged')
    R.rule('unknown', 'if there is no such entry point the unknown-scheme error is raised')
    R.rule('exists', 'each registered backend is a class of the package that takes a URL, a hash and a hash class')
    R.rule('same-file', 'its read, seek and tell pass their arguments to one underlying file and return its results')
    R.rule('local', 'the scheme file opens the path of the URL on the local file system')
    A = analysis(raises=False)
    EH, HC = sym('expected'), sym('class')
    outs = A.run(A.fresh(), OPEN, [URL], [('expected_hash', EH), ('hash_class', HC)])
    R.saw(A, outs)
    where = loc_of(A, OPEN)
    n = 0
    kinds = set()
    for o in outs:
        scheme = scheme_of(o.st.path)
        kinds.add(scheme)
        if not o.ok:
            R.ob('unknown', 'vopen', o.exc_is('ipkg.files.exceptions.UnknownScheme'), where,
                 'fails with %s' % o.exc())
            R.ob('unknown', 'vopen: only then', absent(o, scheme), where,
                 'refuses a scheme if %s' % o.describe()[:300])
            continue
        n += 1
        v = strip(o.ret())
        ep = loaded(v)
        if not R.ob('by-scheme', 'vopen', ep is not None, where, 'returns %s' % show(v)[:300]):
            continue
        kw = dict(v[3])
        given = list(v[2][1:]) + [kw.get('name')] if 'name' in kw else list(v[2][1:])
        R.ob('by-scheme', 'vopen: arguments', given[:1] == [URL] and (
            dict(kw, **dict(zip(('name', 'expected_hash', 'hash_class'), given))).get('expected_hash') == EH) and (
            dict(kw, **dict(zip(('name', 'expected_hash', 'hash_class'), given))).get('hash_class') == HC),
            where, 'the backend gets %s' % show(v)[:300])
        R.ob('by-scheme', 'vopen: entry point', chosen(o.st.path, ep, scheme), where,
             'entry point %s if %s' % (show(ep)[:150], o.describe()[:300]))
    R.ob('by-scheme', 'vopen opens', n > 0 and len(kinds) > 1, where, 'plain paths and URLs are not told apart')
    points = entry_points(A)
    R.ob('local', 'setup.py', 'file' in points, None, 'no entry point for local files')
    for name in ('http', 'https'):
        R.ob('exists', 'setup.py: ' + name, name in points, None, 'no entry point for ' + name)
    for name, c in sorted(points.items()):
        if R.ob('exists', name, c in A.classes, None, '%s does not exist' % c):
            backend(R, name, c, name == 'file')


def scheme_of(path):
    """the scheme looked for: that of the URL, or file"""
    s = ('attr', strip(call('urlparse.urlparse', (URL,))), 'scheme')
    for a, p in path:
        for x in subterms(strip(a)):
            if isinstance(x, tuple) and (x == s or x[:1] == ('item',) and x == ('item', s[1], const(0))):
                if strip(a) == ('truth', x) and not p or strip(a) == eq(x, const('')) and p:
                    return const('file')
    return s


def scheme_like(v, scheme):
    return v == scheme or scheme[0] == 'attr' and v == ('item', scheme[1], const(0))


def loaded(v):
    """the entry point whose class was called"""
    if cname(v) == '()' and v[2] and cname(v[2][0]) in ('.load', '.resolve'):
        return v[2][0][2][0]
    return None


def points(coll, scheme):
    """the collection holds entry points: 'all' of them, or those of the
    scheme ('named')"""
    for x in subterms(coll):
        if cname(x) in ('pkg_resources.iter_entry_points', '.iter_entry_points'):
            args = dict(zip(('group', 'name'), [a for a in x[2] if x[1] != '.iter_entry_points' or a != x[2][0]]))
            args.update(dict(x[3] or ()))
            if args.get('group') != const('ipkg.files.backend'):
                return None
            if 'name' in args and args['name'] != NONE:
                return 'named' if scheme_like(args['name'], scheme) else None
            return 'all'
    return None


def chosen(path, ep, scheme):
    how = points(ep, scheme)
    if how == 'named':
        return True
    if how != 'all':
        return False
    name = ('attr', ep, 'name')
    for a, p in path:
        a = strip(a)
        if a[0] == 'cmp' and ((a[1] == '==') == p) and a[1] in ('==', '!='):
            if a[2] == name and scheme_like(a[3], scheme) or a[3] == name and scheme_like(a[2], scheme):
                return True
    # a table of entry points by name
    if ep[0] == 'item' and scheme_like(ep[2], scheme):
        for x in subterms(ep[1]):
            if isinstance(x, tuple) and x[:1] == ('attr',) and x[2] == 'name':
                return True
    # the first of those which have the name
    if ep[0] in ('item', 'wit', 'elem', 'last') or cname(ep) == 'next':
        for x in subterms(ep):
            if isinstance(x, tuple) and len(x) == 4 and x[0] == 'many':
                for a, p in x[2]:
                    a = strip(a)
                    if p and a[0] == 'cmp' and a[1] == '==' and any(
                            l[0] == 'attr' and l[2] == 'name' and scheme_like(r, scheme)
                            for l, r in ((a[2], a[3]), (a[3], a[2]))):
                        return True
    return False


def absent(o, scheme):
    """no entry point has the name"""
    for e in o.events:
        if e.kind == 'loop' and points(strip(e.args[0]), scheme):
            return True
    for a, p in o.st.path:
        a = strip(a)
        if points(a, scheme) and (a[0] in ('truth', 'any', 'cmp', 'hv') and not p or a[0] == 'isnone' and p):
            return True
    return False


def backend(R, name, c, local):
    """a registered backend"""
    A = analysis(raises=False)
    A.opaque |= IN_CACHE
    A.step_whiles = True
    where = loc_of(A, c + '.read')
    n = 0
    for m in A.new(A.fresh(), c, [URL], [('expected_hash', sym('expected')), ('hash_class', sym('class'))]):
        if not m.ok:
            R.ob('exists', name + ': fails', m.exc_is('ipkg.exceptions.IpkgException'), where,
                 'cannot be opened: %s' % m.exc())
            continue
        n += 1
        if local:
            opens = [e for e in m.events if e.name == 'open']
            R.ob('local', 'LocalFile', len(opens) == 1 and local_path(opens[0].args[0]) and
                 all(x[2].startswith('r') for x in opens[0].args[1:2] if is_str(x)), where, 'opens %s' % (
                     [show(e.res)[:150] for e in opens]))
        for first, args in (('read', [sym('n')]), ('tell', []), ('seek', [sym('offset'), sym('whence')]),
                            ('read', [])):
            for o in A.method(reset(A, m.st.copy()), m.val, first, args):
                if not o.ok:
                    R.ob('exists', '%s: %s fails' % (name, first), o.exc_is('ipkg.exceptions.IpkgException'),
                         where, 'fails with %s' % o.exc())
                    continue
                f = passed(R, name, first, args, o, where)
                for then, more in (('tell', []), ('seek', [sym('offset')]), ('read', [])):
                    for o2 in A.method(reset(A, o.st.copy()), m.val, then, more):
                        if not o2.ok or never(o2):
                            continue
                        g = passed(R, name, then, more, o2, where)
                        if f is not None and g is not None:
                            R.ob('same-file', '%s: %s after %s' % (name, then, first), f == g, where,
                                 '%s and %s' % (show(f)[:150], show(g)[:150]))
    R.ob('exists', name + ' opens', n > 0, where)


def never(o):
    """a path on which an entry found in the cache is no file"""
    return any(p and a[0] == 'isnone' and cname(a[1]) == CACHE + 'get' or
               not p and a[0] == 'truth' and cname(a[1]) == CACHE + 'get' for a, p in o.st.path)


def passed(R, name, method, args, o, where):
    """the last thing done is the same operation on the underlying file"""
    calls = [e for e in o.events if e.kind == 'call' and e.name in ('.read', '.tell', '.seek')]
    e = calls[-1] if calls else None
    ok = e is not None and e.name == '.' + method and list(e.args[1:]) == args
    if method == 'seek' and ok is False and e is not None and e.name == '.seek':
        ok = list(e.args[1:]) == args or list(e.args[1:]) == args + [const(0)]
    if ok and method != 'seek':
        ok = o.ret() == e.res or same(o.ret(), e.res)
    R.ob('same-file', '%s: %s' % (name, method), ok, where, '%s gives %s' % (method, show(o.ret())[:200]))
    return strip(e.args[0]) if ok else None


def local_path(v):
    v = strip(v)
    p = strip(call('urlparse.urlparse', (URL,)))
    return v in (('attr', p, 'path'), ('item', p, const(2)))


# --------------------------------------------------------------- C12

def c12(R):
    R.rule('own-error', 'an error of the network or an HTTP error status ends in the HTTP error of the package')
    R.rule('status', 'the body is used only after the status was found successful')
    R.rule('complete', 'everything read from the response is kept until there is no more; a body shorter than '
           'announced is an error; after a failed download the body is asked for again')
    R.rule('start', 'reading starts at the beginning of the body')
    R.rule('once', 'a file object downloads at most once')
    R.rule('cached', 'only the complete body goes to the cache, under the URL of the file')
    A = analysis(raises=True)
    A.opaque |= IN_CACHE
    A.step_whiles = True
    A.raises_only = {'requests.get', '.raise_for_status', '.iter_content', '.read', '.stream', 'requests.request'}
    where = loc_of(A, HTTP + '.read')
    n = k = 0
    for m in A.new(A.fresh(), HTTP, [URL]):
        if not m.ok:
            raise Missing('HttpFile cannot be made')
        for method, args in (('read', [sym('n')]), ('tell', []), ('seek', [sym('offset')])):
            outs = A.method(reset(A, m.st.copy()), m.val, method, args)
            if method == 'read':
                R.saw(A, outs)
            for o in outs:
                flat = list(o.events)
                if not o.ok:
                    failed = failing(R, o, where)
                    k += failed
                    if failed:
                        after_failure(R, A, m, o, 'HttpFile.%s' % method, where)
                    continue
                if never(o):
                    continue
                n += 1
                W = 'HttpFile.%s' % method
                fresh_body(R, o, W, where)
                again(R, A, m, o, W, where)
    R.ob('status', 'HttpFile downloads', n > 1 and k > 0, where, '%d paths give content, %d fail' % (n, k))


def network(e):
    """the event asks the network"""
    if e.kind not in ('call', 'failed'):
        return False
    if isinstance(e.name, str) and e.name.startswith(NET):
        return True
    return bool(e.args) and about_response(e.args[0])


def about_response(v):
    v = strip(v)
    while True:
        if v[0] == 'attr' or v[0] in ('elem', 'item'):
            v = v[1]
        elif cname(v) in ('.iter_content', '.stream', 'iter', '.read', '.makefile'):
            v = v[2][0]
        else:
            break
    return isinstance(cname(v), str) and cname(v).startswith(NET) or \
        v[0] == 'call' and v[1] in ('.get', '.request', '.send') and mentions_net(v)


def mentions_net(v):
    return any(isinstance(x, tuple) and len(x) > 1 and x[0] in ('call', 'ext') and isinstance(x[1], str) and
               x[1].startswith(NET) for x in subterms(v))


def failing(R, o, where):
    failed = [e for e in flatten(o.events) if e.kind == 'failed' and network(e)]
    last = [e for e in o.events if e.kind == 'failed']
    if not last and not any(network(e) for e in o.events):
        return 0
    if last and not network(last[-1]):
        return 0            # reading the file in memory does not fail
    e = last[-1] if last else None
    R.ob('own-error', 'HttpFile', o.exc_is('ipkg.files.backends.http.HttpFileException'),
         e.loc if e else where, '%s ends in %s' % ('an error of %s' % e.name if e else 'a bad response', o.exc()))
    stored = [x for x in o.events if is_call(x, CACHE + 'set')]
    R.ob('cached', 'HttpFile: failed downloads', not stored, stored[0].loc if stored else where,
         'something is cached although the download fails')
    return 1


def fresh_body(R, o, W, where):
    """the first use of a remote file"""
    evs = o.events
    asks = [i for i, e in enumerate(evs) if e.kind == 'call' and isinstance(e.name, str) and (
        e.name.startswith(NET) or e.name in ('.get', '.request') and mentions_net(e.res))]
    got = [e for e in evs if is_call(e, CACHE + 'get')]
    last = [e for e in evs if e.kind == 'call' and e.name in ('.read', '.tell', '.seek')]
    if not R.ob('start', W, bool(last), where, 'nothing is done with the body'):
        return
    f = last[-1].args[0]
    if cname(strip(f)) == CACHE + 'get':
        R.ob('cached', W + ': found', strip(f)[2] == (URL,) and not asks and len([
            e for e in evs if e.kind == 'call' and e.args and same(e.args[0], f)]) == 1, where,
            'the cached file is %s' % show(f)[:200])
        return
    if not R.ob('once', W, len(asks) == 1, where, '%d requests' % len(asks)):
        return
    e = evs[asks[0]]
    R.ob('status', W + ': url', URL in [strip(x) for x in e.args] or dict(e.kw or ()).get('url') == URL, e.loc,
         'requests %s' % show(e.res)[:200])
    R.ob('status', W + ': redirects', dict(e.kw or ()).get('allow_redirects') not in (FALSE, const(0)), e.loc,
         'redirects are not followed')
    # the status is checked before the body is used
    ok = successful(evs, o.st.path, e.res)
    body = [i for i, x in enumerate(evs) if takes_body(x)]
    R.ob('status', W, ok is not None and (not body or ok < body[0]), e.loc,
         'the body is used whatever the status')
    complete(R, o, W, f, where)
    stored(R, o, W, f, where)
    short_bodies(R, o, W, where)


def successful(evs, path, response):
    """position at which the response is known to be successful"""
    for i, x in enumerate(evs):
        if is_call(x, '.raise_for_status') and same(x.args[0], response):
            return i
    r = strip(response)
    for bad in (404, 500, 403, 301):
        env = {('attr', r, 'status_code'): bad, ('attr', r, 'ok'): bad < 400}
        if consistent(path, lambda a: foldb(a, env)) is not False:
            return None
    return -1


def takes_body(e):
    """reads the body of the response"""
    if e.kind == 'loop':
        return any(takes_body(x) for r in e.kw for x in r[2]) or about_response(e.args[0])
    if e.kind != 'call':
        return False
    if e.name in ('.read', '.iter_content', '.stream') and e.args and about_response(e.args[0]):
        return True
    return any(isinstance(x, tuple) and x[:1] == ('attr',) and x[2] in ('content', 'text') and about_response(x[1])
               for a in e.args for x in subterms(strip(a)))


def complete(R, o, W, f, where):
    """everything the response gives is in the file, which is read from its
    beginning"""
    evs = o.events
    f = strip(f)
    made = initial(f)
    if made is None:
        R.ob('complete', W, False, where, 'the body is read from %s' % show(f)[:200])
        return
    # what was put there
    sources, position = [], []
    if made:
        sources.append(whole(made[0]))
    for i, e in enumerate(evs):
        if e.kind == 'loop':
            r = loop_copies(e, f)
            if r is not None:
                sources.append(r)
                position.append((i, 'end'))
        elif e.kind == 'call' and e.args and strip(e.args[0]) == f:
            if e.name in ('.write', '.writelines'):
                sources.append(whole(strip(e.args[1])))
                position.append((i, 'end'))
            elif e.name == '.read':
                position.append((i, 'end'))
            elif e.name == '.seek':
                position.append((i, 'start' if strip(e.args[1]) == const(0) and (
                    len(e.args) < 3 or e.args[2] == const(0)) else 'end'))
            elif e.name in ('.truncate', '.close'):
                sources.append(False)
        elif e.kind == 'call' and e.name == 'shutil.copyfileobj' and strip(e.args[1]) == f:
            sources.append(about_response(e.args[0]))
            position.append((i, 'end'))
        elif e.kind == 'call' and e.args and e.name in ('.read', '.readline') and about_response(e.args[0]):
            # what is read outside of a loop must be in the file
            pass
    R.ob('complete', W, len(sources) == 1 and sources[0] is True, where,
         'the body is put together from %d parts, complete: %s' % (len(sources), sources))
    end = max(i for i, e in enumerate(evs) if e.kind == 'call' and e.args and strip(e.args[0]) == f)
    before = [x for x in position if x[0] < end]
    R.ob('start', W, before and before[-1][1] == 'start' or not before and bool(made), where,
         'the file is not at its beginning')


def initial(f):
    """what the file in memory was made from: [] or [data]"""
    if cname(f) in ('StringIO', 'cStringIO.StringIO', 'io.BytesIO', 'StringIO.StringIO', 'BytesIO'):
        return list(f[2])
    if cname(f) in ('tempfile.TemporaryFile', 'tempfile.SpooledTemporaryFile', 'tempfile.NamedTemporaryFile'):
        return []
    return None


def whole(d):
    """the data is the whole body of a response"""
    if d == const(''):
        return None
    if d[0] == 'attr' and d[2] == 'content' and about_response(d[1]):
        return True
    if cname(d) == '.read' and len(d[2]) == 1 and about_response(d[2][0]):
        return True
    if cname(d) == '.join' and d[2][0] == const(''):
        x = d[2][1]
        if chunks(x):
            return True
        if x[0] == 'L' and len(x[2]) == 1:
            g = x[2][0]
            if g[0] == 'all':
                return chunks(g[1])
            if g[0] == 'many':
                return chunks(g[3]) and g[1] == ('elem', g[3]) and all(
                    a == ('truth', g[1]) and p for a, p in g[2])
    return False


def chunks(x):
    """all parts of the body"""
    if cname(x) in ('.iter_content', '.stream') and about_response(x[2][0]):
        return True
    if cname(x) == 'iter' and len(x[2]) == 2 and x[2][1] == const(''):
        return mentions_net(x)
    return False


def loop_copies(e, f):
    """True: the loop puts all the response gives into the file; False: only
    some of it; None: it has nothing to do with it"""
    def sink(x):
        return strip(x.args[1]) if x.kind == 'call' and x.name == '.write' and strip(x.args[0]) == f else None

    def spoils(x):
        return x.kind == 'call' and x.args and strip(x.args[0]) == f and x.name in ('.seek', '.truncate')

    def reads(x):
        return x.kind == 'call' and x.name in ('.read', 'next', '.next') and x.args and about_response(x.args[0])
    coll = strip(e.args[0])
    if not any(takes_body(x) or strip_args(x, f) for r in e.kw for x in r[2]) and not about_response(coll):
        return None
    return copies(e, sink, reads, spoils, chunks(coll) or about_response(coll))


def copies(e, sink, reads, spoils, over):
    """the loop passes on everything that is read, until nothing is left"""
    coll = strip(e.args[0])
    if e.name != 'done' and over:
        return False
    ended = False
    for r in e.kw:
        if r[0] == 'exc' or r[0] == 'skip':
            continue
        path = r[1]
        got = [x.res for x in r[2] if reads(x)]
        if over:
            got = [('elem', coll)]
        written = [sink(x) for x in r[2] if sink(x) is not None]
        used = list(written)
        for g in got:
            g = strip(g)
            if g in used:
                used.remove(g)
            elif not empty(path, g):
                return False
        if used or [w for w in written if w not in [strip(g) for g in got]]:
            return False
        if any(spoils(x) for x in r[2]):
            return False
        if r[0] in ('brk', 'ret'):
            if over:
                return False
            if not got or not any(empty(path, strip(g)) for g in got):
                return False
            ended = True
    return True if over else ended


def strip_args(x, f):
    return x.kind == 'call' and bool(x.args) and strip(x.args[0]) == f


def empty(path, g):
    env = {g: 'data'}
    return consistent(path, lambda a: foldb(a, env)) is False


def stored(R, o, W, f, where):
    f = strip(f)
    sets = [i for i, e in enumerate(o.events) if is_call(e, CACHE + 'set')]
    for i in sets:
        e = o.events[i]
        R.ob('cached', W + ': name', strip(e.args[0]) == URL, e.loc, 'cached as %s' % show(e.args[0])[:200])
        d = strip(e.args[1])
        good = whole(d) is True
        if cname(d) == '.getvalue' and strip(d[2][0]) == f:
            good = True
        if cname(d) == '.read' and d[2] == (f,):
            j = max(k for k, x in enumerate(o.events[:i]) if x.kind == 'call' and strip(x.res) == d)
            pos = [x for x in o.events[:j] if x.kind == 'loop' or x.kind == 'call' and x.args and
                   strip(x.args[0]) == f and x.name in ('.read', '.seek', '.write')]
            pos = [x for x in pos if x.kind != 'loop' or loop_copies(x, f) is not None]
            good = bool(pos) and pos[-1].kind == 'call' and pos[-1].name == '.seek' and \
                list(map(strip, pos[-1].args[1:])) in ([const(0)], [const(0), const(0)]) or \
                not pos and bool(initial(f))
        body = [k for k, x in enumerate(o.events) if takes_body(x) or x.kind == 'loop' and
                loop_copies(x, f) is not None]
        R.ob('cached', W + ': content', good and all(k < i for k in body), e.loc, 'cached is %s' % show(d)[:200])


def short_bodies(R, o, W, where):
    """an announced length which is not reached is an error"""
    env = {}
    for a, p in o.st.path:
        for x in subterms(strip(a)):
            if not isinstance(x, tuple) or not x:
                continue
            if mentions_length(x) and x[0] == 'item' or cname(x) in ('.getheader', '.get') and mentions_length(x):
                env[x] = '5000'
            elif x[0] == 'cmp' and x[1] == 'in' and mentions_length(x[2]):
                env[x] = True
            elif x[0] == 'cmp' and x[1] == 'in' and x[2][0] == 'c' and 'encoding' in str(x[2][2]).lower():
                env[x] = False
            elif cname(x) in ('.tell', 'len', '.getvalue') and not mentions_length(x):
                env[x] = 5
    R.ob('complete', W + ': length', bool(env) and consistent(o.st.path, lambda a: foldb(a, env)) is False or
         consistent(o.st.path, lambda a: absent_length(a)) is not False, where,
         'a body shorter than announced is taken for complete')


def absent_length(a):
    """what holds if no length, or one that is no number, was announced"""
    if a[0] == 'cmp' and a[1] == 'in' and mentions_length(a[2]):
        return False
    if cname(a[1]) == '.isdigit' and mentions_length(a) if a[0] == 'truth' else False:
        return False
    if a[0] == 'isnone' and mentions_length(a):
        return True
    if a[0] == 'truth' and mentions_length(a):
        return False
    return None


def mentions_length(t):
    return any(is_str(x) and str(x[2]).lower() == 'content-length' for x in subterms(t) if isinstance(x, tuple))


def again(R, A, m, o, W, where):
    """using it once more asks nobody"""
    for method, args in (('read', []), ('tell', []), ('seek', [const(0)])):
        for o2 in A.method(reset(A, o.st.copy()), m.val, method, args):
            if never(o2):
                continue
            asks = [e for e in flatten(o2.events) if network(e) or is_call(e, CACHE + 'get', CACHE + 'set')]
            R.ob('once', '%s, then %s' % (W, method), not asks, asks[0].loc if asks else where,
                 'the file is fetched again')


def after_failure(R, A, m, o, W, where):
    """a download that failed leaves nothing that is later taken for the body"""
    for o2 in A.method(reset(A, o.st.copy()), m.val, 'read', []):
        if o2.ok and not never(o2):
            asks = [e for e in flatten(o2.events) if network(e) or is_call(e, CACHE + 'get')]
            R.ob('complete', W + ' fails, then read', bool(asks), where,
                 'what a failed download left is taken for the body')


# --------------------------------------------------------------- C13

VAR = const('IPKG_CACHE_DIR')
ENVIRON = ext('os.environ')
WRITERS = ('open', 'os.open', 'os.fdopen', 'codecs.open', 'io.open', 'tempfile.NamedTemporaryFile')
MOVES = ('os.rename', 'os.renames', 'shutil.move', 'os.link')
REMOVES = ('os.unlink', 'os.remove')


def directory(v):
    """the cache directory"""
    v = strip(v)
    return v in (('item', ENVIRON, VAR), ) or \
        cname(v) in ('os.getenv', '.get') and VAR in v[2]


def usable(path):
    """the path knows that the directory is usable"""
    return any(p and a[0] == 'truth' and cname(a[1]) == 'os.path.isdir' and directory(a[1][2][0]) or
               a[0] == 'not' and not p and a[1][0] == 'truth' and cname(a[1][1]) == 'os.path.isdir'
               for a, p in ((strip(a), p) for a, p in path))


def unusable(path):
    """formula decided: there is no variable or no directory"""
    for a, p in path:
        a = strip(a)
        if a[0] == 'cmp' and a[1] == 'in' and a[2] == VAR and not p:
            return True
        if a[0] == 'truth' and not p and (cname(a[1]) == 'os.path.isdir' or directory(a[1])):
            return True
        if a[0] == 'isnone' and p and directory(a[1]):
            return True
    return False


def place(v, name):
    """None, or the form of the path of an entry: in the cache directory,
    named by a digest of the whole name"""
    from .checksums import digest, HASHES
    v = strip(v)
    parts = None
    if cname(v) == 'os.path.join' and len(v[2]) == 2:
        parts = v[2]
    elif v[0] == 'fmt':
        p = list(v[1])
        if len(p) == 3 and p[1] == '/':
            parts = (p[0], p[2])
    if not parts or not directory(parts[0]):
        return None
    d = digest(parts[1])
    if d is None or d[0][0] != 'ext' or d[0][1] not in ['hashlib.' + h for h in HASHES]:
        return None
    data = list(d[1])
    if len(data) != 1:
        return None
    x = data[0]
    while cname(x) in ('.encode', 'str', 'buffer'):
        x = x[2][0]
    return (d[0],) + tuple(parts) if x == name else None


def c13(R):
    R.rule('same-place', 'storing, testing and reading use the same path: a digest of the whole name, inside the cache '
           'directory')
    R.rule('complete', 'an entry gets its name by a rename after all of the content was written to another file, of a '
           'name no other process uses, and that file was closed')
    R.rule('inactive', 'without a usable cache directory nothing is found, read or stored')
    R.rule('never-fails', 'storing an entry never fails')
    R.rule('own-name', 'a file is stored, tested for and read under its whole URL')
    N, C = sym('name'), sym('content')
    forms = set()
    A = analysis(raises=False)
    for what, finds in (('has', True), ('get', True)):
        outs = A.run(A.fresh(), CACHE + what, [N])
        R.saw(A, outs)
        where = loc_of(A, CACHE + what)
        n = 0
        for o in outs:
            opens = [e for e in o.events if e.kind == 'call' and e.name in WRITERS]
            v = strip(o.ret()) if o.ok else None
            if not o.ok:
                R.ob('inactive', what, unusable(o.st.path) and what == 'get' and
                     o.exc_is('ipkg.exceptions.IpkgException'), where, 'fails with %s' % o.exc())
                continue
            if not usable(o.st.path):
                R.ob('inactive', what, not opens and (v in (NONE, FALSE)), where,
                     'gives %s if %s' % (show(v)[:200], o.describe()[:200]))
                continue
            if v in (NONE, FALSE):
                # found to be missing
                R.ob('same-place', what + ': missing', missing(o.st.path, N), where,
                     'gives %s if %s' % (show(v), o.describe()[:200]))
                continue
            if what == 'has':
                if v == TRUE:
                    t = [a[1] for a, p in ((strip(a), p) for a, p in o.st.path) if p and a[0] == 'truth' and
                         cname(a[1]) in EXISTS and place(a[1][2][0], N)]
                else:
                    t = [v] if cname(v) in EXISTS else []
                form = place(t[0][2][0], N) if t else None
            else:
                form = place(v[2][0], N) if cname(v) in ('open', 'io.open') and v[2] and all(
                    x[2][:1] == 'r' for x in v[2][1:2] if is_str(x)) else None
            n += 1
            if R.ob('same-place', what, form is not None, where, 'looks at %s' % show(v)[:300]):
                forms.add(form)
        R.ob('same-place', what + ' works', n > 0, where)
    # storing
    A = analysis(raises=True)
    outs = A.run(A.fresh(), CACHE + 'set', [N, C])
    R.saw(A, outs)
    where = loc_of(A, CACHE + 'set')
    n = 0
    for o in outs:
        R.ob('never-fails', 'set', o.ok, where, 'fails with %s if %s' % (
            o.exc(), o.describe()[:200] if not o.ok else ''))
        n += writing(R, o, N, C, forms, where)
    under_its_url(R)
    R.ob('complete', 'set stores', n > 0, where, 'nothing is ever stored')
    R.ob('same-place', 'one place', len(forms) == 1, where, 'entries are at %s' % [
        show(('tup',) + f)[:100] for f in forms])


def careful(A):
    """reading an entry looks for it first"""
    N = sym('name')
    B = analysis(raises=False)
    outs = [o for o in B.run(B.fresh(), CACHE + 'get', [N]) if o.ok and any(
        e.kind == 'call' and e.name in ('open', 'io.open') for e in o.flat())]
    C = analysis()
    if not any(o.exc_is('IOError') for o in C.run(C.fresh(), CACHE + 'get', [N])):
        return True
    return bool(outs) and all(any(p and a[0] == 'truth' and cname(a[1]) in EXISTS and place(a[1][2][0], N)
                                  for a, p in ((strip(a), p) for a, p in o.st.path)) for o in outs)


def under_its_url(R):
    """a file downloaded is stored, and looked for, under its own URL"""
    A = analysis(raises=False)
    A.opaque |= IN_CACHE
    where = loc_of(A, HTTP + '.read')
    n = 0
    for m in A.new(A.fresh(), HTTP, [URL]):
        if not m.ok:
            raise Missing('HttpFile cannot be made')
        for o in A.method(reset(A, m.st.copy()), m.val, 'read', [sym('n')]):
            for e in flatten(o.events):
                if e.kind == 'call' and e.name in IN_CACHE and e.args:
                    n += 1
                    if e.name == CACHE + 'get':
                        R.ob('own-name', 'HttpFile: present', careful(A) or any(
                            p and strip(a) == truth(strip(call(CACHE + 'has', (URL,)))) for a, p in o.st.path), e.loc,
                            'an entry is read that was not found in the cache')
                    R.ob('own-name', 'HttpFile: ' + e.name.rsplit('.', 1)[-1], strip(e.args[0]) == URL, e.loc,
                         'uses the cache entry of %s' % show(e.args[0])[:200])
    R.ob('own-name', 'HttpFile uses the cache', n > 0, where)


EXISTS = ('os.path.exists', 'os.path.isfile', 'os.path.lexists', 'os.access')


def missing(path, name):
    return any(not p and a[0] == 'truth' and cname(a[1]) in EXISTS and place(a[1][2][0], name)
               for a, p in ((strip(a), p) for a, p in path))


def writing(R, o, N, C, forms, where):
    """the file operations of storing an entry; 1 if it is stored"""
    W = 'set'
    made, wrote, closed = [], [], []
    stored = 0
    evs = o.events
    for i, e in enumerate(evs):
        if e.kind != 'call':
            continue
        done = not (i + 1 < len(evs) and evs[i + 1].kind == 'failed' and evs[i + 1].name == e.name)
        if e.name in WRITERS and e.name != 'os.fdopen':
            mode = e.args[1] if len(e.args) > 1 else dict(e.kw or ()).get('mode', const('r'))
            if e.name == 'open' and is_str(mode) and not set('wa+') & set(mode[2]):
                continue
            R.ob('inactive', W, usable(o.st.path), e.loc, 'writes if %s' % o.describe()[:200])
            p = strip(e.args[0]) if e.args else strip(e.res)
            f = place(p, N)
            R.ob('complete', W + ': other file', f is None and inside(p, e), e.loc,
                 'writes %s' % show(p)[:300])
            R.ob('complete', W + ': mode', e.name != 'open' or is_str(mode) and mode[2].startswith('w'), e.loc,
                 'mode %s' % show(mode))
            R.ob('complete', W + ': own file', own_name(p, e), e.loc, 'two processes may both write %s' % show(p)[:300])
            made.append((p, strip(e.res)))
        elif e.name == '.write' and done:
            wrote.append((strip(e.args[0]), strip(e.args[1])))
        elif e.name == '.close' and done:
            closed.append(strip(e.args[0]))
        elif e.name in MOVES:
            src, dst = strip(e.args[0]), strip(e.args[1])
            f = place(dst, N)
            if R.ob('same-place', W, f is not None, e.loc, 'stores %s' % show(dst)[:300]):
                forms.add(f)
            files = [r for p, r in made if p == src or src == ('attr', r, 'name') or src == ('item', r, const(1))]
            data = [d for g, d in wrote if any(g == r or mentions(g, r) for r in files)]
            R.ob('complete', W, data == [C], e.loc, 'stores a file with %s' % [show(d)[:100] for d in data])
            R.ob('complete', W + ': closed', any(g == r or mentions(g, r) for g in closed for r in files), e.loc,
                 'the file is not closed before it is stored')
            stored = 1
        elif e.name in REMOVES:
            R.ob('complete', W + ': removes', place(e.args[0], N) is None and any(
                strip(e.args[0]) == p for p, r in made), e.loc, 'removes %s' % show(e.args[0])[:200])
        elif writes_elsewhere(e):
            R.ob('complete', W + ': elsewhere', False, e.loc, '%s' % show(e.res)[:200])
    return stored


def writes_elsewhere(e):
    return e.name in ('shutil.copy', 'shutil.copyfile', 'shutil.copyfileobj', 'shutil.rmtree', 'os.truncate')


def inside(p, e):
    """in the cache directory"""
    if e.name.startswith('tempfile.'):
        return directory(dict(e.kw or ()).get('dir', NONE))
    return any(isinstance(x, tuple) and x and directory(x) for x in subterms(p))


def own_name(p, e):
    if e.name.startswith('tempfile.'):
        return True
    return any(cname(x) in ('os.getpid', 'uuid.uuid4', 'uuid.uuid1', 'tempfile.mktemp', 'tempfile.mkstemp',
                            'random.random', 'time.time') or cname(x) and cname(x).startswith(('uuid.', 'tempfile.'))
               for x in subterms(p) if isinstance(x, tuple) and x)


CHECKS = {'C12': c12, 'C13': c13, 'C38': c38}
