"""C07, C10, C11, C17: archives and their checksums"""
import itertools
from .base import *

UNARCHIVE = 'ipkg.utils.unarchive'
PACKAGE = 'ipkg.packages.PackageFile'
OPEN = 'ipkg.files.vopen'
FORMULA_FILE = 'ipkg.build.File'
WHICH, EXEC = 'ipkg.utils.which', 'ipkg.utils.execute'
OPAQUE = {OPEN, WHICH, EXEC}
TARGET = sym('target')
FILE = sym('fileobj')

TARS = ('tarfile.open', 'tarfile.TarFile', 'tarfile.TarFile.open')
ZIPS = ('zipfile.ZipFile',)
LISTS = ('.getmembers', '.infolist', '.namelist', '.getnames')
NAMES = ('name', 'path', 'filename')
METHODS = ('issym', 'islnk', 'isfile', 'isreg', 'isdir')


def words():
    """names an archive may have, decided by their components"""
    out = []
    for n in (1, 2, 3, 4):
        for w in itertools.product(('', '.', '..', 'x', '..x'), repeat=n):
            s = '/'.join(w)
            if s:
                out.append(s)
    return out + ['.ipkg.meta', 'a/.ipkg.meta', '...', 'x..', 'x../y']


def unsafe(w):
    n = posixpath.normpath(w)
    return w.startswith('/') or n == '..' or n.startswith('../')


def base_of(coll):
    """the archive whose members the collection holds"""
    v = strip(coll)
    while True:
        if cname(v) in LISTS or cname(v) in ('sorted', 'list', 'tuple', 'reversed', 'iter'):
            v = v[2][0]
        elif v[0] == 'attr' and v[2] in ('filelist', 'members'):
            v = v[1]
        elif v[0] == 'L' and len(v[2]) == 1:
            g = v[2][0]
            v = g[1] if g[0] == 'all' else g[3] if g[0] == 'many' else None
            if v is None:
                return None
        else:
            return v if cname(v) in TARS + ZIPS else None


def member_env(terms, name=None, link=None, kind=None):
    """the values of everything asked about the member the terms are about:
    its name, its kind ('sym', 'lnk' or 'file') and what it links to"""
    env = {}
    for t in terms:
        for x, role in roles(t):
            if role == 'name':
                if name is not None:
                    env[x] = name
            elif role == 'link':
                if link is not None:
                    env[x] = link
            elif role in CODES:
                env[x] = CODES[role]
            elif kind is not None:
                env[x] = TYPES.get(kind, '5') if role == 'type' else role == kind
    return env


CODES = {'SYMTYPE': '2', 'LNKTYPE': '1', 'REGTYPE': '0', 'DIRTYPE': '5'}
TYPES = {'sym': '2', 'lnk': '1', 'file': '0', 'dir': '5'}
KINDS = {'issym': 'sym', 'islnk': 'lnk', 'isfile': 'file', 'isreg': 'file', 'isdir': 'dir'}
ROLES = {}


def roles(t):
    """what the term asks about a member of an archive"""
    known = ROLES.get(id(t))
    if known is not None:
        return known[1]
    out = []
    for x in set(subterms(strip(t))):
        if not (isinstance(x, tuple) and x):
            continue
        if x[0] == 'attr' and x[1][:1] in (('elem',), ('wit',)) and base_of(x[1][1]):
            r = 'name' if x[2] in NAMES else 'link' if x[2] in ('linkname', 'linkpath') else \
                'type' if x[2] == 'type' else None
            if r:
                out.append((x, r))
        elif x[0] == 'elem' and cname(strip(x[1])) in ('.namelist', '.getnames'):
            out.append((x, 'name'))
        elif cname(x) and x[1][1:] in KINDS and x[2] and x[2][0][:1] in (('elem',), ('wit',)) and \
                base_of(x[2][0][1]):
            out.append((x, KINDS[x[1][1:]]))
        elif x[0] == 'ext' and x[1].rsplit('.', 1)[-1] in ('SYMTYPE', 'LNKTYPE', 'REGTYPE'):
            out.append((x, x[1].rsplit('.', 1)[-1]))
    ROLES[id(t)] = (t, out)
    return out


def possible(path, **member):
    """may the path be taken for a member like that"""
    env = member_env([a for a, p in path], **member)
    return consistent(path, lambda a: foldb(a, env) if env else None)


def left_out(members, w):
    """the member called w certainly is not among the members to extract"""
    if members is None or members[0] != 'L':
        return False
    for g in members[2]:
        if g[0] != 'many':
            return False
        if possible(g[2], name=w) is not False:
            return False
    return True


def argument(e, i, name):
    if len(e.args) > i:
        return e.args[i]
    for k, v in (e.kw or ()):
        if k == name:
            return v
    return None


def extractions(o):
    """(index, archive, directory, members) of each unpacking of an outcome"""
    out = []
    for i, e in enumerate(o.events):
        if e.kind == 'call' and e.name == '.extractall':
            m = argument(e, 2, 'members')
            out.append((i, e, strip(e.args[0]), argument(e, 1, 'path'), None if m == NONE else m))
    return out


def entries(R, opaque=OPAQUE, **flags):
    """the two functions that unpack: (what, A, outcomes, target)"""
    for what in ('package', 'archive'):
        A = analysis(raises=False)
        A.opaque |= opaque
        A.step_whiles = True
        for k, v in flags.items():
            setattr(A, k, v)
        st = A.fresh()
        if what == 'package':
            o = instance(A, st, PACKAGE, [sym('path'), sym('meta')])[0]
            reset(A, o.st)
            outs = A.method(o.st, o.val, 'extract', [TARGET])
        else:
            outs = A.run(st, UNARCHIVE, [FILE, TARGET])
        R.saw(A, outs)
        yield what, A, outs


def c07(R):
    R.rule('names-checked', 'before an archive is unpacked, every name that leads out of the directory ends the '
           'operation, for every member that is unpacked')
    R.rule('links-checked', 'a hard link is refused if what it links to is outside')
    R.rule('not-through-links', 'a member or hard link at or below the (normalized) name of an earlier symbolic '
           'link of the archive is refused, unless links that lead outside are refused themselves')
    R.rule('target', 'archives are unpacked in the directory given')
    R.rule('recorded-names-checked', 'the files a package lists are checked like those of its archive')
    W = words()
    bad = [w for w in W if unsafe(w)]
    n = {'package': 0, 'archive': 0}
    for what, A, outs in entries(R):
        for o in outs:
            for x in o.events:
                if x.kind == 'loop' and contains(x, lambda e: is_call(e, '.extract', '.extractall')):
                    raise AnalysisError('members are extracted one by one')
            for i, e, archive, where, members in extractions(o):
                n[what] += 1
                R.ob('target', what, where is not None and same(o.st.freeze(where), TARGET), e.loc,
                     'unpacked in %s' % show(where))
                loops = [x for x in o.events[:i] if x.kind == 'loop' and x.name == 'done'
                         and base_of(x.args[0]) == archive]
                ms = None if members is None else strip(o.st.freeze(members))
                for w in bad:
                    if left_out(ms, w):
                        continue
                    R.ob('names-checked', what, any(refused(x, name=w) for x in loops), e.loc,
                         'a member called %r is unpacked' % w)
                    if cname(archive) in TARS:
                        R.ob('links-checked', what, any(refused(x, name='x', link=w, kind='lnk') for x in loops),
                             e.loc, 'a hard link to %r is unpacked' % w)
                checking = [x for x in loops if any(refused(x, name=w) for w in bad)]
                for w in ('.ipkg.meta', 'bin/x', './.ipkg.meta'):
                    if not left_out(ms, w):
                        R.ob('names-checked', what + ': all', any(
                            not left_out(strip(o.st.freeze(x.args[0])), w) and not skipped(x, w) for x in checking), e.loc,
                             'a member called %r is unpacked, and not among those that are checked' % w)
                if what == 'package':
                    fl = [x for x in o.events[:i] if x.kind == 'loop' and x.name == 'done' and is_files(x.args[0])]
                    for w in bad:
                        R.ob('recorded-names-checked', what, any(refused_elem(x, w) for x in fl), e.loc,
                             'a package whose files list %r is unpacked' % w)
    R.ob('names-checked', 'both unpack', all(n.values()), loc_of(analysis(), UNARCHIVE), 'no archive is unpacked: %r' % n)
    through_links(R)


def is_files(v):
    """the list of files in the metadata of the package"""
    v = strip(v)
    while cname(v) in ('sorted', 'list', 'tuple', 'reversed', 'iter', 'set'):
        v = v[2][0]
    if cname(v) in ('.get',):
        return len(v[2]) > 1 and v[2][1] == const('files')
    return v[0] == 'item' and v[2] == const('files') or v[0] == 'attr' and v[2] == 'files'


def skipped(loop, w):
    """the loop may leave out a member called w"""
    return any(possible(p, name=w) is not False for r in loop.kw if r[0] == 'skip' for p in rec_paths(r))


def refused(loop, **member):
    """no iteration of the loop passes over a member like that"""
    key = (id(loop), tuple(sorted(member.items())))
    if key not in REFUSED:
        REFUSED[key] = (loop, not any(possible(p, **member) is not False for r in loop.kw
                                      if r[0] in ('next', 'skip') for p in rec_paths(r)))
    return REFUSED[key][1]


REFUSED = {}


def refused_elem(loop, w):
    e = strip(('elem', loop.args[0]))
    for r in loop.kw:
        if r[0] in ('next', 'skip'):
            for p in rec_paths(r):
                if consistent(p, lambda a: foldb(a, {e: w})) is not False:
                    return False
    return True


# ------------------------------------------------- members below links

LINKS = ('l', './l', 'a/l', 'a//l', 'a/./l')
SAFE_TARGET, OUTSIDE = 'x', ('/etc', '..', '../..', 'x/../..', '../../x')


def below(m, l):
    m, l = posixpath.normpath(m), posixpath.normpath(l)
    return m == l or m.startswith(l + '/')


def through_links(R):
    found = {'package': 0, 'archive': 0}
    for what, A, outs in entries(R, step_fors=True):
        loops = [t for t in A.transitions if t[0].t == 'For' and is_tar(strip(A_coll(t)))]
        if not loops:
            R.ob('not-through-links', what, False, None, 'the members of tar archives are not looked at')
            continue
        good = [t for t in loops if link_loop(A, t)]
        # one loop per archive is enough; all loops over one archive are alike
        archives = {base_of(A_coll(t)) for t in loops}
        for a in archives:
            R.ob('not-through-links', '%s: %s' % (what, a[1]), any(base_of(A_coll(t)) == a for t in good),
                 (loops[0][0].file, loops[0][0].line),
                 'members below a symbolic link of the archive are not refused')


def A_coll(t):
    return t[6]


def is_tar(coll):
    b = base_of(coll)
    return b is not None and cname(b) in TARS


def link_loop(A, t):
    """does the loop refuse members below links"""
    node, entry, head, outs, exits, cx = t[:6]
    nexts = [(s, k, v) for s, k, v in outs if k in ('next', 'cont')]

    # links that lead outside are refused
    if all(possible(s.path, name='l', link=w, kind='sym') is False
           for s, k, v in nexts for w in OUTSIDE):
        return True
    # where the names of links are remembered
    stores = None
    for l in LINKS:
        for s, k, v in nexts:
            if possible(s.path, name=l, link='x', kind='sym') is False:
                continue
            here = set()
            for e in s.events():
                if e.kind == 'mut' and e.name in ('add', 'append', 'insert', 'extend', 'update'):
                    val = strip(s.freeze(e.args[-1]))
                    here.add((source(e.args[0]), val))
            for a, o in s.heap.items():
                h = head.heap.get(a)
                if isinstance(o, L) and isinstance(h, L) and o.segs != h.segs:
                    for g in o.segs:
                        if g[0] == 'one' and g not in h.segs:
                            here.add((source(head.freeze(('ref', a))), strip(s.freeze(g[1]))))
            keys = {b for b, val in here}
            stores = keys if stores is None else stores & keys
            memory = {b: val for b, val in here}
            good = set()
            for b in stores:
                val = memory.get(b)
                if val is None:
                    continue
                env = member_env([val], name=l, link='x', kind='sym')
                w = fold(val, env)
                if isinstance(w, str) and all(tested(A, s2, head, b, w, m, kw, l)
                                              for m, kw in cases(l) for s2, k2, v2 in nexts):
                    good.add(b)
            stores = good
            if not stores:
                return False
    return True


def source(v):
    """what the values of a collection come from"""
    v = strip(v)
    if v[0] == 'L' and len(v[2]) == 1 and v[2][0][0] == 'all':
        return v[2][0][1]
    return v


def cases(l):
    """members at or below the link l"""
    n = posixpath.normpath(l)
    ms = [n, n + '/x', './' + n + '/x/y', n + '/x/../y/z', n + '/', n.replace('/', '//') + '//x']
    for m in ms:
        yield m, dict(name=m, link='x', kind='file')
        yield m, dict(name=m, link='x', kind='dir')
        yield m, dict(name='other', link=m, kind='lnk')


def tested(A, s, head, memory, w, m, member, l):
    """the iteration is impossible for the member if w is in the memory"""
    if possible(s.path, **member) is False:
        return True
    terms = [a for a, p in s.path]
    env = member_env(terms, **member)
    for a, p in s.path:
        if not p and holds_for(strip(a), memory, w, env) is True:
            return True
    for e in s.events():
        if e.kind == 'loop' and e.name == 'done':
            if e.args[0][0] == 'while':
                for t in A.transitions:
                    if ('while', t[0].uid) == e.args[0] and walk(t, memory, w, member):
                        return True
            else:
                if for_tested(e, memory, w, member):
                    return True
    return False


def holds_for(a, memory, w, env):
    """truth of an atom about the memory if w is all it holds"""
    if a[0] == 'cmp' and a[1] == 'in' and source(a[3]) == memory:
        x = fold(a[2], env)
        return None if x is UNKNOWN else x == w
    if a[0] == 'truth' and cname(a[1]) == '.startswith' and len(a[1][2]) == 2:
        e = [x for x in subterms(a[1][2][1]) if isinstance(x, tuple) and x and x[0] in ('elem', 'wit')
             and source(x[1]) == memory]
        if e:
            env = dict(env)
            env[e[0]] = w
            return foldb(a, env)
    return None


def valued(memory, w, env):
    def val(a):
        r = holds_for(a, memory, w, env)
        return foldb(a, env) if r is None else r
    return val


def walk(t, memory, w, member):
    """a while loop that looks for a name and what is above it in the memory"""
    node, entry, head, outs, exits, cx = t[:6]
    frame = head.obj(('ref', cx.frame)).vars
    unknown = {}
    start = entry.obj(('ref', cx.frame)).vars
    for n, v in frame.items():
        if v[0] == 'hv' and v[2] == node.uid:
            init = strip(start.get(n, v))
            val = fold(init, member_env([init], **member))
            if val is not UNKNOWN:
                unknown[v] = (n, val)
    if not unknown:
        return False
    for step in range(20):
        env = {strip(v): x for v, (n, x) in unknown.items()}
        chosen = None
        for s, k, v in outs:
            e2 = dict(member_env([a for a, p in s.path], **member))
            e2.update(env)
            hit = [1 for a, p in s.path if p and holds_for(strip(a), memory, w, e2)]
            if consistent(s.path, valued(memory, w, e2)) is False:
                continue
            if k == 'exc':
                if hit:
                    return True
                return False
            if k not in ('next', 'cont'):
                return False
            chosen = (s, e2)
        if chosen is None:
            return False
        s, e2 = chosen
        vars = s.obj(('ref', cx.frame)).vars
        nxt = {}
        for v, (n, x) in unknown.items():
            y = fold(strip(vars[n]), e2)
            if y is UNKNOWN:
                return False
            nxt[v] = (n, y)
        if nxt == unknown:
            return False
        unknown = nxt
    return False


def for_tested(e, memory, w, member):
    """a for loop over the names above a member, or over the memory"""
    coll = strip(e.args[0])
    elem = ('elem', coll)
    nexts = [r for r in e.kw if r[0] in ('next', 'skip')]
    if source(coll) == memory:
        for r in nexts:
            for p in rec_paths(r):
                env = member_env([a for a, q in p], **member)
                env[elem] = w
                if consistent(p, lambda a: foldb(a, env)) is not False:
                    return False
        return True
    items = fold_items(coll, member)
    if items is None:
        return False
    for x in items:
        ok = True
        for r in nexts:
            for p in rec_paths(r):
                env = member_env([a for a, q in p], **member)
                env[elem] = x
                if consistent(p, valued(memory, w, env)) is not False:
                    ok = False
        if ok:
            return True
    return False


def fold_items(coll, member):
    if cname(coll) in ('range', 'xrange'):
        a = [fold(x, member_env([x], **member)) for x in coll[2]]
        if UNKNOWN in a:
            return None
        return list(range(*a))
    r = fold(coll, member_env([coll], **member))
    return list(r) if isinstance(r, (list, tuple)) else None


# --------------------------------------------------------------- digests

def digest(v):
    """(hash class, what was hashed) of a hexadecimal digest"""
    v = strip(v)
    while cname(v) in ('str', 'unicode', '.lower', '.upper'):
        if cname(v) in ('.lower', '.upper'):
            return None
        v = v[2][0]
    if cname(v) != '.hexdigest' or not v[2]:
        return None
    made = v[2][0]
    data = list(v[2][1][1:] if len(v[2]) > 1 and v[2][1][:1] == ('tup',) else v[2][1] if len(v[2]) > 1 else ())
    if cname(made) == '()':
        cls, args = made[2][0], made[2][1:]
    elif cname(made) == 'hashlib.new':
        cls, args = ext('hashlib.' + made[2][0][2]) if is_str(made[2][0]) else None, made[2][1:]
    elif cname(made):
        cls, args = ext(made[1]), made[2]
    else:
        return None
    return cls, list(args) + data


def hashed(o, v, ok_file):
    """the reads of one file whose results, all of the file from where it was,
    make up what the digest v is of; None: it is of something else"""
    from .fetching import copies
    made = strip(v)
    while cname(made) in ('str', 'unicode'):
        made = made[2][0]
    made = made[2][0]
    cls, data = digest(v)

    def sink(x):
        return strip(x.args[1]) if x.kind == 'hash' and strip(x.args[0]) == made else None

    def whole(d):
        return cname(d) == '.read' and len(d[2]) == 1 and ok_file(d[2][0])
    found = []
    given = list(made[2][1:] if cname(made) in ('()', 'hashlib.new') else made[2])
    updates = [strip(e.args[1]) for e in o.events if e.kind == 'hash' and strip(e.args[0]) == made]
    if not given and data and strip(data[0]) not in updates and not any(
            e.kind == 'loop' and any(sink(x) is not None for r in e.kw for x in r[2]) for e in o.events):
        given = [strip(data[0])]        # what it was made with
    for d in given:
        if d != const(''):
            found.append([d] if whole(d) else None)
    for e in o.events:
        if e.kind == 'hash' and strip(e.args[0]) == made:
            d = strip(e.args[1])
            found.append([d] if whole(d) else None)
        elif e.kind == 'loop' and any(sink(x) is not None for r in e.kw for x in r[2]):
            reads = [strip(x.res) for r in e.kw for x in r[2] if x.kind == 'call' and x.name == '.read' and
                     ok_file(strip(x.args[0]))]
            ok = copies(e, sink, lambda x: x.kind == 'call' and x.name == '.read' and ok_file(strip(x.args[0])),
                        lambda x: False, False)
            found.append(reads if ok and len({r[2][0] for r in reads}) == 1 else None)
    return found[0] if len(found) == 1 else None


def only_reads(o, reads):
    """nothing else is done with the file"""
    f = reads[0][2][0]
    return all(strip(e.res) in reads or e.name == '.close' for e in flatten(o.events)
               if e.kind == 'call' and e.args and strip(e.args[0]) == f)


HASHES = ('sha512', 'sha384', 'sha256', 'sha224', 'sha1', 'md5')


def verified(o, f):
    """positions of checksum verifications of the file f"""
    return indexes(o.events, lambda e: method_named(e, 'verify_checksum') and same(e.args[0], f))


def backends(A):
    """the classes the entry points of setup.py name"""
    from .fetching import backend_classes
    return backend_classes(A)


def c10(R):
    R.rule('strongest', 'of the checksums given for a file, the strongest one is expected, with its own hash class')
    R.rule('verified-first', 'a file of a formula is verified before anybody gets it')
    R.rule('compares', 'verification succeeds only if no hash is expected or the digest of the whole content equals '
           'the expected one; otherwise it raises an ipkg error')
    R.rule('rewinds', 'after verification the file is read from where it was before')
    R.rule('only-through-open', 'a build gets the content of its sources and patches from their open method')
    n = 0
    for k in range(64):
        given = [h for i, h in enumerate(HASHES) if k >> i & 1]
        A = analysis(raises=False)
        A.opaque |= {OPEN}
        made = A.new(A.fresh(), FORMULA_FILE, [sym('url')], [(h, sym('the ' + h)) for h in given])
        where = loc_of(A, 'ipkg.build.File.open')
        R.ob('strongest', 'File', bool(made) and all(m.ok for m in made), where,
             'a file with checksums %s cannot be described' % given)
        for m in made:
            if not m.ok:
                continue
            s = reset(A, m.st)
            outs = A.method(s, m.val, 'open')
            R.saw(A, outs)
            for o in outs:
                if not o.ok:
                    continue
                n += 1
                opens = [e for e in o.events if is_call(e, OPEN)]
                f = o.ret()
                good = [e for e in opens if same(e.res, f)]
                if not R.ob('verified-first', 'File.open: returns', len(good) == 1, where,
                            'returns %s' % show(f)[:200]):
                    continue
                e = good[0]
                R.ob('verified-first', 'File.open: url', same(argument(e, 0, 'url') or NONE, sym('url')), e.loc,
                     'opens %s' % show(e.args[:1])[:200])
                eh, hc = argument(e, 1, 'expected_hash'), argument(e, 2, 'hash_class')
                if given:
                    want = next(h for h in HASHES if h in given)
                    R.ob('strongest', 'File', eh is not None and hc is not None and same(eh, sym('the ' + want)) and
                         same(hc, ext('hashlib.' + want)), e.loc, 'given %s, expects %s with %s' % (
                             given, show(eh) if eh else None, show(hc) if hc else None))
                    R.ob('verified-first', 'File.open', bool(verified(o, f)), e.loc,
                         'the file is returned without verification')
                else:
                    R.ob('strongest', 'File without checksum', eh is None or eh == NONE, e.loc,
                         'expects %s' % (show(eh) if eh else None))
    R.ob('verified-first', 'File.open opens', n >= 64, loc_of(analysis(), 'ipkg.build.File.open'))
    A = analysis(raises=False)
    classes = backends(A)
    for c in classes:
        verification(R, c)
    sources(R)


def verification(R, c):
    EH, HC = sym('expected'), sym('class')
    A = analysis(raises=False)
    A.step_whiles = True
    short = c.rsplit('.', 1)[1]
    n = 0
    for m in A.new(A.fresh(), c, [sym('url')], [('expected_hash', EH), ('hash_class', HC)]):
        if not m.ok:
            continue
        s = reset(A, m.st)
        outs = A.method(s, m.val, 'verify_checksum')
        R.saw(A, outs)
        where = loc_of(A, c + '.verify_checksum')
        for o in outs:
            if not o.ok:
                R.ob('compares', short + ': error', o.exc_is('ipkg.exceptions.IpkgException'), where,
                     'fails with %s' % o.exc())
                continue
            n += 1
            if tri(o.st.path, ('isnone', EH)) is True:
                continue
            hit = None
            for a, p in o.st.path:
                a = strip(a)
                if a[0] == 'cmp' and a[1] == '==' and p or a[0] == 'cmp' and a[1] == '!=' and not p:
                    for x, y in ((a[2], a[3]), (a[3], a[2])):
                        d = digest(x)
                        if d and d[0] == HC and as_expected(y, EH):
                            hit = hashed(o, x, lambda f: True)
            if not R.ob('compares', short, hit is not None, where,
                        'verification succeeds if ' + o.describe()[:300]):
                continue
            R.ob('rewinds', short, all(rewound(o, d, hit) for d in hit), where,
                 'the position of the file is not restored')
    R.ob('compares', short + ' verifies', n > 0, None, 'verification never succeeds')


def as_expected(v, EH):
    while cname(v) in ('.lower', '.strip', 'str'):
        v = v[2][0]
    return v == EH


def rewound(o, data, hit):
    """after the data was read from a file the next thing done is to seek
    back to where the file was before"""
    f = data[2][0]
    evs = [e for e in flatten(o.events) if e.kind == 'call' and e.args and same(e.args[0], f) and
           e.name in ('.read', '.seek', '.tell', '.readlines', '.readline', '.write')]
    reads = [i for i, e in enumerate(evs) if strip(e.res) == data]
    seeks = [i for i, e in enumerate(evs) if e.name == '.seek']
    if not reads or not seeks or any(e.name != '.tell' for e in evs[seeks[-1] + 1:]):
        return False
    t = evs[seeks[-1]].args[1:]
    if not t or len(t) > 1 and t[1] not in (const(0), ext('os.SEEK_SET')):
        return False
    # the read that was hashed is the last one
    for i, e in enumerate(evs[:seeks[-1]]):
        if e.name == '.tell' and e.res == t[0]:
            rest = [x.name for x in evs[i + 1:seeks[-1]]]
            return '.read' in rest and not set(rest) - {'.read', '.tell'} and all(
                strip(x.res) in hit for x in evs[i + 1:seeks[-1]] if x.name == '.read')
    return False


def sources(R):
    from .building import each_build
    S, P = sym('sources'), sym('patches')
    W = 'Formula.build'
    n = 0
    for B in each_build(R):
        for e in flatten(B.evs):
            if e.kind != 'call':
                continue
            if is_call(e, '.open') and about(e.args[0], S, P):
                n += 1
            for x in list(e.args) + [v for k, v in e.kw or ()]:
                for t in outermost(strip(x), S, P):
                    R.ob('only-through-open', W, is_call(e, '.open') and x == e.args[0] or
                         cname(t) == '.open' or plain(e), e.loc, '%r gets %s' % (e.name, show(t)[:200]))
    R.ob('only-through-open', W + ' opens', n > 0, None, 'neither sources nor patches are opened')


def plain(e):
    """calls that only show the file or ask for its name"""
    return e.name in ('str', 'repr', 'len', 'bool', 'list', 'tuple', 'isinstance', 'print', '.join', 'enumerate') or \
        isinstance(e.name, str) and e.name.startswith(('logging', '.debug', '.info', '.warning', '.error'))


def about(t, *what):
    t = strip(t)
    while t[0] in ('elem', 'item'):
        t = t[1]
    return t in what


def outermost(t, *what):
    """the largest subterms that say how sources or patches are used"""
    if about(t, *what):
        return [t]
    if t and t[0] == 'attr' and about(t[1], *what):
        return [t]
    if cname(t) in ('.open',) and t[2] and about(t[2][0], *what):
        return [t]
    out = []
    for x in t:
        if isinstance(x, tuple) and x:
            out += outermost(x, *what)
        elif isinstance(x, frozenset):
            pass
    return out


# --------------------------------------------------------------- packages

def c11(R):
    R.rule('recorded', 'a package added to a repository is recorded with the sha256 digest of its whole file')
    R.rule('passed-on', 'a package found in a repository carries its entry')
    R.rule('verified-first', 'a package with a recorded checksum is opened expecting it, as sha256, and verified '
           'before the archive is read')
    from . import indexing as X
    A, s, repo, meta = X.repository(R, opaque=X.OPAQUE - {X.ADD})
    A.step_whiles = True
    where = loc_of(A, X.ADD)
    n = 0
    for o in A.method(s, repo, 'add', [sym('package')]):
        if not o.ok:
            continue
        P, filed = X.the_package(A, o)
        c = content_of(o.st, meta)
        names = [strip(v) for v in values_of(A, o.st, P, 'name')]
        paths = [strip(v) for v in values_of(A, o.st, P, 'path')]
        for k, v in o.st.obj(c).items:
            v = o.st.freeze(v)
            if strip(o.st.freeze(k)) in names and v[0] == 'L' and v[2] and v[2][-1][0] == 'one':
                n += 1
                entry = o.st.freeze(v[2][-1][1])
                sums = [x for key, x in entry[1] if key == const('checksum')] if entry[0] == 'D' else []
                d = digest(sums[0]) if sums else None
                reads = hashed(o, sums[0], lambda f: cname(f) in ('open', OPEN) and f[2] and
                               strip(f[2][0]) in paths) if d is not None else None
                ok = reads and d[0] == ext('hashlib.sha256') and only_reads(o, reads)
                R.ob('recorded', 'LocalPackageRepository.add', ok, where, 'the checksum recorded is %s' % (
                    show(sums[0])[:300] if sums else None))
    R.ob('recorded', 'LocalPackageRepository.add records', n > 0, where)
    # found packages carry the entry
    from .indexing import made_packages
    for how in ('__iter__', 'find'):
        A, s, repo, meta = X.repository(R, cls='ipkg.repositories.PackageRepository', opaque=X.OPAQUE | {
            'ipkg.requirements.Requirement.__init__', 'ipkg.requirements.Requirement.satisfied_by'})
        outs = A.method(s, repo, how, [sym('requirement')] if how == 'find' else [])
        R.saw(A, outs)
        carried(R, A, outs, how)
    opening(R)


def carried(R, A, outs, how):
    """packages found are made with the entry their path is made of"""
    where = loc_of(A, 'ipkg.repositories.PackageRepository.' + how)
    n = 0
    for o in outs:
        if not o.ok:
            continue
        from . import indexing as X
        for p in X.made_packages(A, o):
            n += 1
            path = strip(o.st.freeze(o.st.obj(p).attrs.get('path', NONE)))
            items = [t for t in subterms(path) if isinstance(t, tuple) and t[:1] == ('elem',)]
            entry = max(items, key=size) if items else None
            attrs = o.st.obj(p).attrs
            held = [strip(o.st.freeze(v)) for k, v in attrs.items() if k.rstrip('_').endswith('meta')]
            R.ob('passed-on', 'PackageRepository.' + how, entry is not None and (entry in held or any(
                copy_of(h, entry) for h in held)), where, 'a package at %s is made with %s' % (
                    show(path)[:200], [show(h)[:200] for h in held]))
    R.ob('passed-on', 'PackageRepository.%s gives packages' % how, n > 0, where)


def copy_of(h, entry):
    return h[0] == 'D' and not h[1] and not h[3] and [strip(b[1]) for b in h[2] if b[0] == 'all'] == [entry] or \
        cname(h) in ('dict', '.copy', 'copy.copy') and h[2] and h[2][0] == entry


def opening(R):
    meta = sym('meta')
    A = analysis(raises=False)
    A.opaque |= OPAQUE | {'ipkg.utils.check_tar_members'}
    A.step_whiles = True
    o = instance(A, A.fresh(), PACKAGE, [sym('path'), meta])[0]
    for method, args in (('extract', [TARGET]), ('meta', None)):
        s = reset(A, o.st.copy())
        if args is None:
            P = instance(A, A.fresh(), PACKAGE, [sym('path')])[0]
            s = reset(A, P.st)
            outs = attribute(A, s, P.val, method)
        else:
            outs = A.method(s, o.val, method, args)
        R.saw(A, outs)
        n = 0
        where = loc_of(A, PACKAGE + '.extract')
        for x in outs:
            for i, e in enumerate(x.events):
                if is_call(e, *TARS):
                    n += 1
                    opened(R, x, i, e, meta if args is not None else None)
        R.ob('verified-first', 'PackageFile opens: ' + method, n > 0, where)


def attribute(A, st, obj, name):
    cx = A.cx(st, [obj])
    return [Outcome(s, k, v, A) for s, k, v in A.getattr_(st, obj, name, cx, A.node())]


def opened(R, o, i, e, meta):
    """the archive opened by e comes from the file of the package"""
    f = argument(e, 2, 'fileobj')
    if f is None:
        R.ob('verified-first', 'PackageFile: file', False, e.loc, 'the archive is opened as %s' % show(e.res)[:200])
        return
    opens = [x for x in o.events[:i] if is_call(x, OPEN) and same(x.res, f)]
    if not R.ob('verified-first', 'PackageFile: file', len(opens) == 1 and same(
            argument(opens[0], 0, 'url'), sym('path')), e.loc, 'the archive is read from %s' % show(f)[:200]):
        return
    if meta is None:
        return
    x = opens[0]
    eh = argument(x, 1, 'expected_hash')
    hc = argument(x, 2, 'hash_class')
    if unset(o.st.path, meta):
        return
    R.ob('verified-first', 'PackageFile: expected', eh is not None and recorded(strip(eh), meta), x.loc,
         'expects %s if %s' % (show(eh) if eh else None, o.describe()[:200]))
    R.ob('verified-first', 'PackageFile: sha256', hc is None or same(hc, ext('hashlib.sha256')),
         x.loc, 'hash class %s' % (show(hc) if hc else None))
    v = [j for j in verified(o, f) if j < i]
    R.ob('verified-first', 'PackageFile', bool(v), e.loc,
         'the archive is read without verification if %s' % o.describe()[:200])


def recorded(v, meta):
    return v == ('item', meta, const('checksum')) or cname(v) == '.get' and v[2][:2] == (meta, const('checksum'))


def unset(path, meta):
    """no checksum is recorded"""
    for a, p in path:
        a = strip(a)
        if a[0] == 'cmp' and a[1] == 'in' and a[2] == const('checksum') and a[3] == meta and not p:
            return True
        if a[0] == 'truth' and (a[1] == meta or recorded(a[1], meta)) and not p:
            return True
        if a[0] == 'isnone' and (a[1] == meta or recorded(a[1], meta)) and p:
            return True
    return False


# --------------------------------------------------------------- single root

KNOWN = (('tar', ('a.tar.gz', 'a.tar.bz2', 'a-1.2.tar.gz', 'b.tar.tar.bz2', 'zip.tar.gz', 'a.zip.tar.gz')),
         ('xz', ('a.tar.xz', 'a-1.2.tar.xz')),
         ('zip', ('a.zip', 'a-1.2.zip', 'a.tar.gz.zip', 'http://h/a.zip')))
OTHERS = ('azip', 'a.gzip', 'a.xzip', 'atar.gz', 'a.gz', 'a.rar', 'foo', 'a.tar.gz.txt', 'a.zip.asc', 'targz', 'a.7z', '')


def c17(R):
    R.rule('single-root', 'an archive is unpacked only if the set of first components of all member names has '
           'exactly one element')
    R.rule('returns-root', 'the directory returned is that element below the target directory')
    R.rule('format', 'the format is chosen by the extension of the name; xz is uncompressed first; any other name '
           'is refused with an ipkg error')
    A = analysis(raises=False)
    A.opaque |= OPAQUE | {'ipkg.utils.check_tar_members', 'ipkg.utils.check_relative_path'}
    A.step_whiles = True
    outs = A.run(A.fresh(), UNARCHIVE, [FILE, TARGET])
    R.saw(A, outs)
    where = loc_of(A, UNARCHIVE)
    n = 0
    for o in outs:
        ex = extractions(o)
        if not o.ok:
            R.ob('format', 'refused', o.exc_is('ipkg.exceptions.IpkgException'), where, 'fails with %s' % o.exc())
            R.ob('single-root', 'refused before unpacking', not ex, where,
                 'something is unpacked although the archive is refused')
            continue
        n += 1
        if not R.ob('single-root', 'unpacks', len(ex) == 1, where, '%d archives are unpacked' % len(ex)):
            continue
        i, e, archive, target, members = ex[0]
        R.ob('single-root', 'unpacks all', members is None, e.loc, 'only %s is unpacked' % show(members or NONE)[:100])
        # a set of names whose size the path fixes at one
        sets = []
        for t in subterms(tuple(a for a, p in o.st.path)):
            if isinstance(t, tuple) and t and t[0] == 'L' and root_names(t, archive) and t not in sets:
                sets.append(t)
        ok = [t for t in sets if one_only(o, strip(t))]
        R.ob('single-root', 'one root', bool(ok), e.loc, 'an archive is unpacked if %s' % o.describe()[:300])
        v = o.ret()
        R.ob('returns-root', 'unarchive', cname(v) == 'os.path.join' and len(v[2]) == 2 and same(v[2][0], TARGET) and
             any(only_item(v[2][1], t) for t in sets), where, 'returns %s' % show(v)[:300])
    R.ob('single-root', 'unarchive unpacks', n > 0, where)
    named = ('attr', FILE, 'name')
    for kind, names in KNOWN + (('none', OTHERS),):
        for w in names:
            hits = 0
            for o in outs:
                env = {}
                for a, p in o.st.path:
                    for x in subterms(strip(a)):
                        if x == named:
                            env[x] = w
                if consistent(o.st.path, lambda a: foldb(a, env)) is False:
                    continue
                if not o.ok:
                    continue
                hits += 1
                ex = extractions(o)
                R.ob('format', kind, kind != 'none' and bool(ex) and source_of(ex[0][2], kind), where,
                     '%r is unpacked with %s' % (w, show(ex[0][2])[:200] if ex else None))
            if kind != 'none':
                R.ob('format', kind + ' supported', hits > 0, where, '%r cannot be unpacked' % w)


def source_of(archive, kind):
    want = FILE
    if cname(archive) not in (ZIPS if kind == 'zip' else TARS):
        return False
    f = archive[2][0] if kind == 'zip' and archive[2] else dict(archive[3]).get('fileobj') if archive[3] else \
        archive[2][2] if len(archive[2]) > 2 else None
    if f is None:
        return False
    f = strip(f)
    if kind != 'xz':
        return f == FILE
    if cname(f) not in ('StringIO', 'StringIO.StringIO', 'cStringIO.StringIO', 'io.BytesIO') or not f[2]:
        return False
    x = f[2][0]
    return x[0] == 'item' and x[2] == const(0) and cname(x[1]) == EXEC and \
        mentions(x[1], strip(call('.read', (FILE,)))) and any(is_str(y) and y[2].split()[:2] == ['xz', '-d'] or
                                                       y[0] in ('L', 'tup') and 'xz' in show(y) and '-d' in show(y)
                                                       for y in x[1][2])


def root_names(t, archive):
    """a collection of the first components of all names of the archive"""
    t = strip(t)
    if len(t[2]) != 1 or t[2][0][0] != 'many':
        return False
    g = t[2][0]
    if base_of(g[3]) != archive or g[2]:
        return False
    e = ('elem', g[3])
    v = g[1]
    for w, first in (('r/a/b', 'r'), ('x', 'x'), ('r/', 'r'), ('a.b/c', 'a.b')):
        if fold(v, member_env([v], name=w)) != first:
            return False
    return True


def one_only(o, t):
    for k in (0, 2, 3):
        vals = {strip(call('len', (t,))): k}

        def val(a):
            if a == ('truth', t):
                return k > 0
            return foldb(a, vals)
        if consistent(o.st.path, val) is not False:
            return False
    return True


def plain_items(v):
    """sets and lists of the same items look the same"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'L' and isinstance(v[1], str):
            v = ('L', '', v[2])
        return tuple(plain_items(x) if isinstance(x, tuple) else x for x in v)
    return v


def only_item(v, t):
    """the item taken out of t"""
    v, t = plain_items(strip(v)), plain_items(strip(t))
    if v[0] == 'popped':
        return v[1] == t
    if v[0] == 'item':
        return v[1] == t or cname(v[1]) in ('list', 'sorted', 'tuple') and v[1][2][0] == t
    if cname(v) in ('next', 'min', 'max', '.pop'):
        x = v[2][0]
        return x == t or cname(x) == 'iter' and x[2][0] == t
    return v[0] in ('elem', 'wit', 'last') and v[1] == t


CHECKS = {'C07': c07, 'C10': c10, 'C11': c11, 'C17': c17}
