"""C48: making the directories of an environment"""
from .base import *

MKDIR = 'ipkg.utils.mkdir'
DIRS, ENV = 'ipkg.environments.EnvironmentDirectories', 'ipkg.environments.Environment'
ERROR = 'ipkg.exceptions.IpkgException'
DIR, FAIL = sym('directory'), sym('fail')
THERE = ('os.path.exists', 'os.path.isdir', 'os.path.lexists')
MAKERS = (MKDIR, 'os.makedirs', 'os.mkdir')


def making(R):
    """one directory: made, allowed to exist, or reported"""
    A = analysis(raises=True)
    loc = loc_of(A, MKDIR)
    outs = A.run(A.fresh(), MKDIR, [DIR, FAIL])
    R.saw(A, outs)
    made = 0
    for o in outs:
        evs = o.flat()
        tries = [e for e in evs if e.kind == 'call' and e.name in ('os.mkdir', 'os.makedirs')]
        failed = [e for e in evs if e.kind == 'failed' and e.name in ('os.mkdir', 'os.makedirs')]
        R.ob('made', 'mkdir', all(e.args and strip(e.args[0]) == DIR for e in tries), loc,
             'makes %s' % [show(x) for e in tries for x in e.args[:1]])
        made += o.ok and bool(tries) and not failed
        for errno, fail in ((e, f) for e in ('EEXIST', 'EACCES', 'ENOENT', 'EPERM', None) for f in (True, False)):
            if (errno is not None) != bool(failed) and (tries or errno not in ('EEXIST', None)):
                continue

            def model(t, env, errno=errno):
                if t[0] == 'ext' and t[1].startswith('errno.'):
                    return t[1][6:]
                if t[0] == 'attr' and t[2] == 'errno' and failed:
                    return errno
                if cname(t) in THERE and len(t[2]) == 1 and t[2][0] == DIR:
                    return errno == 'EEXIST'
                return UNKNOWN
            env = {FAIL: fail, 'model': model}
            if consistent(o.st.path, lambda a: foldb(strip(a), env)) is False:
                continue
            what = '%s, existing directories %s' % (errno or 'success', 'refused' if fail else 'allowed')
            if errno is None or errno == 'EEXIST' and not fail:
                R.ob('reported', 'mkdir: ' + what, o.ok, loc, '%s raised' % (o.exc() if not o.ok else ''))
            else:
                R.ob('reported', 'mkdir: ' + what, not o.ok and o.exc_is(ERROR), loc,
                     'ends normally' if o.ok else '%s raised' % o.exc())
    R.ob('made', 'mkdir works', made > 0, loc, 'no directory is ever made')


def text(v):
    r = fold(strip(v), {})
    return r if isinstance(r, str) else None


def creation(R):
    """all directories, parents first"""
    for prefix in ('/opt/e', '/zz/a b/env-1.0'):
        A = analysis(raises=True)
        A.opaque |= {MKDIR}
        A.raises_only = set(MAKERS)
        A.note_orders = True
        loc = loc_of(A, DIRS + '.create')
        n = 0
        for d in A.new(A.fresh(), DIRS, [const(prefix)]):
            if not d.ok:
                R.ob('all', DIRS, False, loc, '%s raised' % d.exc())
                continue
            items = contents(A, d)
            want = {text(v) for v in items}
            R.ob('all', DIRS, None not in want and prefix in want and len(want) >= 2 and all(
                w == prefix or w.startswith(prefix + '/') for w in want if w), loc,
                'the directories are %s' % [show(v)[:60] for v in items])
            for args in ([], [FAIL]):
                outs = A.method(reset(A, d.st.copy()), d.val, 'create', args)
                R.saw(A, outs)
                for o in outs:
                    evs = o.flat()
                    if not o.ok:
                        continue
                    n += 1
                    bad = [e for e in evs if e.kind == 'failed']
                    R.ob('all', 'create: failures', not bad, loc, 'a directory that cannot be made is passed over')
                    if bad:
                        continue
                    calls = [(i, e) for i, e in enumerate(evs) if e.kind == 'call' and e.name in MAKERS]
                    got = [text(e.args[0]) for i, e in calls]
                    R.ob('all', 'create', sorted(got, key=repr) == sorted(want, key=repr), loc, 'makes %s' % got)
                    notes = [e for e in evs[:calls[0][0] if calls else 0] if e.kind == 'log' and
                             e.name in ('unordered', 'sorted', 'reversed')]
                    order = got
                    if notes:
                        order = in_order(notes[-1], got)
                    R.ob('parents-first', 'create', order is not None and all(
                        p is None or p not in order or order.index(p) < i for i, p in (
                            (i, g.rsplit('/', 1)[0] if g else None) for i, g in enumerate(order))), loc,
                        'the order is %s' % (order or 'that of %s' % show(notes[-1].args[0])[-100:]))
                    for i, e in calls:
                        f = e.args[1] if len(e.args) > 1 else TRUE
                        R.ob('refused', 'create', f == (FAIL if args else TRUE) if e.name == MKDIR else True, e.loc,
                             'existing directories are %s' % show(f))
        R.ob('all', 'create works', n > 0, loc)


def in_order(e, got):
    """the directories made while going through what was sorted"""
    if e.name != 'sorted':
        return None
    v = e.args[0]
    inner = v[2][0]
    keys = [text(g[1]) for g in inner[2]] if inner[0] == 'L' and all(g[0] == 'one' for g in inner[2]) else \
        [text(k) for k, w in inner[1]] if inner[0] == 'D' and not inner[2] else []
    how = dict(v[3])
    key = how.pop('key', None)
    back = how.pop('reverse', FALSE)
    if len(keys) != len(got) or None in keys or how or key not in (None, ext('len'), const('len')) or \
            back not in (TRUE, FALSE):
        return None
    f = (lambda i: len(keys[i])) if key else (lambda i: keys[i])
    return [got[i] for i in sorted(range(len(keys)), key=f, reverse=back == TRUE)]


def contents(A, d):
    o = d.st.obj(d.val)
    for x in [o] + [d.st.obj(r) for r in getattr(o, 'attrs', {}).values() if d.st.is_ref(r, D)]:
        if isinstance(x, D):
            return [w for k, w in x.items]
    c = A.content(d.st, d.val)
    return [w for k, w in d.st.obj(c).items]


def temporary(R):
    """the directory of temporary files is emptied by making it anew"""
    A = analysis(raises=True)
    A.opaque |= {MKDIR}
    A.raises_only = {MKDIR}
    st = A.fresh()
    dirs = sym('directories')
    env = st.new(I(ENV, {'prefix': sym('prefix'), 'directories': dirs, 'variables': sym('variables'),
                         'meta': sym('meta')}))
    tmp = strip(('item', dirs, const('tmp')))
    loc = loc_of(A, ENV + '.cleanup_tmpdir')
    outs = A.method(reset(A, st.copy()), env, 'cleanup_tmpdir', [])
    R.saw(A, outs)
    good = 0
    for o in outs:
        evs = o.flat()
        if not o.ok:
            continue
        R.ob('temporary', 'cleanup_tmpdir: failures', not [e for e in evs if e.kind == 'failed'], loc,
             'a failure is passed over')
        gone = [(i, e) for i, e in enumerate(evs) if e.kind == 'call' and e.name in (
            'shutil.rmtree', 'os.rmdir', 'os.unlink', 'os.remove')]
        made = [i for i, e in enumerate(evs) if e.kind == 'call' and e.name in MAKERS and strip(e.args[0]) == tmp]
        for i, e in gone:
            R.ob('temporary', 'cleanup_tmpdir', bool(e.args) and mentions(strip(e.args[0]), tmp), e.loc,
                 'removes %s' % show(e.args[0]))
        R.ob('temporary', 'cleanup_tmpdir', any(i < made[-1] for i, e in gone) if made else not any(
            e.name == 'shutil.rmtree' and strip(e.args[0]) == tmp for i, e in gone) and bool(gone), loc,
            'the directory is not made anew after it was removed')
        good += 1
    R.ob('temporary', 'cleanup_tmpdir works', good > 0, loc)
    loc = loc_of(A, ENV + '.mktmpdir')
    outs = A.method(reset(A, st.copy()), env, 'mktmpdir', [sym('name')])
    R.saw(A, outs)
    for o in outs:
        if o.ok:
            v = strip(o.ret())
            R.ob('temporary', 'mktmpdir', cname(v) == 'tempfile.mkdtemp' and (
                dict(v[3]).get('dir') == tmp or tmp in v[2]), loc, 'gives %s' % show(v)[:200])


def c48(R):
    R.rule('made', 'mkdir makes the directory it is given')
    R.rule('reported', 'it ends normally only if the directory was made, or exists and may; else it raises an ipkg error')
    R.rule('all', 'creating an environment makes each of its directories, all below the prefix, once, and passes over '
           'no failure')
    R.rule('parents-first', 'each directory is made after the one it is in')
    R.rule('refused', 'whether directories may exist is decided by the caller, by default they may not')
    R.rule('temporary', 'temporary directories are made in the one of the environment, which is only removed to be made anew')
    making(R)
    creation(R)
    temporary(R)


CHECKS = {'C48': c48}
