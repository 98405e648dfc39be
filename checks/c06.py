"""C06: process crash, power loss and failing calls at every point of every short history of store operations."""
import os, errno, itertools, sqlite3
from lib import env, fsys
from lib.env import CLOCK, T0
from lib.stores import scratch_dir, rmtree
from openid.association import Association
from openid.store.filestore import FileOpenIDStore
from openid.store.sqlstore import SQLiteStore

LEVEL = 'fault_enumeration'
TECHNIQUE = ('explicit enumeration of every crash point, torn write, power-loss image and failing call of every operation history '
             'up to a bound, executed on the real file and SQLite stores; recovery compared with the allowed contents')
NOTE = 'crash points are the interposed file system calls / SQL statements; power loss uses an ordered-metadata, unsynced-data model'
RULE = ('history x (crash before / in the middle of / after each call | power-loss image | failing call with errno); non-trivial = the '
        'fault fell inside an operation, each distinct (history, point, surviving image) counted once')
ASSUMPTIONS = ['metadata changes survive power loss as a prefix in order; file data may be lost or torn until synced; '
               'fsync makes earlier metadata and the file data durable', 'a single fault per operation']
SRV, SRV2 = 'http://op.example/server', 'https://op2.example/x?y=z'


def A(h, k, issued=T0, life=10000, t='HMAC-SHA1'):
    return Association(h, bytes([k]) * (20 if t == 'HMAC-SHA1' else 32), issued, life, t)


V = {'h1': A('h1', 1), 'h1b': A('h1', 2, T0 + 5, 777, 'HMAC-SHA256'), 'h2': A('h2', 3, T0 + 1), 'exp': A('hx', 4, T0 - 20000, 100),
     's2': A('h1', 5)}
OPS = ['store:h1', 'store:h1b', 'store:h2', 'store:s2', 'get:h1', 'get:', 'get:hx', 'rm:h1', 'nonce:a', 'nonce:b', 'cleanA',
       'cleanN', 'clean', 'open']
INITS = {'none': None, 'empty': [], 'one': ['h1'], 'two': ['h1b', 'h2', 's2'], 'exp': ['exp', 'h1'], 'nonce': ['n:a', 'old', 'h1']}
KEYS = [(SRV, 'h1'), (SRV, 'h2'), (SRV2, 'h1')]


def show(a):
    return None if a is None else (a.handle, a.secret, a.issued, a.lifetime, a.assoc_type)


def srv(v):
    return SRV2 if v == 's2' else SRV


class Crash(BaseException):
    pass


class Model(object):
    """What the store holds: the value of each association and the used nonces."""

    def __init__(self):
        self.a = {k: None for k in KEYS}
        self.used = set()

    def copy(self):
        m = Model()
        m.a, m.used = dict(self.a), set(self.used)
        return m

    def apply(self, op):
        """Apply and return the expected result (None when the result does not matter)."""
        kind, _, arg = op.partition(':')
        if kind == 'store':
            v = V[arg]
            self.a[(srv(arg), v.handle)] = show(v)
            return ('any',)
        if kind == 'get':
            if arg:
                return ('is', self.a.get((SRV, arg)))
            mine = [x for (s, h), x in self.a.items() if s == SRV and x is not None]
            return ('is', max(mine, key=lambda x: x[2]) if mine else None)
        if kind == 'rm':
            was = self.a[(SRV, arg)] is not None
            self.a[(SRV, arg)] = None
            return ('is', was)
        if kind == 'nonce':
            new = arg not in self.used
            self.used.add(arg)
            return ('is', new)
        return ('any',)


def perform(store, op, directory=None):
    kind, _, arg = op.partition(':')
    if kind == 'store':
        return store.storeAssociation(srv(arg), V[arg])
    if kind == 'get':
        return show(store.getAssociation(SRV, arg or None))
    if kind == 'rm':
        return bool(store.removeAssociation(SRV, arg))
    if kind == 'nonce':
        return bool(store.useNonce(SRV, T0, arg))
    if kind == 'cleanA':
        return store.cleanupAssociations()
    if kind == 'cleanN':
        return store.cleanupNonces()
    if kind == 'clean':
        return store.cleanup()
    FileOpenIDStore(directory)


def setup(s, init, m):
    for x in init:
        if x == 'old':
            CLOCK.reset(T0 - 40000)
            s.useNonce(SRV, T0 - 40000, 'old')
            CLOCK.reset(T0)
        elif x.startswith('n:'):
            s.useNonce(SRV, T0, x[2:])
            m.used.add(x[2:])
        else:
            s.storeAssociation(srv(x), V[x])
            if x != 'exp':
                m.a[(srv(x), V[x].handle)] = show(V[x])


# -- file images ------------------------------------------------------------------------------------------------
REAL = {}


def snapshot(d):
    """(directories, {path: (inode, content, mode)}) with hooks off."""
    h = fsys.hook()
    fsys.set_hook(None)
    try:
        dirs, files = [], {}
        for base, ds, fs in os.walk(d):
            dirs.append(os.path.relpath(base, d))
            for f in fs:
                p = os.path.join(base, f)
                s = os.lstat(p)
                with open(p, 'rb') as fh:
                    files[os.path.relpath(p, d)] = (s.st_ino, fh.read(), s.st_mode & 0o777)
        return tuple(sorted(dirs)), files
    finally:
        fsys.set_hook(h)


def materialise(image):
    d = scratch_dir()
    dirs, files = image
    for r in dirs:
        os.makedirs(os.path.join(d, r), exist_ok=True)
    for r, (ino, data, mode) in files.items():
        p = os.path.join(d, r)
        with open(p, 'wb') as f:
            f.write(data)
        os.chmod(p, mode)
    return d


DEVNULL = os.open(os.devnull, os.O_WRONLY)


class H(fsys.Hook):
    """Counts calls; at call number `at` crashes ('crash'), writes half and crashes ('torn'), or fails ('fail'/'tornfail')."""

    def __init__(self, root, at=None, how=None, err=None):
        fsys.Hook.__init__(self, root)
        self.n = 0
        self.at, self.how, self.err = at, how, err
        self.dead = False
        self.fired = False
        self.calls = []
        self.images = None          # when a list: snapshot after each call (power loss)

    def kill(self):
        self.dead = True
        for fd in list(self.fds):
            try:
                os.dup2(DEVNULL, fd)
            except OSError:
                pass
        raise Crash()

    def before(self, name, args):
        if self.dead:
            raise Crash()
        k = self.n
        self.n += 1
        self.calls.append((name,) + tuple(os.path.basename(a)[:20] if isinstance(a, str) else '' for a in args[:1]))
        if k != self.at:
            return
        self.fired = True
        if self.how in ('torn', 'tornfail') and name in ('file.write', 'write'):
            data = args[1]
            half = data[:len(data) // 2]
            for fd, p in list(self.fds.items()):
                if p == args[0]:
                    fsys._orig['write'](fd, half if isinstance(half, bytes) else half.encode('utf-8'))
                    break
        if self.how in ('crash', 'torn'):
            self.kill()
        raise OSError(self.err, os.strerror(self.err), args[0] if args and isinstance(args[0], str) else None)

    def after(self, name, args, result):
        if self.images is not None and not self.dead:
            self.images.append((name, args[0] if args else None, snapshot(self.root)))


def verify(d, allowed, nonces, key, what, st, case):
    """A fresh store on d must work and hold one of the allowed values for each key; nonces: salt -> set of allowed answers."""
    bad = lambda w: st.violation(key, what + ': ' + w, case)
    try:
        s = FileOpenIDStore(d)
        for k in KEYS:
            got = show(s.getAssociation(*k))
            if got not in allowed[k]:
                return bad('reopened store has %r for %r, allowed %r' % (got, k, allowed[k]))
        whole = [x for k in KEYS if k[0] == SRV for x in allowed[k]]
        got = show(s.getAssociation(SRV))
        if got not in whole and got is not None:
            return bad('lookup without handle gave %r' % (got,))
        if got is None and all(None not in allowed[k] for k in KEYS[:1]):
            return bad('lookup without handle gave nothing')
        s.cleanup()
        for k in KEYS:
            got = show(s.getAssociation(*k))
            if got not in allowed[k]:
                return bad('after clean-up %r for %r' % (got, k))
        for salt, ok in sorted(nonces.items()):
            got = bool(s.useNonce(SRV, T0, salt))
            if got not in ok:
                return bad('nonce %s: use gives %r' % (salt, got))
            if s.useNonce(SRV, T0, salt):
                return bad('nonce %s accepted again' % salt)
        for v in ('h1', 'h1b', 's2'):
            s.storeAssociation(srv(v), V[v])
            if show(s.getAssociation(srv(v), V[v].handle)) != show(V[v]):
                return bad('the recovered store does not keep %s' % v)
        if not s.removeAssociation(SRV, 'h1') or s.getAssociation(SRV, 'h1') is not None:
            return bad('the recovered store does not remove')
    except Exception as e:
        return bad('recovery raised %s: %s' % (type(e).__name__, e))
    return True


def prepare(init_name, hist):
    """A directory on which `hist` has run completely, and the model."""
    CLOCK.reset(T0)
    d = scratch_dir()
    m = Model()
    versions = {k: [None] for k in KEYS}
    init = INITS[init_name]
    if init is not None:
        s = FileOpenIDStore(d)
        setup(s, init, m)
        versions = {k: [m.a[k]] for k in KEYS}
    else:
        s = None
    for op in hist:
        s = s or FileOpenIDStore(d)
        perform(s, op, d)
        m.apply(op)
        for k in KEYS:
            versions[k].append(m.a[k])
    return d, m, versions


def goal(m, op):
    """(model after op, allowed values for each key if op is cut short, allowed nonce answers then)."""
    m2 = m.copy()
    want = m2.apply(op)
    allowed = {k: ([m.a[k]] if m.a[k] == m2.a[k] else [m.a[k], m2.a[k]]) for k in KEYS}
    nonces = {n: ({False} if n in m.used else {True, False} if n in m2.used else {True}) for n in ('a', 'b', 'c')}
    return m2, want, allowed, nonces


def final(m2):
    return {k: [m2.a[k]] for k in KEYS}, {n: {n not in m2.used} for n in ('a', 'b', 'c')}


def run_op(d, op, hook):
    """Run one operation (opening the store first) under the hook. Returns (outcome, result)."""
    with fsys.using(hook):
        try:
            s = FileOpenIDStore(d)
            return 'ok', perform(s, op, d)
        except Crash:
            return 'crash', None
        except OSError as e:
            return 'oserror', e
        except Exception as e:
            return 'error', e


def file_job(job, st):
    init_name, hist, op, modes = job
    key = 'file:%s:%s' % (init_name, '+'.join(hist + (op,)))
    # the undisturbed run tells how many calls there are
    d0, m, versions = prepare(init_name, hist)
    base = snapshot(d0)
    m2, want, allowed, nonces = goal(m, op)
    h = H(d0)
    h.images = [('start', None, base)]
    out, res = run_op(d0, op, h)
    images = h.images
    total, calls = h.n, h.calls
    st.executions += 1
    st.state((key, 'whole'))
    st.transitions += total
    if out != 'ok' or (want[0] == 'is' and res != want[1]):
        st.violation(key, 'undisturbed %s gave %s %r, expected %r' % (op, out, res, want), {'job': job})
    a2, n2 = final(m2)
    verify(d0, a2, n2, key, 'after the undisturbed history', st, {'job': job})
    rmtree(d0)

    def one(at, how, err=None):
        CLOCK.reset(T0)
        d = materialise(base)
        h = H(d, at, how, err)
        out, res = run_op(d, op, h)
        st.executions += 1
        st.transitions += h.n
        case = {'job': list(map(str, job)), 'call': at, 'how': how, 'errno': err, 'calls': h.calls[-6:]}
        k2 = '%s:%s%s@%d' % (key, how, '' if err is None else errno.errorcode[err], at)
        st.state((k2, calls[at][0] if at < len(calls) else None))
        if how in ('crash', 'torn'):
            st.outcome(how)
            if out not in ('crash', 'ok'):
                st.violation(k2, '%s while crashing: %r' % (out, res), case)
            r = verify(d, allowed, nonces, k2, 'process crash at call %d %r' % (at, calls[at]), st, case)
        else:
            st.outcome('fail:' + out)
            if not h.fired:
                rmtree(d)
                return
            if out == 'error':
                st.violation(k2, '%s with %s failing with %s raised %s: %s, not an operating system error' % (
                    op, calls[at], errno.errorcode[err], type(res).__name__, res), case)
            if out == 'ok':
                # the failure was tolerated: then the operation must have had its effect and result
                if want[0] == 'is' and res != want[1]:
                    st.violation(k2, '%s with %s failing gave %r, expected %r or an error' % (op, calls[at], res, want[1]), case)
                verify(d, a2, n2, k2, 'a failure of call %d %r was not reported' % (at, calls[at]), st, case)
            else:
                left = [f for f in snapshot(d)[1] if f not in base[1] and f.split(os.sep)[0] == 'temp']
                if left and calls[at][0] not in ('unlink', 'remove'):
                    st.violation(k2, '%s with %s failing with %s left %r behind' % (op, calls[at], errno.errorcode[err], left), case)
                verify(d, allowed, nonces, k2, 'failing call %d %r' % (at, calls[at]), st, case)
        rmtree(d)

    if 'crash' in modes:
        for at in range(total):
            one(at, 'crash')
            if calls[at][0] in ('file.write', 'write'):
                one(at, 'torn')
    if 'fail' in modes:
        for at in range(total):
            if calls[at][0] in ('stat', 'lstat', 'access'):
                continue            # os.path functions turn these failures into False by design
            for err in (errno.EIO, errno.ENOSPC, errno.EACCES, errno.EMFILE):
                if calls[at][0] in ('close', 'file.close') and err != errno.EIO:
                    continue
                one(at, 'fail', err)
                if calls[at][0] in ('file.write', 'write'):
                    one(at, 'tornfail', err)
    if 'power' in modes:
        CLOCK.reset(T0)
        power(key, images, allowed, versions, m, m2, st, job)
    if 'twice' in modes:
        for at in range(total):
            d = materialise(base)
            h = H(d, at, 'crash')
            run_op(d, op, h)
            mid = snapshot(d)
            rmtree(d)
            for op2 in OPS:
                at2 = 0
                while True:
                    d = materialise(mid)
                    h = H(d, at2, 'crash')
                    run_op(d, op2, h)
                    st.executions += 1
                    st.transitions += h.n
                    if not h.fired:
                        rmtree(d)
                        break
                    # allowed: what either outcome of the first operation, then the second cut short, may leave
                    al = {k: list(allowed[k]) for k in KEYS}
                    nn = {n: set(v) for n, v in nonces.items()}
                    m3 = Model()
                    m3.apply(op2)
                    kind, _, arg = op2.partition(':')
                    if kind == 'store':
                        al[(srv(arg), V[arg].handle)].append(show(V[arg]))
                    if kind == 'rm':
                        al[(SRV, arg)].append(None)
                    if kind == 'nonce':
                        nn[arg].add(False)
                    k2 = '%s:crash@%d:%s@%d' % (key, at, op2, at2)
                    st.state(k2)
                    verify(d, al, nn, k2, 'second crash', st, {'job': list(map(str, job)), 'second': op2})
                    rmtree(d)
                    at2 += 1


def power(key, images, allowed, versions, m, m2, st, job):
    """Power loss after each call: ordered metadata prefix, unsynced data lost or torn."""
    al = {k: list(versions[k]) + [x for x in allowed[k]] for k in KEYS}
    durable = {ino: data for ino, data, mode in images[0][2][1].values()}
    barrier = 0
    seen = set()
    for k, (name, path, snap) in enumerate(images):
        if name in ('fsync', 'fdatasync'):
            barrier = k
            for p, (ino, data, mode) in snap[1].items():
                if path is not None and path.endswith(os.path.basename(p)):
                    durable[ino] = data
        current = {ino: data for ino, data, mode in snap[1].values()}
        for j in range(barrier, k + 1):
            dirs, files = images[j][2]
            choices = []
            names = sorted(files)
            for p in names:
                ino, data, mode = files[p]
                cur = current.get(ino, data)
                if durable.get(ino) == cur:
                    choices.append([cur])
                else:
                    opts = {durable.get(ino, b''), cur}
                    opts |= {cur[:n] for n in range(0, len(cur), 1 if len(cur) < 400 else 16)}
                    choices.append(sorted(opts))
            if len([c for c in choices if len(c) > 1]) > 1:
                choices = [c if len(c) == 1 else sorted({c[0], c[-1], c[len(c) // 2]}) for c in choices]
            for pick in itertools.product(*choices):
                image = (dirs, {p: (0, data, files[p][2]) for p, data in zip(names, pick)})
                sig = repr((dirs, sorted((p, d) for p, (_, d, _m) in image[1].items() if not p.startswith('temp') or len(d) in (0, 10))))
                if sig in seen:
                    continue
                seen.add(sig)
                d = materialise(image)
                st.executions += 1
                st.transitions += 1
                st.outcome('power loss image')
                k2 = '%s:power@%d' % (key, k)
                st.state((key, sig))
                verify(d, al, {n: {True, False} for n in 'abc'}, k2, 'power loss after call %d (%s), metadata up to %d' % (k, name, j), st,
                       {'job': list(map(str, job)), 'files': {p: x[:60] for p, x in zip(names, pick)}})
                rmtree(d)


# -- broken files ---------------------------------------------------------------------------------------------------
def broken_job(job, st):
    """Whatever a crash left in an association file, lookups and clean-up go on and give nothing or the whole value."""
    which, = job
    d = scratch_dir()
    s = FileOpenIDStore(d)
    s.storeAssociation(SRV, V['h1'])
    dirs, files = snapshot(d)
    name, = [p for p in files if p.startswith('associations')]
    s.storeAssociation(SRV, V['h2'])
    base = snapshot(d)
    rmtree(d)
    data = base[1][name][1]
    bodies = {'prefix': [data[:n] for n in range(len(data))],
              'zeros': [data[:n] + b'\0' * (len(data) - n) for n in range(len(data))],
              'bad': [b'\xff' * n for n in range(1, 40)] + [b'\n' * n for n in range(5)] + [data[:n] + b'\xff' + data[n:] for n in range(len(data))],
              'cut': [data[n:] for n in range(1, len(data))]}[which]
    for n, body in enumerate(bodies):
        key = 'broken:%s:%d' % (which, n)
        image = (base[0], dict(base[1]))
        image[1][name] = (0, body, 0o600)
        d = materialise(image)
        st.executions += 1
        st.transitions += 1
        st.state((key, body))
        al = {(SRV, 'h1'): [None, show(V['h1'])] if which != 'zeros' else [None, show(V['h1'])], (SRV, 'h2'): [show(V['h2'])], (SRV2, 'h1'): [None]}
        verify(d, al, {n: {True} for n in 'abc'}, key, 'association file holding %r' % body[:80], st, {'content': body})
        rmtree(d)


# -- SQLite ---------------------------------------------------------------------------------------------------------
class SqlFault(object):
    def __init__(self, conn, at=None, how=None):
        self.c, self.at, self.how, self.n, self.dead, self.fired = conn, at, how, 0, False, False
        self.calls = []

    def step(self, what):
        if self.dead:
            raise Crash()
        k = self.n
        self.n += 1
        self.calls.append(what[:40])
        if k == self.at:
            self.fired = True
            if self.how == 'crash':
                self.dead = True
                raise Crash()
            raise sqlite3.OperationalError('disk I/O error')

    def cursor(self):
        outer, cur = self, self.c.cursor()

        class Cur(object):
            def execute(self, sql, *a):
                outer.step(sql)
                cur.execute(sql, *a)
                return self

            def __getattr__(self, n):
                return getattr(cur, n)
        return Cur()

    def execute(self, *a):
        return self.cursor().execute(*a)

    def commit(self):
        self.step('commit')
        return self.c.commit()

    def rollback(self):
        if self.dead:
            raise Crash()
        return self.c.rollback()

    def __getattr__(self, n):
        return getattr(self.c, n)


def sql_job(job, st):
    init_name, hist, op = job
    key = 'sqlite:%s:%s' % (init_name, '+'.join(hist + (op,)))
    d = scratch_dir()
    path = os.path.join(d, 'db')

    def connect():
        c = sqlite3.connect(path)
        c.execute('pragma synchronous=off')
        return c

    def fresh():
        CLOCK.reset(T0)
        if os.path.exists(path):
            os.unlink(path)
        c = connect()
        m = Model()
        s = SQLiteStore(c)
        s.createTables()
        setup(s, INITS[init_name] or [], m)
        for o in hist:
            perform(s, o)
            m.apply(o)
        return c, m
    try:
        at = 0
        while True:
            more = False
            for how in ('crash', 'fail'):
                c, m = fresh()
                f = SqlFault(c, at, how)
                s = SQLiteStore(f)
                m2, want, allowed, nonces = goal(m, op)
                out, res = 'ok', None
                try:
                    res = perform(s, op)
                except Crash:
                    out = 'crash'
                except sqlite3.Error as e:
                    out, res = 'sqlerror', e
                except Exception as e:
                    out, res = 'error', e
                st.executions += 1
                st.transitions += f.n
                st.outcome('sqlite:%s:%s' % (how, out))
                k2 = '%s:%s@%d' % (key, how, at)
                st.state(k2)
                case = {'job': list(map(str, job)), 'calls': f.calls[-5:]}
                if not f.fired:
                    c.close()
                    continue
                more = True
                if how == 'fail' and out != 'sqlerror':
                    st.violation(k2, '%s with %s failing gave %s %r' % (op, f.calls[-1], out, res), case)
                if how == 'crash':
                    c.close()
                    c = connect()
                s = SQLiteStore(c)
                # a failed operation leaves the old content, on the same connection as well as on another
                for k in KEYS:
                    got = show(s.getAssociation(*k))
                    if got != m.a[k]:
                        st.violation(k2, 'after %s at %s: %r holds %r, expected %r' % (how, f.calls[-1], k, got, m.a[k]), case)
                for n in 'abc':
                    if bool(s.useNonce(SRV, T0, n)) != (n not in m.used):
                        st.violation(k2, 'after %s at %s: nonce %s wrong' % (how, f.calls[-1], n), case)
                s.cleanup()
                s.storeAssociation(SRV, V['h1'])
                c.close()
                c = connect()
                if show(SQLiteStore(c).getAssociation(SRV, 'h1')) != show(V['h1']):
                    st.violation(k2, 'after %s at %s: later work is lost' % (how, f.calls[-1]), case)
                c.close()
            if not more:
                break
            at += 1
    finally:
        rmtree(d)


def check(ctx):
    quick = ctx.quick
    jobs = []
    sops = [o for o in OPS if o != 'open']
    depth = 1 if quick else 2
    for n in range(depth + 1):
        for init in INITS:
            for hist in itertools.product(OPS, repeat=n):
                for op in OPS:
                    if n == depth and quick:
                        modes = ('crash', 'fail') if op.split(':')[0] in ('store', 'rm', 'nonce', 'clean') else ('crash',)
                    else:
                        modes = ('crash', 'fail', 'power')
                    if n == 0 or (n == 1 and not quick):
                        modes += ('twice',) if (n == 0 and (not quick or init in ('one', 'two'))) or not quick else ()
                    if n <= 1 and 'power' not in modes and op.startswith('store'):
                        modes += ('power',)
                    if n == 2:
                        modes = ('crash',)
                    jobs.append((file_job, (init, hist, op, modes)))
            if init == 'none':
                continue
            for hist in itertools.product(sops, repeat=n):
                for op in sops:
                    jobs.append((sql_job, (init, hist, op)))
    for w in ('prefix', 'zeros', 'bad', 'cut'):
        jobs.append((broken_job, (w,)))
    jobs.sort(key=lambda j: (len(repr(j[1])) * 7919) % 101)
    ctx.bounds = {'jobs': len(jobs), 'history length before the faulty operation': depth, 'errnos': 'EIO ENOSPC EACCES EMFILE'}

    def key(j):
        f, a = j
        return ('broken:' + a[0]) if f is broken_job else '%s:%s:%s' % ('file' if f is file_job else 'sqlite', a[0], '+'.join(a[1] + (a[2],)))
    ctx.run(lambda: iter(jobs), lambda j, st: j[0](j[1], st), key=key)
