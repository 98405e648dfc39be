"""C05: interleavings of file store operations at file system calls, and of SQLite operations at SQL statements."""
import os, itertools, sqlite3
from lib import env, fsys, sched
from lib.env import CLOCK, T0
from lib.stores import scratch_dir, rmtree
from openid.association import Association
from openid.store.filestore import FileOpenIDStore
from openid.store.sqlstore import SQLiteStore

LEVEL = 'model_checking'
TECHNIQUE = ('stateless model checking of the real stores: a controlled scheduler enumerates every interleaving of the '
             'operations\' file system calls (SQL statements for SQLite), all interleavings for two operations, '
             'preemption-bounded for three operations and for longer programs, plus all operation sequences over two instances')
NOTE = 'each schedule is executed on the real code over a scratch directory; results checked against the stated guarantees'
RULE = ('schedule = sequence of task choices at interposed file system calls / SQL statements; after each schedule all results '
        'and the final content are compared with the guarantees (nonce exactly once, whole associations, must-find, no error)')
ASSUMPTIONS = ['each file system call is atomic', 'handles of expired associations are not reused concurrently (documented race)',
               'SQLite serialises conflicting transactions (a blocked statement is retried)']
BEGIN, END = frozenset([('rt', '', 'begin')]), frozenset([('rt', '', 'end')])
SRV, SRV2 = 'http://op.example/server', 'http://op2.example/server'


def A(h, k, issued=T0, life=10000):
    return Association(h, bytes([k]) * 20, issued, life, 'HMAC-SHA1')


V = {'h1': A('h1', 1), 'h1b': A('h1', 2, T0 + 5), 'h2': A('h2', 3, T0 + 1), 'exp': A('hx', 4, T0 - 20000, 100),
     's2': A('h1', 5)}
# name -> (kind, argument)
OPS = {
    'store1': ('store', 'h1'), 'store1b': ('store', 'h1b'), 'store2': ('store', 'h2'), 'storeS2': ('store', 's2'),
    'get1': ('get', (SRV, 'h1')), 'getany': ('get', (SRV, None)), 'getx': ('get', (SRV, 'hx')), 'getS2': ('get', (SRV2, 'h1')),
    'rm1': ('rm', 'h1'), 'cleanA': ('cleanA', None), 'n1': ('nonce', ('a',)), 'n2': ('nonce', ('b',)),
    'cleanN': ('cleanN', None), 'open': ('open', None), 'clean': ('clean', None),
}
INIT = {'empty': [], 'one': ['h1'], 'two': ['h1', 'h2'], 'exp': ['exp', 'h1'], 'nonce': ['n:a', 'old'], 'fresh': None}


def show(a):
    return None if a is None else (a.handle, a.secret, a.issued, a.lifetime, a.assoc_type)


def server_of(v):
    return SRV2 if v == 's2' else SRV


class FileWorld(object):
    kind = 'file'

    def __init__(self, init, shared=False):
        self.dir = scratch_dir()
        self.root = self.dir
        self.shared = None
        if init is not None:
            s = FileOpenIDStore(self.dir)
            setup(s, init)
            if shared:
                self.shared = s

    def store(self):
        return self.shared or FileOpenIDStore(self.dir)

    def hooked(self, sc):
        w = self

        class H(fsys.Hook):
            def before(self, name, args):
                if name not in ('fsync', 'fdatasync', 'fstat', 'lseek'):
                    sc.point(name, marks=sched.footprint(name, args))
                if name in ('rename', 'replace'):
                    for fd, p in list(self.fds.items()):
                        if p == args[0]:
                            self.fds[fd] = args[1]
        return fsys.using(H(self.dir))

    def close(self):
        rmtree(self.dir)


class Conn(object):
    """A database connection whose statements are scheduling points; a locked database means waiting."""

    def __init__(self, path, sc):
        self._c = sqlite3.connect(path, timeout=0, check_same_thread=False)
        self.sc = sc

    def _do(self, name, f, *a):
        sc = self.sc()
        if sc is not None:
            sc.point(name)
        while True:
            try:
                return f(*a)
            except sqlite3.OperationalError as e:
                if 'locked' not in str(e) or sc is None:
                    raise
                sc.point('wait', blocked=True)

    def cursor(self):
        outer = self
        cur = self._c.cursor()

        class Cur(object):
            def execute(self, sql, *a):
                outer._do('sql', cur.execute, sql, *a)
                return self

            def __getattr__(self, n):
                return getattr(cur, n)
        return Cur()

    def execute(self, *a):
        return self.cursor().execute(*a)

    def commit(self):
        return self._do('commit', self._c.commit)

    def rollback(self):
        return self._c.rollback()

    def __getattr__(self, n):
        return getattr(self._c, n)


class SqlWorld(object):
    kind = 'sqlite'

    def __init__(self, init, shared=False):
        self.dir = scratch_dir()
        self.path = os.path.join(self.dir, 'db')
        self.sc = None
        self.conns = []
        c = sqlite3.connect(self.path)
        c.execute('pragma synchronous=off')
        c.execute('pragma journal_mode=memory')
        s = SQLiteStore(c)
        s.createTables()
        setup(s, init or [])
        c.close()

    def store(self):
        c = Conn(self.path, lambda: self.sc)
        c._c.execute('pragma synchronous=off')
        c._c.execute('pragma journal_mode=memory')
        self.conns.append(c)
        return SQLiteStore(c)

    def hooked(self, sc):
        self.sc = sc

        class N(object):
            def __enter__(s):
                return s

            def __exit__(s, *e):
                pass
        return N()

    def close(self):
        self.sc = None
        for c in self.conns:
            c._c.close()
        rmtree(self.dir)


def setup(s, init):
    for x in init:
        if x == 'old':
            CLOCK.reset(T0 - 40000)
            s.useNonce(SRV, T0 - 40000, 'old')
            CLOCK.reset(T0)
        elif x.startswith('n:'):
            s.useNonce(SRV, T0, x[2:])
        else:
            s.storeAssociation(server_of(x), V[x])


def perform(w, s, op):
    kind, arg = OPS[op]
    if kind == 'store':
        return s.storeAssociation(server_of(arg), V[arg])
    if kind == 'get':
        return show(s.getAssociation(*arg))
    if kind == 'rm':
        return bool(s.removeAssociation(SRV, arg))
    if kind == 'cleanA':
        return s.cleanupAssociations()
    if kind == 'cleanN':
        return s.cleanupNonces()
    if kind == 'clean':
        s.cleanup()
        return None
    if kind == 'nonce':
        return bool(s.useNonce(SRV, T0, arg[0]))
    if kind == 'open':
        FileOpenIDStore(w.dir)
        return None
    raise AssertionError(op)


def judge(w, init, progs, events, errors, key, st):
    """events: list of ('inv'|'res', task, index, op, result) in real-time order."""
    bad = lambda what: st.violation(key, what, {'init': init, 'programs': progs, 'events': [list(map(str, e)) for e in events]})
    for t, e in enumerate(errors):
        if e is not None:
            bad('operation of task %d raised %s: %s' % (t, type(e).__name__, e))
            return
    init = init or []
    calls = {}
    for pos, (what, t, i, op, res) in enumerate(events):
        if what == 'inv':
            calls[(t, i)] = [op, pos, None, None]
        else:
            calls[(t, i)][2] = pos
            calls[(t, i)][3] = res
    C = list(calls.values())
    # nonces: exactly one acceptance
    for salt in ('a', 'b'):
        rs = [c[3] for c in C if OPS[c[0]] == ('nonce', (salt,))]
        want = 0 if ('n:' + salt) in init else 1
        if rs and sum(1 for r in rs if r) != want:
            bad('nonce %s accepted %d times (%r), expected %d' % (salt, sum(1 for r in rs if r), rs, want))
    # associations
    stores = [(OPS[c[0]][1], c[1], c[2]) for c in C if OPS[c[0]][0] == 'store'] + [(x, -1, -1) for x in init if x in V]
    rms = [(c[1], c[2], c[3]) for c in C if OPS[c[0]][0] == 'rm']
    for c in C:
        if OPS[c[0]][0] != 'get':
            continue
        srv, h = OPS[c[0]][1]
        got = c[3]
        cand = [(v, i, r) for v, i, r in stores if server_of(v) == srv and (h is None or V[v].handle == h) and v != 'exp']
        if got is not None:
            if got not in [show(V[v]) for v, i, r in cand if i < c[2]]:
                bad('%s returned %r, which was not stored whole before' % (c[0], got))
            # not one replaced or removed before the lookup began
            for v, i, r in cand:
                if show(V[v]) == got:
                    over = [1 for v2, i2, r2 in cand if V[v2].handle == V[v].handle and v2 != v and i2 > r and r2 < c[1]]
                    gone = [1 for i2, r2, res in rms if V[v].handle == 'h1' and srv == SRV and i2 > r and r2 < c[1]]
                    if (over or gone) and not [1 for v2, i2, r2 in cand if v2 == v and i2 != i]:
                        bad('%s returned %r, which was replaced or removed before' % (c[0], got))
        else:
            for v, i, r in cand:
                touched = [1 for i2, r2, res in rms if V[v].handle == 'h1' and srv == SRV and i2 < c[2]]
                repl = [1 for v2, i2, r2 in cand if V[v2].handle == V[v].handle and i2 != i]
                if r < c[1] and not touched and (h is not None or not repl):
                    bad('%s found nothing although %s was stored before and nobody removed it' % (c[0], v))
    for c in C:
        if OPS[c[0]][0] == 'rm' and c[3] is True and not [1 for v, i, r in stores if V[v].handle == 'h1' and server_of(v) == SRV and i < c[2]]:
            bad('removal reported of something never stored')
        if OPS[c[0]][0] == 'rm' and c[3] is False:
            for v, i, r in stores:
                if V[v].handle == 'h1' and server_of(v) == SRV and r < c[1] and not [1 for x in rms if x[0] != c[1] and x[0] < c[2]]:
                    bad('removal found nothing although %s was stored before' % v)
        if OPS[c[0]][0] == 'cleanA' and c[3] > (1 if 'exp' in init else 0):
            bad('clean-up removed %r associations' % (c[3],))
        if OPS[c[0]][0] == 'cleanN' and c[3] > (1 if 'old' in init else 0):
            bad('clean-up removed %r nonces' % (c[3],))
    # quiescent content
    w.sc = None
    s = w.store() if w.kind == 'sqlite' else FileOpenIDStore(w.dir)
    for srv, h in ((SRV, 'h1'), (SRV, 'h2'), (SRV2, 'h1')):
        vs = [(v, i, r) for v, i, r in stores if server_of(v) == srv and V[v].handle == h]
        got = show(s.getAssociation(srv, h))
        if got is not None and got not in [show(V[v]) for v, i, r in vs]:
            bad('finally %s %s is %r' % (srv, h, got))
        if got is None and vs and not (rms and h == 'h1' and srv == SRV):
            bad('finally %s %s is lost' % (srv, h))
        if got is not None and len(vs) > 1:
            mine = [(i, r) for v, i, r in vs if show(V[v]) == got]
            if all(any(i2 > r for v2, i2, r2 in vs if show(V[v2]) != got) for i, r in mine):
                bad('finally %s %s has a replaced value' % (srv, h))
        if got is not None and h == 'h1' and srv == SRV:
            for i2, r2, res in rms:
                if all(r < i2 for v, i, r in vs):
                    bad('finally %s is there although it was removed after the last store' % h)
    for salt in ('a', 'b'):
        if ('n:' + salt) in init or [1 for c in C if OPS[c[0]] == ('nonce', (salt,))]:
            if s.useNonce(SRV, T0, salt):
                bad('nonce %s forgotten' % salt)
    return C


def run_programs(world_cls, init_name, progs, bound, limit, st, shared=False):
    init = INIT[init_name]
    key = '%s:%s:%s%s' % (world_cls.kind, init_name, '|'.join('+'.join(p) for p in progs), ':shared' if shared else '')
    state = {}

    def make():
        CLOCK.reset(T0)
        if 'w' in state:
            state['w'].close()
        w = state['w'] = world_cls(init, shared)
        events = state['events'] = []
        stores = [w.store() if not (world_cls is FileWorld and init is None) else None for p in progs]

        def task(t, prog):
            def body(sc):
                w.sc = sc
                s = stores[t]
                with w.hooked(sc):
                    if s is None:
                        s = FileOpenIDStore(w.dir)
                    for i, op in enumerate(prog):
                        if i:
                            sc.point('next', marks=BEGIN)
                        events.append(('inv', t, i, op, None))
                        r = perform(w, s, op)
                        sc.point('end', marks=END)
                        events.append(('res', t, i, op, r))
            return body
        return [task(t, p) for t, p in enumerate(progs)]

    def check(schedule, s):
        st.executions += 1
        st.transitions += s.steps
        st.state((key, state['events'], s.trace))
        judge(state['w'], init, progs, state['events'], [t.error for t in s.tasks], key, st)
        st.sample({'key': key, 'schedule': schedule[:60], 'calls': [n for _, n in s.trace][:40]})
        if len([v for v in st.violations if v[0] == key]) > 5:
            raise sched.Stuck('enough')
    try:
        n, cut, steps, complete = sched.explore(make, check, bound, limit, reduce=not shared)
        if not complete and bound is None:
            # too many interleavings: cover all those with at most two preemptions instead
            n, cut2, steps, complete = sched.explore(make, check, 2, limit, reduce=False)
            st.outcome('preemption bound 2')
        st.notes['redundant schedules cut'] = st.notes.get('redundant schedules cut', 0) + cut
        st.outcome('complete' if complete else 'bounded')
    except sched.Stuck as e:
        if str(e) != 'enough':
            st.violation(key, 'no progress: %s' % e, {'programs': progs})
    finally:
        if 'w' in state:
            state['w'].close()


def two_instances(kind, depth, st):
    """All operation sequences over two instances, no overlap: each sees the other's finished work at once."""
    cls = FileWorld if kind == 'file' else SqlWorld
    names = ['store1', 'store1b', 'store2', 'get1', 'getany', 'rm1', 'n1', 'cleanA', 'cleanN']
    for seq in itertools.product(itertools.product(range(2), names), repeat=depth):
        if seq[0][0] == 1:
            continue
        if not any(a[0] != b[0] for a, b in zip(seq, seq[1:])):
            continue
        w = cls(['exp'])
        st.executions += 1
        try:
            ss = [w.store(), w.store()]
            model = {}
            used = False
            for n, (t, op) in enumerate(seq):
                st.transitions += 1
                key = '%s:seq:%r' % (kind, seq)
                try:
                    got = perform(w, ss[t], op)
                except Exception as e:
                    st.violation(key, 'step %d raised %s: %s' % (n, type(e).__name__, e), {'sequence': seq})
                    break
                k, arg = OPS[op]
                want = got
                if k == 'store':
                    model[V[arg].handle] = V[arg]
                elif op == 'get1':
                    want = show(model.get('h1'))
                elif op == 'getany':
                    want = show(max(model.values(), key=lambda a: a.issued)) if model else None
                elif k == 'rm':
                    want = model.pop('h1', None) is not None
                elif k == 'nonce':
                    want, used = not used, True
                elif k == 'cleanN':
                    want = 0
                if got != want:
                    st.violation(key, 'step %d (%s by instance %d) gave %r, expected %r' % (n, op, t, got, want), {'sequence': seq})
                    break
            st.state((kind, seq))
        finally:
            w.close()


def check(ctx):
    quick = ctx.quick
    jobs = []
    fops = [o for o in OPS]
    sops = [o for o in OPS if o != 'open']
    for cls, ops in ((FileWorld, fops), (SqlWorld, sops)):
        for init in INIT:
            if init == 'fresh' and cls is SqlWorld:
                continue
            for a, b in itertools.combinations_with_replacement(ops, 2):
                if init == 'fresh' and not (a in ('store1', 'n1', 'get1', 'open') and b in ('store1', 'n1', 'open', 'cleanN', 'n2', 'store2')):
                    continue
                jobs.append((cls, init, [[a], [b]], None, 4000 if quick else 40000, False))
    core = ['store1', 'store1b', 'get1', 'getany', 'rm1', 'n1', 'cleanA', 'cleanN', 'store2']
    for cls in (FileWorld, SqlWorld):
        for init in ('two', 'nonce') if quick else ('empty', 'one', 'two', 'exp', 'nonce'):
            for tri in itertools.combinations_with_replacement(core, 3):
                jobs.append((cls, init, [[x] for x in tri], 1 if quick else 2, 20000, False))
        for a, b, c in itertools.product(core, core, core):
            if quick and (c in ('cleanN', 'store2', 'getany') or a == b):
                continue
            jobs.append((cls, 'one', [[a, b], [c]], 1 if quick else 3, 20000, False))
        if not quick:
            for a, b, c, d in itertools.product(core[:7], repeat=4):
                if (a, b) <= (c, d):
                    jobs.append((cls, 'exp', [[a, b], [c, d]], 2, 20000, False))
    for a, b in itertools.combinations_with_replacement(fops, 2):
        jobs.append((FileWorld, 'two', [[a], [b]], 2, 20000, True))
    for k in ('file', 'sqlite'):
        jobs.append(('seq', k, 2 if quick else 3))
    # spread expensive ones
    jobs.sort(key=lambda j: (len(repr(j)) * 7919) % 101)
    ctx.bounds = {'jobs': len(jobs), 'pairs': 'all interleavings of two operations', 'three operations': 'preemption bound %d' % (1 if quick else 2)}
    ctx.run(lambda: iter(jobs), lambda j, st: two_instances(j[1], j[2], st) if j[0] == 'seq' else run_programs(*(j[:5] + (st,) + j[5:])),
            key=lambda j: repr(j) if j[0] == 'seq' else '%s:%s:%s%s' % (j[0].kind, j[1], '|'.join('+'.join(p) for p in j[2]), ':shared' if j[5] else ''))
