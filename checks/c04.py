"""C04: every store refines the reference model of the store interface.

Explicit-state breadth-first exploration of the product (reference model x real store):
a state is (model state, fingerprint of the real store), a transition is one interface
operation or a clock step executed on the real store and on the model, whose answers must agree.
"""
import itertools, os, sqlite3
from lib import env, sizes
from lib.env import CLOCK, T0
from lib.stores import Harness, KINDS, SERVED, sql_store, scratch_dir, rmtree
from openid.association import Association
from openid.store.filestore import FileOpenIDStore
from openid.store.memstore import MemoryStore
from openid.store.sqlstore import SQLiteStore
from openid.store import nonce as nonce_mod

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state BFS over operation histories of the real stores in product with a reference model'
NOTE = ('Every operation sequence up to the depth bound runs on the real memory, file and SQLite stores and every answer '
        'is compared with a reference model; bounds: 2 servers, 2-3 handles, a few issue times, depth in evidence.')
RULE = ('BFS over all operation sequences (depth bound) on each real store; a state is model state + real '
        'store content; non-trivial = distinct product state; every answer compared with the reference model')
ASSUMPTIONS = ['handles and secrets contain no line breaks and handles no surrounding white space (they arrive in key-value form)',
               'server URLs contain "://" (or are empty for nonces), as everywhere in the library',
               'the clock does not run backwards',
               'MySQL and PostgreSQL servers and drivers are not installed; the statements of those stores run through a stand-in connection over SQLite']
SKEW = 5 * 60 * 60

S1, S2 = 'http://op.example.com/', 'http://op.example.com/b'
ASSOCS = {
    'A': ('h1', b'\x00secret\xff' + b'x' * 12, T0, 100, 'HMAC-SHA1'),
    'B': ('h1', b'y' * 32, T0 + 50, 200, 'HMAC-SHA256'),
    'C': ('h2', b'\n:=z' * 5, T0, 60, 'HMAC-SHA1'),
    'D': ('h2', b'w' * 20, T0 - 10, 300, 'HMAC-SHA1'),
}


def assoc_ops():
    out = []
    for s in (S1, S2):
        for a in 'ABCD' if s == S1 else 'AC':
            out.append(('store', s, a))
        for h in (None, 'h1', 'h2'):
            out.append(('get', s, h))
        for h in ('h1', 'h2') if s == S1 else ('h1',):
            out.append(('remove', s, h))
    out.append(('get', S1, 'other'))
    out.append(('cleanA',))
    out += [('tick', 59), ('tick', 1), ('tick', 40)]
    return out


def nonce_ops():
    out = []
    for s in (S1, ''):
        for t in (T0, T0 - 1, T0 + SKEW):
            for salt in ('s', 'S'):
                if s == '' and t != T0:
                    continue
                out.append(('nonce', s, t, salt))
    out += [('nonce', S1, T0 - SKEW, 's'), ('nonce', S1, T0 - SKEW - 1, 's'), ('nonce', S1, T0 + SKEW + 1, 's')]
    out += [('cleanN',), ('tick', 1), ('tick', SKEW - 1), ('tick', SKEW), ('tick', 0.5)]
    return out


class Model(object):
    """assocs: (server, handle) -> [tuple, maybe_collected]; nonces: set."""

    def __init__(self):
        self.a = {}
        self.n = {}
        self.t = T0

    def copy(self):
        m = Model()
        m.a = {k: list(v) for k, v in self.a.items()}
        m.n = dict(self.n)
        m.t = self.t
        return m

    def key(self):
        return (self.t, tuple(sorted((k, v[0], v[1]) for k, v in self.a.items())), tuple(sorted(self.n.items())))

    def valid(self, tup):
        # whole seconds, as the library counts them
        return tup[2] + tup[3] > int(self.t)


def show(assoc):
    if assoc is None:
        return None
    return (assoc.handle, assoc.secret, assoc.issued, assoc.lifetime, assoc.assoc_type)


def step(m, store, op):
    """Apply op to model and real store. Returns (ok, got, want)."""
    kind = op[0]
    if kind == 'tick':
        m.t += op[1]
        CLOCK.now = m.t
        return True, None, None
    CLOCK.now = m.t
    if kind == 'store':
        tup = ASSOCS[op[2]]
        mine = Association(*tup)
        got = store.storeAssociation(op[1], mine)
        # the object stays the caller's: what becomes of it later does not reach the store
        mine.handle, mine.secret, mine.issued, mine.lifetime, mine.assoc_type = 'mine', b'changed', 1, 10 ** 9, 'HMAC-SHA256'
        m.a[(op[1], tup[0])] = [tup, False]
        return got is None, got, None
    if kind == 'get':
        got = store.getAssociation(op[1], op[2]) if op[2] is not None else store.getAssociation(op[1])
        got = show(got)
        if op[2] is not None:
            ent = m.a.get((op[1], op[2]))
            want = [ent[0]] if ent and m.valid(ent[0]) else [None]
            touched = [(op[1], op[2])]
        else:
            vs = [v[0] for (s, h), v in m.a.items() if s == op[1] and m.valid(v[0])]
            best = max([v[2] for v in vs]) if vs else None
            want = [v for v in vs if v[2] == best] or [None]
            touched = [k for k in m.a if k[0] == op[1]]
        for k in touched:
            if k in m.a and not m.valid(m.a[k][0]):
                m.a[k][1] = True
        return got in want, got, want
    if kind == 'remove':
        got = store.removeAssociation(op[1], op[2])
        ent = m.a.get((op[1], op[2]))
        if ent is None:
            want = [False]
        elif m.valid(ent[0]):
            want = [True]
            del m.a[(op[1], op[2])]
        else:
            want = [True, False]     # an expired association may already count as gone
            if bool(got):
                del m.a[(op[1], op[2])]
            else:
                ent[1] = True
        return bool(got) in want, got, want
    if kind == 'cleanA':
        got = store.cleanupAssociations()
        exp = [k for k, v in m.a.items() if not m.valid(v[0])]
        sure = [k for k in exp if not m.a[k][1]]
        for k in exp:
            del m.a[k]
        return len(sure) <= got <= len(exp), got, (len(sure), len(exp))
    if kind == 'nonce':
        got = store.useNonce(op[1], op[2], op[3])
        inwin = abs(op[2] - m.t) <= SKEW
        k = op[1:]
        if not inwin:
            want = False
        elif k in m.n:
            want = False
        else:
            want = True
            m.n[k] = True
        return got is want or got == want, got, want
    if kind == 'cleanN':
        got = store.cleanupNonces()
        gone = [k for k in m.n if k[1] < m.t - SKEW]
        # a store may work with whole seconds: a nonce expired by less than a second may stay
        sure = [k for k in m.n if k[1] < int(m.t) - SKEW]
        for k in sure:
            del m.n[k]
        if got == len(gone):
            for k in gone:
                m.n.pop(k, None)
        return len(sure) <= got <= len(gone), got, (len(sure), len(gone))
    raise AssertionError(op)


def finding(kind, m, op, got, want):
    """The key of the known finding, when this is it."""
    if kind == 'memory' and op[0] == 'get' and op[2] is not None and got is not None and want == [None] and got == m.a.get((op[1], op[2]), [None])[0]:
        return 'memory-get-by-handle-returns-expired'


def explore(kind, ops, depth, st, name, limit):
    env.reset()
    h = Harness(kind)
    try:
        m = Model()
        seen = {}
        frontier = [(m, h.snapshot(), ())]
        seen[(m.key(), h.fingerprint())] = True
        for d in range(depth):
            nxt = []
            for m, snap, path in frontier:
                for op in ops:
                    h.restore(snap)
                    m2 = m.copy()
                    p2 = path + (op,)
                    key = '%s:%s:%r' % (kind, name, p2)
                    st.transitions += 1
                    st.executions += 1
                    try:
                        ok, got, want = step(m2, h.store, op)
                    except Exception as e:
                        st.violation('%s:%s:exc:%r' % (kind, name, p2), '%s raised %s: %s' % (op, type(e).__name__, e),
                                     {'store': kind, 'ops': p2})
                        continue
                    if not ok:
                        vk = finding(kind, m, op, got, want) or key
                        st.violation(vk, '%s store: %r answered %r, the interface says %r' % (kind, op, got, want),
                                     {'store': kind, 'ops': p2})
                        if vk == key:
                            continue
                    st.outcome(op[0] + ':' + ('none' if got is None else 'hit' if not isinstance(got, (bool, int)) else str(bool(got))))
                    k = (m2.key(), h.fingerprint())
                    if k in seen:
                        continue
                    seen[k] = True
                    st.state((kind, name, k))
                    st.sample({'store': kind, 'ops': [list(o) for o in p2]})
                    nxt.append((m2, h.snapshot(), p2))
                    if len([v for v in st.violations if not v[0].startswith('memory-get')]) > 30:
                        return
                    # one representative per known finding is enough
                    if len(st.violations) > 300:
                        st.violations = st.violations[-50:]
            frontier = nxt
            if len(seen) > limit:
                st.notes['%s:%s' % (kind, name)] = 'complete to depth %d (%d states)' % (d + 1, len(seen))
                break
        else:
            st.notes['%s:%s' % (kind, name)] = 'complete to depth %d (%d states)' % (depth, len(seen))
    finally:
        h.close()


ODD_SERVERS = ['http://a.example/', 'http://a.example/|normal', 'http://a.example/|dumb', 'https://a.example/',
               'http://a.example', 'http://A.example/', 'http://a.example:80/', 'http://a.example/%2F',
               'http://a-b.example/', 'http://a_2Db.example/', 'http://b\u00e9.example/', 'http://a.example/?x=\u20ac&y=-',
               'http://a.example/B', 'http://a.example/b', 'http://a.example/?X', 'http://a.example/?x', 'http://a.example/#f', 'http://a.example/../x', 'http://a.example/ b', 'http://-/', 'http:///', 'http://a.example/%', "http://a.example/'"]
ODD_HANDLES = ['h', 'H', 'h-', '-', 'h/', '../h', '{HMAC-SHA1}{4a}{x+/=}', 'h%', '\u00e9', 'a:b', '*', 'h h', "h'--", 'x' * 255, 'x' * 254 + 'y', 'x' * 254]


def isolation(kind, st):
    """All ordered pairs of distinct keys: what is stored, removed or used under one never shows under the other."""
    env.reset()
    h = Harness(kind)
    try:
        snap = h.snapshot()
        keys = [(s, 'h') for s in ODD_SERVERS] + [(ODD_SERVERS[0], x) for x in ODD_HANDLES[1:]] + [(ODD_SERVERS[1], '../h')]
        for (s1, h1) in keys:
            a1 = (h1, b'1' * 20, T0, 1000, 'HMAC-SHA1')
            for (s2, h2) in keys:
                if (s1, h1) == (s2, h2):
                    continue
                h.restore(snap)
                a2 = (h2, b'2' * 32, T0 + 1, 1000, 'HMAC-SHA256')
                store = h.store
                log = []
                key = '%s:iso:%r' % (kind, (s1, h1, s2, h2))

                def expect(name, got, want):
                    log.append((name, got, want))
                    if got != want:
                        st.violation(key, '%s store, %s: got %r, expected %r' % (kind, name, got, want), {'keys': [s1, h1, s2, h2]})
                store.storeAssociation(s1, Association(*a1))
                expect('other key before store', show(store.getAssociation(s2, h2)), None)
                if s1 != s2:
                    expect('other server, any', show(store.getAssociation(s2)), None)
                expect('remove other', bool(store.removeAssociation(s2, h2)), False)
                store.storeAssociation(s2, Association(*a2))
                expect('first', show(store.getAssociation(s1, h1)), a1)
                expect('second', show(store.getAssociation(s2, h2)), a2)
                expect('first any', show(store.getAssociation(s1)), a1 if s1 != s2 else a2)
                expect('remove second', bool(store.removeAssociation(s2, h2)), True)
                expect('first stays', show(store.getAssociation(s1, h1)), a1)
                expect('nonce1', bool(store.useNonce(s1, T0, h1)), True)
                expect('nonce2', bool(store.useNonce(s2, T0, h2)), True)
                expect('nonce1 again', bool(store.useNonce(s1, T0, h1)), False)
                expect('nonce2 again', bool(store.useNonce(s2, T0, h2)), False)
                if s1 != s2:
                    expect('nonce2 salt1', bool(store.useNonce(s2, T0, h1 + '.')), True)
                st.executions += 1
                st.transitions += len(log)
                st.state((kind, s1, h1, s2, h2))
    finally:
        h.close()


def secrets(kind, st):
    """Every byte value in a secret, every length, extreme but legal issue times and lifetimes survive storing."""
    env.reset()
    h = Harness(kind)
    try:
        for b in range(256):
            for n in (1, 20, 32):
                for at in ('HMAC-SHA1', 'HMAC-SHA256'):
                    tup = ('h%d' % b, bytes([b]) * n, T0 - b, 10 ** 6 + b, at)
                    h.store.storeAssociation(S1, Association(*tup))
                    got = show(h.store.getAssociation(S1, tup[0]))
                    st.executions += 1
                    st.transitions += 2
                    if got != tup:
                        st.violation('%s:secret:%d:%d' % (kind, b, n), 'stored %r, got back %r' % (tup, got), None)
        st.state((kind, 'secrets'))
    finally:
        h.close()


def many(kind, n, st):
    """A long history: however many entries there are, each is found, used up and cleaned up on its own."""
    env.reset()
    h = Harness(kind)
    try:
        def expect(what, got, want):
            st.transitions += 1
            if got != want:
                st.violation('%s:many:%s' % (kind, what), '%s store with %d entries, %s: got %r, expected %r' % (kind, n, what, got, want), None)
        nonces = [('http://s%d.example/' % (i % 7), T0 - i % 400, 's%d' % (i // 2)) for i in range(n)]
        nonces = list(dict.fromkeys(nonces))
        for i, k in enumerate(nonces):
            expect('nonce %d' % i, bool(h.store.useNonce(*k)), True)
        for i, k in enumerate(nonces):
            expect('nonce %d again' % i, bool(h.store.useNonce(*k)), False)
        assocs = [('http://s%d.example/' % (i % 3), ('h%d' % i, b'%020d' % i, T0 - i % 50, 100 + 1000 * (i % 2), 'HMAC-SHA1')) for i in range(n)]
        for s, a in assocs:
            h.store.storeAssociation(s, Association(*a))
        for i, (s, a) in enumerate(assocs):
            expect('association %d' % i, show(h.store.getAssociation(s, a[0])), a)
        for j in range(3):
            got = h.store.getAssociation('http://s%d.example/' % j)
            expect('newest of server %d' % j, got and got.issued, max(a[2] for s, a in assocs if s == 'http://s%d.example/' % j))
        CLOCK.advance(SKEW - 200)
        # half of the associations live 100 s, the others 1100 s, from up to 50 s ago: all are gone
        expect('associations cleaned up', h.store.cleanupAssociations(), n)
        expect('nonces cleaned up', h.store.cleanupNonces(), len([1 for k in nonces if k[1] < CLOCK.now - SKEW]))
        for i, k in enumerate(nonces):
            expect('nonce %d much later' % i, bool(h.store.useNonce(*k)), False)
        st.executions += 1
        st.state((kind, 'many', n))
    finally:
        h.close()


def long_names(what, n):
    """(server, handle or salt) pairs that agree except at one place."""
    t = lambda at=None: sizes.text(n, at).replace('~', 'Z')
    make = {'path': lambda s: ('http://op.example/' + s, 'h'), 'query': lambda s: ('http://op.example?q=' + s, 'h'),
            'host': lambda s: ('http://%s.example/op' % '.'.join(s[i:i + 60] for i in range(0, len(s), 60)), 'h'),
            'handle': lambda s: (S1, 'h' + s), 'tail': lambda s: ('http://op.example/', s + 'h')}[what]
    out = [make(t())] + [make(t(i)) for i in sizes.places(n)]
    if n:
        out.append(make(t()[:-1]))
    return list(dict.fromkeys(out))


def longer(kind, what, quick, st):
    """Long server URLs, handles and salts: what differs in one place only is a different entry."""
    env.reset()
    h = Harness(kind)
    try:
        snap = h.snapshot()
        for n in sizes.lengths(quick):
            if not 0 < n <= {'host': 240, 'query': 4200, 'path': 4200}.get(what, 270):
                continue
            h.restore(snap)
            names = long_names(what, n)

            def expect(name, got, want):
                st.transitions += 1
                if got != want:
                    st.violation('%s:long:%s:%d' % (kind, what, n), '%s store, %s of %d characters, %s: got %r, expected %r' % (kind, what, n, name, got, want), None)
            rows = [(s, (x, b'%020d' % i, T0 - i, 10 ** 6, 'HMAC-SHA1')) for i, (s, x) in enumerate(names)]
            for i, (s, a) in enumerate(rows):
                try:
                    expect('before %d' % i, show(h.store.getAssociation(s, a[0])), None)
                    h.store.storeAssociation(s, Association(*a))
                    expect('nonce %d' % i, bool(h.store.useNonce(s, T0, a[0])), True)
                except Exception as e:
                    expect('entry %d' % i, '%s: %s' % (type(e).__name__, str(e)[:80]), None)
            try:
                for i, (s, a) in enumerate(rows):
                    expect('after %d' % i, show(h.store.getAssociation(s, a[0])), a)
                    expect('nonce %d again' % i, bool(h.store.useNonce(s, T0, a[0])), False)
                    newest = max((b for t, b in rows if t == s), key=lambda b: b[2])
                    expect('any of %d' % i, show(h.store.getAssociation(s)), newest)
                for i, (s, a) in enumerate(rows):
                    expect('remove %d' % i, bool(h.store.removeAssociation(s, a[0])), True)
                    expect('removed %d' % i, show(h.store.getAssociation(s, a[0])), None)
            except Exception as e:
                expect('use', '%s: %s' % (type(e).__name__, str(e)[:80]), None)
            st.executions += 1
            st.state((kind, what, n))
    finally:
        h.close()


SIDE_OPS = [('store', S1, 'A'), ('store', S1, 'C'), ('get', S1, None), ('get', S1, 'h1'), ('remove', S1, 'h1'), ('nonce', S1, T0, 's'), ('cleanA',), ('cleanN',), ('reopen',)]
SIDE_TICKS = [('tick', 70), ('tick', SKEW + 1)]
TABLES = [{}, {'associations_table': 'assoc_b', 'nonces_table': 'nonces_b'}]


class Sides(object):
    """Two stores of one kind that share a process, a parent directory or a database, and can be opened again."""

    def __init__(self, kind):
        self.kind = kind
        self.stores = [None, None]
        if kind == 'file':
            self.dir = scratch_dir()
            self.cwd = os.getcwd()
            os.makedirs(os.path.join(self.dir, 'elsewhere'))
        elif kind != 'memory':
            self.conn = sqlite3.connect(':memory:', check_same_thread=False)
        for i in (0, 1):
            self.open(i, True)

    def open(self, i, first=False):
        if self.kind == 'memory':
            if first:
                self.stores[i] = MemoryStore()
            return              # a memory store lives as long as the object
        if self.kind != 'file':
            self.stores[i] = sql_store(self.kind, self.conn, **TABLES[i])
            if first:
                self.stores[i].createTables()
            return
        # one directory name continues the other; one is given relative to the directory current at the time
        if i == 0:
            self.stores[i] = FileOpenIDStore(os.path.join(self.dir, 'store', '..', 'store/'))
        else:
            os.chdir(self.dir)
            try:
                self.stores[i] = FileOpenIDStore('store2')
            finally:
                os.chdir(os.path.join(self.dir, 'elsewhere'))

    def close(self):
        if self.kind == 'file':
            os.chdir(self.cwd)
            left = sorted(os.listdir(self.dir)), os.listdir(os.path.join(self.dir, 'elsewhere'))
            rmtree(self.dir)
            return None if left == (['elsewhere', 'store', 'store2'], []) else 'files were made outside the directories given: %r' % (left,)
        if self.kind != 'memory':
            names = sorted(r[0] for r in self.conn.execute("SELECT name FROM sqlite_master WHERE type = 'table'"))
            self.conn.close()
            if names != sorted([SQLiteStore.associations_table, SQLiteStore.nonces_table] + list(TABLES[1].values())):
                return 'the tables are not those asked for: %r' % (names,)


def sides(kind, first, depth, st):
    """All histories over two stores next to each other: each behaves as if alone, and keeps its content when opened again."""
    alphabet = [(i,) + o for i in (0, 1) for o in SIDE_OPS] + [(None,) + o for o in SIDE_TICKS]
    fsync, os.fsync = os.fsync, lambda fd: None
    try:
        for rest in itertools.product(alphabet, repeat=depth - 1):
            hist = (first,) + rest
            env.reset()
            s = Sides(kind)
            ms = [Model(), Model()]
            bad = None
            st.executions += 1
            try:
                for n, (i, *op) in enumerate(hist):
                    op = tuple(op)
                    st.transitions += 1
                    if op[0] == 'reopen':
                        s.open(i)
                        continue
                    if i is None:
                        for m in ms:
                            step(m, None, op)
                        continue
                    try:
                        ok, got, want = step(ms[i], s.stores[i], op)
                    except Exception as e:
                        ok, got, want = False, '%s: %s' % (type(e).__name__, e), None
                    if not ok and not finding(kind, ms[i], op, got, want):
                        bad = 'of two %s stores, number %d: %r answered %r, the interface says %r' % (kind, i, op, got, want)
                        hist = hist[:n + 1]
                        break
            finally:
                left = s.close()
            if bad or left:
                st.violation('%s:sides:%r' % (kind, hist), bad or left, {'store': kind, 'history': hist})
                if len(st.violations) > 5:
                    return
            st.state((kind, 'sides', hist))
        st.outcome('side by side')
    finally:
        os.fsync = fsync


def shortcut(kind, st):
    """cleanup() is the shortcut for both clean-ups, whatever mixture of live and expired entries there is."""
    for na_live, na_dead, nn_live, nn_dead in itertools.product(range(3), repeat=4):
        env.reset()
        h = Harness(kind)
        try:
            for i in range(na_live):
                h.store.storeAssociation('http://s%d.example/' % (i % 2), Association('l%d' % i, b'1' * 20, T0, 10 ** 6, 'HMAC-SHA1'))
            for i in range(na_dead):
                h.store.storeAssociation('http://s%d.example/' % i, Association('d%d' % i, b'1' * 20, T0, 10, 'HMAC-SHA1'))
            for i in range(nn_dead):
                h.store.useNonce(S1, T0, 'd%d' % i)
            env.CLOCK.advance(2 * SKEW)
            for i in range(nn_live):
                h.store.useNonce(S1, T0 + 2 * SKEW, 'l%d' % i)
            got = h.store.cleanup()
            st.executions += 1
            st.transitions += 1
            st.state((kind, 'cleanup', na_live, na_dead, nn_live, nn_dead))
            if got is not None and tuple(got) != (nn_dead, na_dead):
                st.violation('%s:cleanup:%r' % (kind, (na_live, na_dead, nn_live, nn_dead)),
                             'cleanup() gave %r, expected %r' % (got, (nn_dead, na_dead)), None)
            again = (h.store.cleanupNonces(), h.store.cleanupAssociations())
            if again != (0, 0):
                st.violation('%s:cleanup2:%r' % (kind, (na_live, na_dead, nn_live, nn_dead)), 'after cleanup() the clean-ups still removed %r' % (again,), None)
            for i in range(na_live):
                if h.store.getAssociation('http://s%d.example/' % (i % 2), 'l%d' % i) is None:
                    st.violation('%s:cleanup3:%d' % (kind, i), 'live association removed', None)
            for i in range(nn_live):
                if h.store.useNonce(S1, T0 + 2 * SKEW, 'l%d' % i):
                    st.violation('%s:cleanup4:%d' % (kind, i), 'live nonce forgotten', None)
        finally:
            h.close()


def check(ctx):
    depth_a, depth_n, limit = (5, 5, 6000) if ctx.quick else (8, 8, 150000)
    ctx.bounds = {'association depth': depth_a, 'nonce depth': depth_n, 'state limit': limit,
                  'association operations': len(assoc_ops()), 'nonce operations': len(nonce_ops())}
    if nonce_mod.SKEW != SKEW:
        ctx.bounds['skew'] = nonce_mod.SKEW
    jobs = []
    for k in KINDS + SERVED:
        jobs += [(k, 'assoc'), (k, 'nonce'), (k, 'iso'), (k, 'secrets'), (k, 'cleanup'), (k, 'many')]
    alphabet = [(i,) + o for i in (0, 1) for o in SIDE_OPS] + [(None,) + o for o in SIDE_TICKS]
    side_depth = 3 if ctx.quick else 4
    ctx.bounds['two stores side by side'] = '%d operations, histories of %d' % (len(alphabet), side_depth)
    for k in KINDS + SERVED:
        jobs += [(k, ('sides', f)) for f in alphabet]

    LONG = ('path', 'query', 'host', 'handle', 'tail')
    ctx.bounds['long names'] = 'lengths up to 4200 (server URL), 240 (host), 270 (handle, salt), pairs differing at every power of two, the ends and the middle'
    for k in KINDS + SERVED:
        jobs += [(k, ('long', w)) for w in LONG]

    def run(job, st):
        kind, what = job
        if what == 'assoc':
            explore(kind, assoc_ops(), depth_a, st, 'assoc', limit)
        elif what == 'nonce':
            explore(kind, nonce_ops(), depth_n, st, 'nonce', limit)
        elif what == 'iso':
            isolation(kind, st)
        elif what[0] == 'long':
            longer(kind, what[1], ctx.quick, st)
        elif what[0] == 'sides':
            sides(kind, what[1], side_depth, st)
        elif what == 'cleanup':
            shortcut(kind, st)
        elif what == 'many':
            for n in (130, 1100) if ctx.quick else (130, 1100, 11000):
                many(kind, n, st)
        else:
            secrets(kind, st)
    ctx.run(lambda: iter(jobs), run, shards=len(jobs))
