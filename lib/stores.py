"""The three store implementations behind one harness with snapshot / restore / fingerprint."""
import os, sys, copy, shutil, sqlite3, tempfile, pickle, stat, types
from lib import env
from openid.store.memstore import MemoryStore
from openid.store.filestore import FileOpenIDStore
from openid.store.sqlstore import SQLiteStore, MySQLStore, PostgreSQLStore

KINDS = ('memory', 'file', 'sqlite')
SERVED = ('mysql', 'postgresql')    # database servers that are not installed: their statements run on a stand-in connection
SHM = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None


def scratch_dir(prefix='verif-'):
    return tempfile.mkdtemp(prefix=prefix, dir=SHM)


def rmtree(d):
    assert os.path.basename(d).startswith('verif-'), d
    shutil.rmtree(d, ignore_errors=True)


class Cursor(object):
    def __init__(self, conn):
        self.conn, self.c = conn, conn.db.cursor()

    def execute(self, sql, args=()):
        if self.conn.failed:
            raise sqlite3.OperationalError('current transaction is aborted')
        sql = sql.replace('ENGINE=InnoDB', '').replace('server_url(255)', 'server_url').replace('%s', '?').replace('%%', '%')
        try:
            self.c.execute(sql, [a.encode('utf-8') if isinstance(a, str) else a for a in args])
        except sqlite3.Error:
            self.conn.failed = self.conn.strict
            raise

    def fetchall(self):
        names = [d[0] for d in self.c.description]
        return [tuple(x.decode('utf-8') if isinstance(x, bytes) and n != 'secret' else x for n, x in zip(names, row)) for row in self.c.fetchall()]

    def fetchone(self):
        r = self.c.fetchone()
        names = [d[0] for d in self.c.description]
        return r and tuple(x.decode('utf-8') if isinstance(x, bytes) and n != 'secret' else x for n, x in zip(names, r))

    @property
    def rowcount(self):
        return self.c.rowcount

    def close(self):
        self.c.close()


class Connection(object):
    """DB-API connection in the format parameter style, over an SQLite database: text comes back as text, blobs as bytes.
    strict: after an error nothing runs until the transaction is rolled back (or its commit undoes it)."""
    for _n in ('Error', 'DatabaseError', 'IntegrityError', 'OperationalError', 'ProgrammingError'):
        locals()[_n] = getattr(sqlite3, _n)

    def __init__(self, db, strict):
        self.db, self.strict, self.failed = db, strict, False

    def cursor(self):
        return Cursor(self)

    def commit(self):
        if self.failed:
            return self.rollback()
        self.db.commit()

    def rollback(self):
        self.failed = False
        self.db.rollback()


def sql_store(kind, db, **names):
    """The store class of that database over the SQLite connection db."""
    if kind == 'sqlite':
        return SQLiteStore(db, **names)
    if kind == 'mysql':
        return MySQLStore(Connection(db, False), **names)
    if 'psycopg2' not in sys.modules:
        m = types.ModuleType('psycopg2')
        m.Binary = bytes
        sys.modules['psycopg2'] = m
    return PostgreSQLStore(Connection(db, True), **names)


class Harness(object):
    def __init__(self, kind):
        self.kind = kind
        if kind == 'memory':
            self.store = MemoryStore()
        elif kind == 'file':
            self.dir = scratch_dir()
            self._fsync = os.fsync
            os.fsync = lambda fd: None      # durability is C06's business
            self.store = FileOpenIDStore(self.dir)
        else:
            self.conn = sqlite3.connect(':memory:', check_same_thread=False)
            self.store = sql_store(kind, self.conn)
            self.store.createTables()

    def close(self):
        if self.kind == 'file':
            os.fsync = self._fsync
            rmtree(self.dir)
        elif self.kind != 'memory':
            self.conn.close()

    def snapshot(self):
        if self.kind == 'memory':
            return copy.deepcopy(self.store)
        if self.kind == 'file':
            out = []
            for base, dirs, files in os.walk(self.dir):
                rel = os.path.relpath(base, self.dir)
                out.append((rel, None, None))
                for f in sorted(files):
                    p = os.path.join(base, f)
                    with open(p, 'rb') as fh:
                        out.append((os.path.join(rel, f), fh.read(), stat.S_IMODE(os.stat(p).st_mode)))
            return out
        c = sqlite3.connect(':memory:', check_same_thread=False)
        self.conn.commit()
        self.conn.backup(c)
        return c

    def restore(self, snap):
        if self.kind == 'memory':
            self.store = copy.deepcopy(snap)
        elif self.kind == 'file':
            for name in os.listdir(self.dir):
                p = os.path.join(self.dir, name)
                if os.path.isdir(p):
                    for b, ds, fs in os.walk(p, topdown=False):
                        for f in fs:
                            os.unlink(os.path.join(b, f))
                        if b != p:
                            os.rmdir(b)
                else:
                    os.unlink(p)
            for rel, data, mode in snap:
                p = os.path.join(self.dir, rel)
                if data is None:
                    os.makedirs(p, exist_ok=True)
                else:
                    with open(p, 'wb') as fh:
                        fh.write(data)
                    os.chmod(p, mode)
        else:
            self.conn.rollback()
            snap.backup(self.conn)

    def fingerprint(self):
        if self.kind == 'memory':
            try:
                return pickle.dumps(self.store)
            except Exception:
                return os.urandom(8)
        if self.kind == 'file':
            return repr(sorted((r, d) for r, d, m in self.snapshot()))
        return repr(sorted(self.conn.iterdump()))


def make_plain(kind):
    h = Harness(kind)
    return h
