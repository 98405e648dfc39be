"""C08: histories of associate / login / direct verification / clock / clean-up on the real provider against a ledger model."""
import copy
from lib import env, world, op
from lib.env import CLOCK, T0
from lib.op import OP, NS2, openid_args, delivered, Recorder
from lib.stores import Harness
from openid.server.server import Server, ProtocolError

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of all operation histories of the real provider up to a depth (full tree, then merging equal '
             'model states), each direct verification compared with a ledger model and an independent HMAC')
NOTE = 'each transition of the model is executed on the real Server and store (memory; shallower on file and SQLite stores)'
RULE = 'history = sequence of associate, login (by handle), check_authentication (by assertion and alteration), clock and clean-up steps; every answer compared'
ASSUMPTIONS = ['direct verification requests reach the provider one after another']
USER, RT = 'http://op.example/~u', 'http://rp.example/return'
MUTS = ['none', 'again', 'alter', 'extra', 'dropfield', 'sig', 'nosig', 'shared', 'swap', 'shorten', 'ih:s0', 'ih:unknown', 'ih:p0', 'ih:', 'nohandle', 'moresigned',
        'alternonce', 'nosigned', 'reorder']


class W(object):
    """Real provider plus ledger."""

    def __init__(self, version, kind):
        env.reset()
        self.version, self.kind = version, kind
        self.h = Harness(kind)
        self.store = Recorder(self.h.store)
        self.now = T0
        self.shared = []           # [handle]
        self.assertions = []       # [(args, private handle or None)]
        self.spent = set()
        self.rnd = 0

    def clone(self):
        w = W.__new__(W)
        w.__dict__.update(self.__dict__)
        if self.kind == 'memory':
            w.store = copy.deepcopy(self.store)
        else:
            w.snap = self.h.snapshot()
        w.shared, w.assertions, w.spent = list(self.shared), list(self.assertions), set(self.spent)
        return w

    def enter(self, step):
        CLOCK.reset(self.now)
        self.rnd += 1
        env.reset_random('%s|%d|%s' % (self.version, self.rnd, step))
        return Server(self.store, OP)

    def expiry(self, h):
        return self.store.assocs[h][2]

    def alive(self, h):
        return self.expiry(h) > self.now

    def key(self):
        """Model state up to renaming."""
        sh = tuple(self.expiry(h) - self.now if self.alive(h) else 0 for h in self.shared)
        asr = []
        for a, p in self.assertions:
            hid = a['openid.assoc_handle']
            asr.append((self.shared.index(hid) if hid in self.shared else 'p', p in self.spent if p else None,
                        (self.expiry(p) - self.now if self.alive(p) else 0) if p else None, 'openid.invalidate_handle' in a))
        return (self.version, sh, tuple(asr))


def ops(w, full):
    out = []
    if len(w.shared) < 2:
        out += ['assoc:HMAC-SHA1', 'assoc:HMAC-SHA256']
    if len(w.assertions) < (3 if full else 2):
        out += ['login:none', 'login:unknown'] + ['login:s%d' % i for i in range(len(w.shared))]
        if w.assertions:
            out += ['login:p0']
    for i in range(len(w.assertions)):
        for m in MUTS:
            if m == 'shared' and not w.shared or m in ('ih:s0',) and not w.shared or m in ('swap', 'ih:p0') and len(w.assertions) < 2:
                continue
            out.append('check:%d:%s' % (i, m))
    out += ['tick:1', 'tick:life', 'clean', 'junk']
    return out


def handle_of(w, name):
    if name == 'none':
        return None
    if name == 'unknown':
        return '{HMAC-SHA1}{12}{abc}'
    if name[0] == 's':
        return w.shared[int(name[1:])]
    for a, p in w.assertions:
        if p:
            return p
    return w.assertions[0][0]['openid.assoc_handle']


def mutate(w, i, m):
    q = dict(w.assertions[i][0])
    signed = q['openid.signed'].split(',')
    q['openid.mode'] = 'check_authentication'
    if m == 'alter':
        q['openid.identity'] = 'http://op.example/~evil'
    elif m == 'alternonce':
        q['openid.response_nonce'] = q['openid.response_nonce'][:-1] + '!'
    elif m == 'extra':
        q['openid.unsigned'] = 'x'
        q['plain'] = 'y'
    elif m == 'dropfield':
        q.pop('openid.return_to')
    elif m == 'sig':
        s = q['openid.sig']
        q['openid.sig'] = ('A' if s[0] != 'A' else 'B') + s[1:]
    elif m == 'nosig':
        q.pop('openid.sig')
    elif m == 'shared':
        q['openid.assoc_handle'] = w.shared[0]
    elif m == 'swap':
        q['openid.assoc_handle'] = [a for a, p in w.assertions if a is not w.assertions[i][0]][0]['openid.assoc_handle']
    elif m == 'shorten':
        q['openid.signed'] = ','.join(f for f in signed if f != 'identity')
    elif m == 'moresigned':
        q['openid.signed'] = ','.join(signed + ['more'])
        q['openid.more'] = 'x'
    elif m == 'reorder':
        q['openid.signed'] = ','.join(reversed(signed))
    elif m == 'nosigned':
        q.pop('openid.signed')
    elif m == 'nohandle':
        q.pop('openid.assoc_handle')
    elif m.startswith('ih:'):
        q['openid.invalidate_handle'] = handle_of(w, m[3:]) if m[3:] else ''
    return q


def step(w, o, st, path):
    """Execute on w (owned by the caller); compare. Returns False when a violation ended this path."""
    srv = w.enter(o)
    key = '%s:v%s:%s' % (w.kind, w.version, ' '.join(path + [o]))
    bad = lambda what, extra=None: st.violation(key, what, {'history': path + [o], 'seen': extra})
    st.transitions += 1
    kind, _, arg = o.partition(':')
    if kind == 'tick':
        if arg == '1':
            w.now += 1
        else:
            live = [self_exp for self_exp in (w.expiry(h) for h in w.store.order) if self_exp > w.now]
            w.now = min(live) if live else w.now + 10
        return True
    if kind == 'clean':
        w.store.cleanup()
        return True
    if kind == 'assoc':
        q = op.base_query(w.version, 'associate')
        q.update({'openid.assoc_type': arg, 'openid.session_type': 'no-encryption'})
        d = op.parse_kv(srv.encodeResponse(srv.handleRequest(srv.decodeRequest(q))).body)
        if d.get('assoc_handle') not in w.store.assocs or d['assoc_handle'] in w.shared:
            bad('associate gave %r' % d)
            return False
        w.shared.append(d['assoc_handle'])
        return True
    if kind == 'login':
        h = handle_of(w, arg)
        q = op.base_query(w.version, 'checkid_setup')
        q.update({'openid.identity': USER, 'openid.return_to': RT})
        if w.version == 2:
            q['openid.claimed_id'] = USER
        if h is not None:
            q['openid.assoc_handle'] = h
        a = openid_args(delivered(srv.encodeResponse(srv.decodeRequest(q).answer(True)), RT)[1])
        used = a['openid.assoc_handle']
        if h in w.shared and w.alive(h):
            if used != h:
                bad('the shared association was not used')
                return False
            w.assertions.append((a, None))
        else:
            if used in w.shared or used in [p for _, p in w.assertions] or used not in w.store.assocs:
                bad('private handle %r is not new' % used)
                return False
            w.assertions.append((a, used))
        return True
    if kind == 'junk':
        q = op.base_query(w.version, 'check_authentication')
        q.update({'openid.assoc_handle': 'junk', 'openid.sig': 'x', 'openid.signed': 'mode', 'openid.invalidate_handle': 'junk'})
    else:
        i, m = arg.split(':', 1)
        q = mutate(w, int(i), m)
    # expectation
    want = None
    if 'openid.assoc_handle' not in q or 'openid.sig' not in q:
        want = 'error'
    else:
        h = q['openid.assoc_handle']
        private = [p for _, p in w.assertions if p]
        ok = h in private and h not in w.spent and w.alive(h) and bool(q.get('openid.signed'))
        ok = ok and world.good_sig(dict(q, **{'openid.mode': 'id_res'}), *w.store.assocs[h][:2])
        want = 'true' if ok else 'false'
        if h in private:
            w.spent.add(h)
    try:
        req = srv.decodeRequest(q)
        resp = srv.encodeResponse(srv.handleRequest(req))
    except ProtocolError as e:
        st.outcome('protocol error')
        if want != 'error':
            bad('refused: %s' % e, q)
        return True
    except Exception as e:
        bad('raised %s: %s' % (type(e).__name__, e), q)
        return False
    d = op.parse_kv(resp.body)
    st.outcome('is_valid ' + str(d.get('is_valid')))
    if resp.code != 200 or d.get('is_valid') != want:
        bad('answer %r with code %r, expected is_valid %s' % (d, resp.code, want), q)
        return False
    ih = q.get('openid.invalidate_handle')
    report = ih if ih and not (ih in w.shared and w.alive(ih)) else None
    if d.get('invalidate_handle') != report:
        bad('invalidate_handle %r, expected %r' % (d.get('invalidate_handle'), report), q)
        return False
    if (d.get('ns') or None) != (NS2 if w.version == 2 else None):
        bad('namespace of the answer: %r' % d, q)
    return True


def explore(job, st, full, depth, merge_after):
    kind, version, prefix = job
    w = W(version, kind)
    start = w.h.snapshot() if kind != 'memory' else None
    try:
        path = []
        for o in prefix:
            if o not in ops(w, full):
                return
            if not step(w, o, st, path):
                return
            path.append(o)
        seen = {}

        def walk(w, path):
            st.executions += 1
            k = w.key()
            st.state((kind,) + k if len(path) > merge_after else (kind, version, path))
            if len(path) >= depth:
                return
            if len(path) > merge_after:
                left = depth - len(path)
                if seen.get(k, -1) >= left:
                    return
                seen[k] = left
            for o in ops(w, full):
                c = w.clone()
                if kind != 'memory':
                    w.h.restore(c.snap)
                    c.store = Recorder(w.h.store)
                    c.store.assocs.update(w.store.assocs)
                    c.store.order.extend(w.store.order)
                if step(c, o, st, path):
                    walk(c, path + [o])
                if kind != 'memory':
                    w.h.restore(c.snap)
        walk(w, path)
        st.sample({'prefix': prefix})
    finally:
        w.h.close()


def many(version, kind, n, st):
    """n stateless logins and n associations within one second: all handles differ, each assertion is confirmed exactly once."""
    w = W(version, kind)
    bad = lambda what: st.violation('many:%s:v%s' % (kind, version), what, {'logins': n})
    try:
        CLOCK.reset(T0)
        env.reset_random('many')
        srv = Server(w.store, OP)
        q = op.base_query(version, 'checkid_setup')
        q.update({'openid.identity': USER, 'openid.return_to': RT})
        if version == 2:
            q['openid.claimed_id'] = USER
        aq = op.base_query(version, 'associate')
        aq.update({'openid.assoc_type': 'HMAC-SHA1', 'openid.session_type': 'no-encryption'})
        got, shared = [], []
        for i in range(n):
            st.transitions += 2
            got.append(openid_args(delivered(srv.encodeResponse(srv.decodeRequest(q).answer(True)), RT)[1]))
            shared.append(op.parse_kv(srv.encodeResponse(srv.handleRequest(srv.decodeRequest(aq))).body))
        st.executions += 1
        st.state(('many', kind, version))
        handles = [a['openid.assoc_handle'] for a in got] + [d['assoc_handle'] for d in shared]
        if len(set(handles)) != len(handles):
            return bad('%d different handles among %d' % (len(set(handles)), len(handles)))
        if len({a['openid.response_nonce'] for a in got}) != n or len({d['mac_key'] for d in shared}) != n:
            return bad('nonces or keys repeat')
        for want in ('true', 'false'):
            for a in got:
                st.transitions += 1
                d = op.parse_kv(srv.encodeResponse(srv.handleRequest(srv.decodeRequest(dict(a, **{'openid.mode': 'check_authentication'})))).body)
                if d.get('is_valid') != want:
                    return bad('is_valid %r, expected %s' % (d, want))
        st.outcome('many logins in one second')
    finally:
        w.h.close()


def check(ctx):
    quick = ctx.quick
    jobs = []
    for version in ((2, 1) if quick else (2, 1, 11)):
        w = W(version, 'memory')
        for o in ops(w, True):
            c = w.clone()
            step(c, o, ctx.stats, [])
            for o2 in ops(c, True):
                jobs.append(('memory', version, [o, o2], 4 if quick else 6, 3 if quick else 3))
        jobs.append(('memory', version, [], 1, 3))
        for kind in ('file', 'sqlite'):
            for o in ops(w, True):
                jobs.append((kind, version, [o], 3 if quick else 4, 3))
    ctx.bounds = {'depth (memory store)': 4 if quick else 6, 'depth (file, SQLite)': 3 if quick else 4, 'shared handles': 2, 'assertions': 3,
                  'alterations': len(MUTS), 'full tree to depth': 3}
    jobs[:0] = [('many', v, [k], 400, 0) for v in (1, 2) for k in ('memory', 'file', 'sqlite')]
    ctx.bounds['logins in one second'] = 400
    ctx.run(lambda: iter(jobs), lambda j, st: many(j[1], j[2][0], j[3], st) if j[0] == 'many' else explore(j[:3], st, True, j[3], j[4]), key=lambda j: '%s:v%s:%s' % (j[0], j[1], ' '.join(j[2])))
