"""C15: login sessions as a state machine: all histories of begins and completions over the real session code, to closure."""
import pickle, itertools
from lib import sizes, env, world, rp
from lib.env import CLOCK, T0
from lib.world import NS2, T_SIGNON, T_11, T_SERVER
from openid.association import Association
from openid.consumer.consumer import Consumer
from openid.consumer.discover import DiscoveryFailure, OpenIDServiceEndpoint
from openid.fetchers import HTTPFetchingError, HTTPResponse
from openid.store.memstore import MemoryStore
from openid.yadis.manager import Discovery
from six.moves.urllib.parse import quote_plus, urlsplit

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of login sessions: breadth-first to closure over (session content, model state) plus all histories up to a depth '
             'without deduplication, each step executed on the real Consumer with the session serialised between requests, against a session model')
NOTE = 'operations: begins for identifiers with 1-3 services, aliases, failing ones, own service; completions: success, stale, unsolicited, cancel, failure, setup'
RULE = 'one execution = one step (operation in a reached state) or one whole history, compared with the model: offered endpoint, discovery made or not, outcome, identity, session content'
ASSUMPTIONS = ['associations with every provider exist beforehand', 'a session is a mapping: either it keeps the objects themselves until the end of a request (closure, two sessions) or serialises each value when it is set (histories)']
RET = 'http://rp.example/ret'
REALM = 'http://rp.example/'
KEY = b'k' * 20
# identifiers that resemble each other: one continues, or differs in one component from, another
A, A2, B, C, D, N, X = ['http://a.example/', 'http://a.example/alias', 'http://b.example/', 'http://a.example/c', 'http://a.example:8080/', 'http://b.example/none', 'http://a.example/c?down=1']
OWN = 'http://a.example/own'


class S(object):
    """A published service as the model sees it: (version, server, claimed, local)."""

    def __init__(self, v, server, claimed, local, idp=False):
        self.v, self.server, self.claimed, self.local, self.idp = v, server, claimed, local, idp


def op_url(n):
    return 'http://op-%s.example/server' % n


SV = {
    A: [S(2, op_url('a1'), A, 'http://op-a1.example/me'), S(1, op_url('a2'), A, A), S(2, op_url('a3'), A, A)],
    B: [S(2, op_url('b1'), None, None, idp=True), S(2, op_url('b2'), None, None, idp=True)],
    C: [S(2, op_url('c1'), C, C)],
    D: [S(1, op_url('d1'), D, 'http://op-d1.example/me'), S(1, op_url('d2'), D, 'http://op-d2.example/me')],
    N: [],
}
SV[A2] = SV[A]
OWNS = S(2, op_url('own'), OWN, OWN)


class Web(object):
    """The web all histories share; discovery documents list services in reverse order, with priorities."""

    def __init__(self):
        env.reset()
        self.net = world.Net().install()
        self.store = MemoryStore()
        self.n = 0
        for url in (A, B, C, D, N):
            svcs = []
            for i, s in enumerate(SV[url]):
                if s.idp:
                    svcs.append(world.service([T_SERVER], [s.server], priority=10 * i))
                elif s.v == 2:
                    svcs.append(world.service([T_SIGNON], [s.server], local_id=s.local, priority=10 * i))
                else:
                    svcs.append(world.service([T_11], [s.server], delegate=s.local, priority=10 * i))
            # the last one listed first: order must come from the priorities
            body = world.xrds(*reversed(svcs))
            self.net.page(url, body, ctype=world.XRDS_CT)
            if url == A:
                self.net.page(A2, body, ctype=world.XRDS_CT, final=A)
        self.net.page(OWN, world.xrds(world.service([T_SIGNON], [OWNS.server])), ctype=world.XRDS_CT)
        self.net.routes[X] = HTTPFetchingError('down')
        for l in list(SV.values()) + [[OWNS]]:
            for s in l:
                self.store.storeAssociation(s.server, Association('h', KEY, T0, 10 ** 7, 'HMAC-SHA1'))

    def fresh(self):
        self.n += 1
        return world.nonce_at(T0, 's%d' % self.n)

    def assertion(self, s, claimed=None, with_claimed=True):
        c = claimed or s.claimed
        local = s.local or c
        q = {'openid.mode': 'id_res', 'openid.identity': local, 'openid.assoc_handle': 'h'}
        signed = ['mode', 'identity', 'assoc_handle', 'return_to']
        bare = {}
        if s.v == 2:
            q.update({'openid.ns': NS2, 'openid.claimed_id': c, 'openid.op_endpoint': s.server, 'openid.return_to': RET,
                      'openid.response_nonce': self.fresh()})
            signed += ['claimed_id', 'op_endpoint', 'response_nonce']
        else:
            bare['janrain_nonce'] = self.fresh()
            if with_claimed:
                bare['openid1_claimed_id'] = c
            q['openid.return_to'] = RET + '?' + '&'.join('%s=%s' % (k, quote_plus(v)) for k, v in sorted(bare.items()))
        q = world.sign(q, signed, KEY, 'HMAC-SHA1')
        q.update(bare)
        return q


class Model(object):
    """What one session must hold.  mgr: (identifiers it serves, remaining services, certain?) or None; pend: list of possible pending services."""

    def __init__(self):
        self.mgr = None
        self.pend = (None,)

    def key(self):
        return (None if self.mgr is None else (self.mgr[0], tuple(s.server for s in self.mgr[1]), self.mgr[2]),
                tuple(p and p.server for p in self.pend))

    def copy(self):
        m = Model()
        m.mgr, m.pend = self.mgr, self.pend
        return m


BEGINS = ['begin:A', 'begin:A2', 'begin:B', 'begin:C', 'begin:D', 'begin:N', 'begin:X', 'own']
COMPLETES = ['ok', 'stale', 'stale1', 'unsol', 'cancel', 'cancel1', 'error', 'setup', 'setup1', 'junk', 'tampered']
OPS = BEGINS + COMPLETES
URL = {'A': A, 'A2': A2, 'B': B, 'C': C, 'D': D, 'N': N, 'X': X}
# plain forms of the same identifiers that the user may type
TYPED = {'A': A, 'A2': A2, 'B': B, 'C': C, 'D': D, 'N': N, 'X': X}


class Consumer2(Consumer):
    session_key_prefix = '_other_app_'


def own_service():
    e = OpenIDServiceEndpoint()
    e.claimed_id = OWN
    e.server_url = OWNS.server
    e.type_uris = [T_SIGNON]
    return e


def step(web, m, session, op, cls=Consumer):
    """Executes op on the real code and the model; returns (violation or None, outcome)."""
    web.net.log[:] = []
    cons = cls(session, web.store)
    if op.startswith('begin:') or op == 'own':
        if op == 'own':
            url = None
            req = cons.beginWithoutDiscovery(own_service())
            want = [OWNS]
            fetched = bool([u for u, b in web.net.log if b is None])
            if fetched:
                return 'beginWithoutDiscovery made a discovery request', None
        else:
            url = URL[op[6:]]
            mine = m.mgr is not None and url in m.mgr[0] and m.mgr[1]
            try:
                req = cons.begin(url)
            except DiscoveryFailure:
                req = None
            fetched = url in [u for u, b in web.net.log if b is None]
            if mine and m.mgr[2] and fetched:
                return 'discovery repeated although untried services %s remain' % [s.server for s in m.mgr[1]], None
            if not mine and not fetched:
                return 'no discovery made for %s' % url, None
            if fetched:
                svcs = sorted(SV.get(url) or [], key=lambda s: -s.v)      # by type preference, then by priority
                if not svcs:
                    if req is not None:
                        return 'begin succeeded for an identifier without services', None
                    if m.mgr is not None:
                        m.mgr = None if url in m.mgr[0] else (m.mgr[0], m.mgr[1], False)
                    m.pend = tuple(sorted(set(m.pend) | {None}, key=lambda s: s.server if s else ''))
                    return None, 'no-service'
                ids = (url, A) if url == A2 else (url,)
                m.mgr = (ids, tuple(svcs), True)
            else:
                m.mgr = (m.mgr[0], m.mgr[1], True)
            if req is None:
                return 'begin failed although services remain', None
            want = [m.mgr[1][0]]
            m.mgr = (m.mgr[0], m.mgr[1][1:], True)
        s = want[0]
        to = req.redirectURL(REALM, RET)
        q = world.query_of(to)
        if to.split('?')[0] != s.server:
            return 'offered %s, expected %s' % (to.split('?')[0], s.server), None
        exp = world.IDSEL if s.idp else s.local
        if q.get('openid.identity') != exp:
            return 'request names %r, expected %r' % (q.get('openid.identity'), exp), None
        if s.v == 2 and q.get('openid.claimed_id') != (world.IDSEL if s.idp else s.claimed):
            return 'request claims %r' % q.get('openid.claimed_id'), None
        m.pend = (s,)
        return None, 'offered'
    # completions
    pend = m.pend
    ident = set(None if p is None else p.claimed for p in pend)
    q, want, want_id = {}, 'failure', ident
    if op == 'ok':
        p = pend[-1]
        if p is None:
            q, want, want_id = web.assertion(SV[C][0]), 'success', {C}
        elif p.idp:
            q, want, want_id = web.assertion(SV[C][0]), 'success', {C}
        else:
            # the service published under the claimed identifier
            q, want, want_id = web.assertion(p), 'success', {p.claimed}
    elif op == 'stale':
        # an OpenID 1 answer that relies on the session to say which identifier was meant
        s = SV[D][1]
        q = web.assertion(s, with_claimed=False)
        if s in pend:
            want, want_id = ('success',) + (() if len(pend) == 1 else ('failure',)), {D} | ident
        elif any(p and p.claimed == D for p in pend):
            # the identifier also publishes this service; discovery decides
            want, want_id = ('success', 'failure'), {D} | ident
    elif op == 'stale1':
        s = SV[A][1]
        q = web.assertion(s, with_claimed=False)
        # local identifier equals A: any pending login whose claimed identifier is A and version 1
        if s in pend:
            want, want_id = ('success',) + (() if len(pend) == 1 else ('failure',)), {A} | ident
        elif any(p and p.claimed == A for p in pend):
            want, want_id = ('success', 'failure'), {A} | ident
    elif op == 'unsol':
        q, want, want_id = web.assertion(SV[C][0]), 'success', {C}
    elif op == 'cancel':
        q, want = {'openid.ns': NS2, 'openid.mode': 'cancel'}, 'cancel'
    elif op == 'cancel1':
        q, want = {'openid.mode': 'cancel'}, 'cancel'
    elif op == 'error':
        q = {'openid.ns': NS2, 'openid.mode': 'error', 'openid.error': 'no'}
    elif op == 'setup':
        q, want = {'openid.ns': NS2, 'openid.mode': 'setup_needed'}, 'setup_needed'
    elif op == 'setup1':
        q, want = {'openid.mode': 'id_res', 'openid.user_setup_url': 'http://op/x'}, 'setup_needed'
    elif op == 'junk':
        q = {}
    elif op == 'tampered':
        q = web.assertion(pend[-1] if pend[-1] and not pend[-1].idp else SV[C][0])
        q['openid.sig'] = 'AAAAAAAAAAAAAAAAAAAAAAAAAAA='
    r = cons.complete(dict(q), RET)
    if r.status not in want if isinstance(want, tuple) else r.status != want:
        return 'completion %s gave %s (%s), expected %s' % (op, r.status, getattr(r, 'message', ''), want), None
    if r.identity_url not in want_id:
        return 'completion %s reports identity %r, expected one of %r' % (op, r.identity_url, sorted(map(str, want_id))), None
    m.pend = (None,)
    if r.status in ('success', 'cancel'):
        if pend == (None,):
            if m.mgr is not None:
                m.mgr = (m.mgr[0], m.mgr[1], False)
        elif len(pend) > 1:
            if m.mgr is not None:
                m.mgr = (m.mgr[0], m.mgr[1], False)
        else:
            m.mgr = None
    return None, r.status


MARK = {'app': 'data', 'user': [1, 2]}


def settled(m, session, prefix_of_other=None):
    """Session content once nothing is pending: nothing of the library's."""
    if m.mgr is None and m.pend == (None,):
        left = [k for k in session if k not in MARK and not (prefix_of_other and prefix_of_other in k)]
        if left:
            return 'session still holds %r' % left
    for k, v in MARK.items():
        if session.get(k) != v:
            return "the application's session entry %r changed to %r" % (k, session.get(k))
    return None


class Stored(dict):
    """A session as frameworks keep it: every value is serialised when set and a fresh copy is handed out on each read."""

    def __init__(self, content):
        dict.__init__(self)
        for k, v in content.items():
            self[k] = v

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, pickle.dumps(v, 2))

    def __getitem__(self, k):
        return pickle.loads(dict.__getitem__(self, k))

    def get(self, k, default=None):
        return self[k] if k in self else default

    def pop(self, k, *default):
        v = self.get(k, *default) if k in self or default else self[k]
        if k in self:
            del self[k]
        return v

    def setdefault(self, k, default=None):
        if k not in self:
            self[k] = default
        return self[k]

    def plain(self):
        return {k: self[k] for k in self}


def reload(session):
    return pickle.loads(pickle.dumps(session, 2))


def closure(case, st):
    """Breadth-first over reached (session bytes, model) from one first operation."""
    _, first, maxdepth, other = case
    web = Web()
    m0 = Model()
    base = dict(MARK)
    if other:
        # a second application (own key prefix) with a login under way in the same user session
        c2 = Consumer2(base, web.store)
        c2.begin(D)
    start = (pickle.dumps(base, 2), m0, (first,))
    seen = set()
    queue = [(start[0], m0, ())]
    firsts = [first]
    depth = 0
    while queue and depth < maxdepth:
        nxt = []
        for blob, m, hist in queue:
            for op in (firsts if depth == 0 else OPS):
                session = pickle.loads(blob)
                m2 = m.copy()
                st.executions += 1
                st.transitions += 1
                bad, out = step(web, m2, session, op)
                h2 = hist + (op,)
                if bad is None:
                    bad = settled(m2, session, '_other_app_' if other else None)
                if bad is None and other:
                    n = len([k for k in session if '_other_app_' in k])
                    if n != 2:
                        bad = 'another application in the same session lost its login state'
                if bad:
                    st.violation('h:%s' % ','.join(h2), 'after %s: %s' % (' '.join(h2), bad), list(h2))
                    if len(st.violations) > 5:
                        return
                    continue
                st.outcome(out)
                b2 = pickle.dumps(session, 2)
                k = (b2, m2.key())
                st.state(k)
                if k in seen:
                    continue
                seen.add(k)
                nxt.append((b2, m2, h2))
        queue = nxt
        depth += 1
    st.notes['depth reached from %s%s' % (first, ' (shared session)' if other else '')] = '%d%s' % (depth, '' if queue else ' (closed)')
    st.sample({'first': first, 'states': len(seen)})


def history(case, st):
    """Plain histories, objects of one web, no deduplication."""
    _, ops = case
    web = Web()
    m, session = Model(), dict(MARK)
    st.executions += 1
    for i, op in enumerate(ops):
        st.transitions += 1
        bad, out = step(web, m, session, op)
        if bad is None:
            bad = settled(m, session)
        if bad:
            st.violation('h:%s' % ','.join(ops[:i + 1]), 'after %s: %s' % (' '.join(ops[:i + 1]), bad), list(ops))
            return
        session = reload(session)
    st.state(ops)
    st.outcome(out)


def tree(case, st):
    """All histories with a given prefix, sharing prefixes (session and model are snapshotted)."""
    _, prefix, depth = case
    web = Web()

    def go(blob, m, hist, todo):
        for op in ([prefix[len(hist)]] if len(hist) < len(prefix) else OPS):
            session = Stored(pickle.loads(blob))
            m2 = m.copy()
            st.executions += 1
            st.transitions += 1
            bad, out = step(web, m2, session, op)
            if bad is None:
                bad = settled(m2, session)
            h2 = hist + (op,)
            if bad:
                st.violation('h:%s' % ','.join(h2), 'after %s: %s' % (' '.join(h2), bad), list(h2))
                continue
            st.outcome(out)
            if todo > 1:
                go(pickle.dumps(session.plain(), 2), m2, h2, todo - 1)
            if len(st.violations) > 10:
                return
        st.state((hist,))
    go(pickle.dumps(dict(MARK), 2), Model(), (), depth)


def two(case, st):
    """Two sessions on one store: each behaves as if alone, whatever the interleaving."""
    _, ops1, ops2 = case
    for mask in itertools.combinations(range(len(ops1) + len(ops2)), len(ops1)):
        web = Web()
        ms = (Model(), Model())
        ss = [dict(MARK), dict(MARK)]
        its = (iter(ops1), iter(ops2))
        st.executions += 1
        hist = []
        for i in range(len(ops1) + len(ops2)):
            j = 0 if i in mask else 1
            op = next(its[j])
            hist.append('%d.%s' % (j, op))
            st.transitions += 1
            bad, out = step(web, ms[j], ss[j], op)
            if bad is None:
                bad = settled(ms[j], ss[j])
            if bad:
                st.violation('two:%s' % ','.join(hist), 'sessions: after %s: %s' % (' '.join(hist), bad), hist)
                return
            st.outcome(out)
        st.state(hist)


def ladder(case, st):
    """An identifier with n services: n logins in a row offer each of them once, in order; one more starts over, and so does one after a completed login."""
    _, n, kind, stop = case
    env.reset()
    net = world.Net().install()
    store = MemoryStore()
    servers = [op_url('n%d' % i) for i in range(n)]
    t = {2: [T_SIGNON], 1: [T_11]}[kind]
    net.page(A, world.xrds(*reversed([world.service(t, [u], priority=3 * i) for i, u in enumerate(servers)])), ctype=world.XRDS_CT)
    for u in servers:
        store.storeAssociation(u, Association('h', KEY, T0, 10 ** 7, 'HMAC-SHA1'))
    session = dict(MARK)
    key = 'ladder:%r' % (case[1:],)
    st.executions += 1
    st.state(case)

    def begin(i, discovers):
        st.transitions += 1
        del net.log[:]
        to = Consumer(session, store).begin(A).redirectURL(REALM, RET).split('?')[0]
        if to != servers[i]:
            st.violation(key, 'login offered %s, expected service %d of %d (%s)' % (to, i, n, servers[i]), None)
        if bool(net.log) != discovers:
            st.violation(key, 'login number %d of %d: %s' % (i, n, 'discovery repeated' if net.log else 'no discovery made'), None)
    for i in range(n if stop is None else stop + 1):
        begin(i, i == 0)
        if i % 7 == 3:
            session = reload(session)
    if stop is not None:
        q = {'openid.mode': 'cancel'}
        if kind == 2:
            q['openid.ns'] = NS2
        r = Consumer(session, store).complete(q, RET)
        if r.status != 'cancel' or r.identity_url != A:
            st.violation(key, 'cancelled after %d of %d: %s %s' % (stop, n, r.status, r.identity_url), None)
        if session != MARK:
            st.violation(key, 'the session still holds %r' % sorted(session), None)
    begin(0, True)
    st.outcome('ladder')


DURLS = ['http://u.example/', 'http://u.example/alias', 'http://v.example/', 'http://none.example/', 'http://down.example/']
DOPS = [(o, u, s) for s in (None, 'other') for u in DURLS for o in ('next', 'cleanup')] + [('force', DURLS[0], None), ('force', DURLS[2], 'other'), ('save', None, None)]


class Down(Exception):
    pass


def disco(case, st):
    """The session layer under the Consumer, with a discovery function that remembers its answers: all histories, two kinds of use in one session."""
    _, first, depth = case
    for rest in itertools.product(DOPS, repeat=depth - 1):
        hist = (first,) + rest
        known = {DURLS[0]: (DURLS[0], ['s1', 's2']), DURLS[1]: (DURLS[0], ['s1', 's2']), DURLS[2]: (DURLS[2], ['t1']), DURLS[3]: (DURLS[3], [])}
        asked = []

        def find(url):
            asked.append(url)
            if url == DURLS[4]:
                raise Down()
            return known[url]
        session = {'mine': 1}
        model = {}              # suffix -> [starting, found, remaining, current]
        st.executions += 1
        bad = None
        for n, (o, url, suffix) in enumerate(hist):
            st.transitions += 1
            if o == 'save':
                session = pickle.loads(pickle.dumps(session, 2))
                continue
            d = Discovery(session, url, suffix) if suffix or n % 2 else Discovery(session, url)
            del asked[:]
            m = model.get(suffix)
            mine = m is not None and url in m[:2]
            if o == 'next':
                calls = []
                if mine and m[2]:
                    want = m[3] = m[2].pop(0)
                else:
                    if mine:
                        del model[suffix]
                    calls = [url]
                    if url == DURLS[4]:
                        want = 'down'
                    else:
                        real, services = {DURLS[0]: (DURLS[0], ['s1', 's2']), DURLS[1]: (DURLS[0], ['s1', 's2']), DURLS[2]: (DURLS[2], ['t1']), DURLS[3]: (0, [])}[url]
                        want = services[0] if services else None
                        if services:
                            model[suffix] = [url, real, services[1:], want]
                try:
                    got = d.getNextService(find)
                except Down:
                    got = 'down'
                if asked != calls:
                    bad = 'discovery was made for %r, expected %r' % (asked, calls)
            else:
                want = None
                if m is not None and (mine or o == 'force'):
                    want = m[3]
                    del model[suffix]
                got = d.cleanup(force=True) if o == 'force' else d.cleanup()
            if got != want:
                bad = bad or 'gave %r, expected %r' % (got, want)
            if len(session) != 1 + len(model) or session.get('mine') != 1:
                bad = bad or 'the session holds %r' % sorted(session)
            if bad:
                st.violation('disco:%r' % (hist[:n + 1],), 'after %r: %s' % (hist[:n + 1], bad), hist)
                return
        st.state(('disco', hist))
    st.outcome('session layer')


def check(ctx):
    q = ctx.quick
    ctx.bounds = {'services of one identifier': max(sizes.counts(q)), 'operations': len(OPS), 'closure depth': 40, 'history depth': 4 if q else 5, 'session layer': '%d operations, histories of %d' % (len(DOPS), 3 if q else 4), 'two sessions': '%d operations each' % (2 if q else 3)}

    def cases():
        for o in OPS:
            yield ('closure', o, 40, False)
            yield ('closure', o, 40, True)
        for p in itertools.product(OPS, repeat=2):
            yield ('tree', p, 4 if q else 5)
        sub = ['begin:A', 'begin:C', 'ok', 'cancel', 'stale1'] if q else ['begin:A', 'begin:B', 'begin:D', 'ok', 'cancel', 'stale']
        n = 2 if q else 3
        for a in itertools.product(sub, repeat=n):
            for b in itertools.product(sub, repeat=n):
                if q or a <= b:
                    yield ('two', a, b)

        for n in sizes.counts(q):
            for kind in (2, 1):
                if n:
                    yield ('ladder', n, kind, None)
                for i in sizes.places(n):
                    yield ('ladder', n, kind, i)
        for o in DOPS:
            yield ('disco', o, 3 if q else 4)

    def run(case, st):
        {'disco': disco, 'ladder': ladder, 'closure': closure, 'tree': tree, 'two': two}[case[0]](case, st)
    ctx.run(cases, run)
