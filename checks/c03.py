"""C03: a reported identity is confirmed by discovery; all published services x sessions x assertions."""
import itertools, copy
from lib import sizes, env, world
from lib.env import CLOCK, T0
from lib.world import NS1, NS2, NS11, T_SIGNON, T_SERVER, T_11, T_10, service, xrds, XRDS_CT
from openid.association import Association
from openid.consumer.consumer import Consumer
from openid.store.memstore import MemoryStore
from openid.fetchers import HTTPResponse
from openid.yadis.discover import DiscoveryFailure
from six.moves.urllib.parse import urlencode

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of (services published at login, services published at verification, pending-login '
             'session, genuinely signed assertion) executed on the real begin/complete against an independent matching model')
NOTE = 'every combination within the bound runs the real begin and complete; both acceptance and refusal are compared'
RULE = ('state = (published services then and now, session endpoint, asserted version/claimed/identity/endpoint, signer); '
        'SUCCESS exactly when some discovered service of that identifier is the asserted one and its OP signed')
ASSUMPTIONS = ['discovery data comes from the identifier\'s own pages',
               'where several OpenID 1 services with different OPs match, acceptance of any of their signatures is allowed']
USER, OTHER, ALIAS = 'http://user.example/', 'http://other.example/', 'http://alias.example/'
LOCAL = 'http://op.example/~local'
OP, EVIL = 'http://op.example/server', 'http://evil.example/server'
RET = 'http://rp.example/ret'
KEYS = {OP: b'1' * 20, EVIL: b'2' * 20}
XRI, CANON = '=user', '=!91F2.8153'

# (types, server, LocalID tag, Delegate tag)
S = [((T_SIGNON,), OP, None, None), ((T_SIGNON,), OP, LOCAL, None), ((T_SIGNON,), EVIL, None, None),
     ((T_11,), OP, None, None), ((T_10,), OP, None, None), ((T_11,), EVIL, None, LOCAL), ((T_SERVER,), OP, None, None),
     ((T_SIGNON, T_11), OP, LOCAL, LOCAL), ((T_SIGNON,), OP, OTHER, None), (('http://other.example/type',), OP, None, None),
     ((T_SIGNON,), OP, None, LOCAL), ((T_11,), OP, LOCAL, None), ((T_SIGNON,), OP + '/', None, None),
     ((T_11,), OP, None, LOCAL)]


def model(svc, claimed):
    """What the published service says: (types, server, claimed, local) or None when it confirms no identifier."""
    types, server, lid, dele = svc
    if T_SERVER in types or not set(types) & {T_SIGNON, T_11, T_10}:
        return None
    local = None
    if set(types) & {T_11, T_10}:
        local = dele
    if T_SIGNON in types:
        local = local or lid
    return (types, server, claimed, local or claimed)


def doc(svcs):
    return xrds(*[service(t, [u], lid, d, priority=n) for n, (t, u, lid, d) in enumerate(svcs)])


def html(svcs):
    out = []
    for t, u, lid, d in svcs:
        if T_SIGNON in t:
            out.append('<link rel="openid2.provider" href="%s">' % u)
            if lid:
                out.append('<link rel="openid2.local_id" href="%s">' % lid)
        else:
            out.append('<link rel="openid.server" href="%s">' % u)
            if d:
                out.append('<link rel="openid.delegate" href="%s">' % d)
    return '<html><head><title>x</title>%s</head><body></body></html>' % ''.join(out)


class W(object):
    def __init__(self, form='xrds'):
        self.form = form
        self.net = world.Net()
        self.store = MemoryStore()
        for srv, k in KEYS.items():
            for s in (srv, srv + '/'):
                self.store.storeAssociation(s, Association('h', k, T0, 10 ** 7, 'HMAC-SHA1'))
        self.snap = copy.deepcopy(self.store)
        self.publish(OTHER, [((T_SIGNON,), EVIL, None, None), ((T_11,), EVIL, None, None)])
        self.net.install()

    def publish(self, url, svcs):
        self.now = svcs
        for u in (url, ALIAS):
            if url != USER and u == ALIAS:
                continue
            if svcs is None:
                self.net.routes.pop(u, None)
            elif self.form == 'xrds' or url == OTHER:
                self.net.page(u, doc(svcs), ctype=XRDS_CT, final=url)
            else:
                self.net.page(u, html(svcs), final=url)


def session_for(w, svcs, start, tries):
    """Begin a login; returns (session, endpoint model or None)."""
    env.reset()
    w.store = copy.deepcopy(w.snap)
    w.publish(USER, svcs)
    sess = {}
    req = None
    try:
        for _ in range(tries):
            req = Consumer(sess, w.store).begin(start)
    except DiscoveryFailure:
        return None
    ep = req.endpoint
    if ep.isOPIdentifier():
        m = None
    else:
        m = (tuple(ep.type_uris), ep.server_url, ep.claimed_id, ep.getLocalID())
    return sess, m


def matches(m, v, claimed, ident, server):
    if m is None or ident is None or claimed is None:
        return False
    types, srv, cl, local = m
    need = {T_SIGNON} if v == 2 else {T_11, T_10}
    return bool(set(types) & need) and cl == claimed.split('#')[0] and local == ident and (v != 2 or srv == server)


def assertion(v, claimed, ident, server, signer, session_cid):
    q = {'openid.mode': 'id_res', 'openid.assoc_handle': 'h'}
    signed = ['mode', 'assoc_handle', 'return_to']
    if ident is not None:
        q['openid.identity'] = ident
        signed.append('identity')
    bare = {}
    if v == 2:
        q.update({'openid.ns': NS2, 'openid.op_endpoint': server, 'openid.response_nonce': world.nonce_at(T0)})
        signed += ['op_endpoint', 'response_nonce']
        if claimed is not None:
            q['openid.claimed_id'] = claimed
            signed.append('claimed_id')
    else:
        if v == 11:
            q['openid.ns'] = NS11
        bare['janrain_nonce'] = world.nonce_at(T0)
        if claimed is not None:
            bare['openid1_claimed_id'] = claimed
    q['openid.return_to'] = RET + ('?' + urlencode(sorted(bare.items())) if bare else '')
    q = world.sign(q, signed, KEYS[signer], 'HMAC-SHA1')
    q.update(bare)
    return q


CLAIMS = [USER, OTHER, USER + '#f', USER + 'x', 'http://USER.example/', ALIAS, None, '']
IDENTS = [USER, LOCAL, OTHER, None, '']


def run(w, sess, smodel, svcs, v, claimed, ident, server, signer, key, st):
    env.reset()
    w.net.install()
    w.store = copy.deepcopy(w.snap)
    s = copy.deepcopy(sess) if sess is not None else {}
    q = assertion(v, claimed, ident, server, signer, None)
    resp = Consumer(s, w.store).complete(q, RET)
    st.executions += 1
    st.transitions += 1
    st.state(key)
    got = resp.status == 'success'
    v1claim = claimed
    if v != 2 and claimed is None and smodel is not None:
        v1claim = smodel[2]
    eff = claimed if v == 2 else v1claim
    pub = []
    if eff is not None:
        b = eff.split('#')[0]
        if b == USER:
            pub = [model(x, USER) for x in (svcs or [])]
        elif b == OTHER:
            pub = [((T_SIGNON,), EVIL, OTHER, OTHER), ((T_11,), EVIL, OTHER, OTHER)]
    if v == 2 and claimed is None and ident is None:
        cand = [server]
    else:
        cand = [m[1] for m in [smodel] + pub if matches(m, v, eff, ident, server)]
    key_of = lambda srv: KEYS[srv.rstrip('/')] if srv.rstrip('/') in KEYS else None
    okset = [key_of(c) == KEYS[signer] for c in cand]
    want = False if not any(okset) else (True if all(okset) else None)
    case = {'services now': svcs, 'session': smodel, 'query': q}
    if want is not None and got != want:
        st.violation(repr(key), 'status %s (%s), model says %s' % (resp.status, getattr(resp, 'message', ''), want), case)
    if got:
        ids = [eff if ident is not None else None]
        if v != 2 and eff:
            ids.append(eff.split('#')[0])       # OpenID 1 carries no claimed identifier of its own
        if resp.identity_url not in ids:
            st.violation(repr(key), 'reported identity %r, asserted %r' % (resp.identity_url, eff), case)
        if resp.endpoint.server_url not in cand:
            st.violation(repr(key), 'reported endpoint %r, confirmed %r' % (resp.endpoint.server_url, cand), case)
        disp = resp.getDisplayIdentifier()
        if eff is not None and ident is not None and disp != eff.split('#')[0]:
            st.violation(repr(key), 'display identifier %r for %r' % (disp, eff), case)
    st.outcome('success' if got else 'refused')
    st.sample({'case': key, 'status': resp.status})


def asserts(quick):
    for v in (2, 1, 11):
        for claimed in CLAIMS:
            for ident in IDENTS:
                for server in ((OP, EVIL) if v == 2 else (OP,)):
                    for signer in (OP, EVIL):
                        yield v, claimed, ident, server, signer


def lists(quick):
    yield None
    yield ()
    for a in range(len(S)):
        yield (a,)
    for a, b in itertools.permutations(range(len(S)), 2):
        yield (a, b)
    if not quick:
        for c in itertools.permutations(range(9), 3):
            yield c


def htmlable(ix):
    if ix is None:
        return True
    ts = [('2' if T_SIGNON in S[i][0] else '1') for i in ix]
    return all(len(S[i][0]) == 1 and S[i][0][0] in (T_SIGNON, T_11) for i in ix) and len(set(ts)) == len(ts)


def one_size(what, n, st):
    """Many services of which one is the asserted one, and long endpoints and local identifiers of which one is the published one."""
    w = W()
    far = lambda i: ((T_SIGNON,) if i % 2 else (T_11,), 'http://op%d.example/server' % i, None if i % 3 else LOCAL, LOCAL if i % 5 else None)
    go = lambda key, svcs, v, ident, server, signer=OP: run(w, None, None, svcs, v, USER, ident, server, signer, ('size', what, n) + key, st)
    if what == 'services':
        for i in sizes.places(n):
            for one in (((T_SIGNON,), OP, LOCAL, None), ((T_11,), OP, None, LOCAL)):
                svcs = [far(k) if k != i else one for k in range(n)]
                w.publish(USER, svcs)
                for v in (2, 1):
                    for ident in (LOCAL, USER):
                        for server in (OP, EVIL) if v == 2 else (OP,):
                            go((i, one[0], v, ident, server), svcs, v, ident, server)
        w.publish(USER, [far(k) for k in range(n)])
        for v in (2, 1):
            go(('absent', v), [far(k) for k in range(n)], v, LOCAL, OP)
    elif what == 'local':
        lid = lambda at=None: LOCAL + sizes.text(n, at)
        for v, one in ((2, ((T_SIGNON,), OP, lid(), None)), (1, ((T_11,), OP, None, lid()))):
            w.publish(USER, [one])
            for i in [None] + sizes.places(n):
                go((v, i), [one], v, lid(i), OP)
            go((v, 'cut'), [one], v, lid()[:-1], OP)
            go((v, 'more'), [one], v, lid() + 'x', OP)
    else:
        srv = lambda at=None: OP + '/' + sizes.text(n, at)
        one = ((T_SIGNON,), srv(), None, None)
        w.publish(USER, [one])
        all_ = [srv(i) for i in [None] + sizes.places(n)] + [srv() + 'x', srv()[:-1]]
        try:
            for u in all_:
                for x in (u, u.rstrip('/')):
                    KEYS.setdefault(x, KEYS[OP])
                    w.snap.storeAssociation(x, Association('h', KEYS[OP], T0, 10 ** 7, 'HMAC-SHA1'))
            for j, u in enumerate(all_):
                go((j,), [one], 2, USER, u)
        finally:
            for u in list(KEYS):
                if u not in (OP, EVIL):
                    del KEYS[u]


def xri_part(st):
    """XRI identifiers: the canonical ID is the claimed identifier, for every published/asserted combination."""
    def answer(w, svc_ids, canon):
        def handler(url, body, headers):
            if url.startswith('http://proxy.xri.net/') and svc_ids is not None:
                t = url.split('_xrd_t=')[1] if '_xrd_t=' in url else ''
                from six.moves.urllib.parse import unquote
                t = unquote(t.split('&')[0])
                svcs = [service(S[i][0], [S[i][1]], S[i][2], S[i][3], priority=n) for n, i in enumerate(svc_ids) if t in S[i][0]]
                b = xrds(*svcs).decode().replace('<XRD>', '<XRD><CanonicalID>%s</CanonicalID>' % canon if canon else '<XRD>')
                return HTTPResponse(url, 200, {'content-type': XRDS_CT}, b.encode())
            return None
        return handler
    w = W()
    for svc_ids in [(0,), (1,), (2,), (0, 3), (8,), None, (3,), (11,)]:
        for canon in (CANON, None, '=!OTHER', '@!1'):
            w.net.default = answer(w, svc_ids, canon)
            for begun in (True, False):
                env.reset()
                sess = {}
                w.store = copy.deepcopy(w.snap)
                w.net.install()
                ep = None
                if begun:
                    try:
                        ep = Consumer(sess, w.store).begin(XRI).endpoint
                    except DiscoveryFailure:
                        continue
                    if ep.claimed_id != 'xri://%s' % canon:
                        st.violation(repr(('xri', svc_ids, canon)), 'claimed id %r for canonical id %r' % (ep.claimed_id, canon), None)
                for v in (2, 1):
                    for claimed in ('xri://' + CANON, CANON, XRI, 'xri://=!OTHER', '=evil', None):
                        for ident in ('xri://' + CANON, CANON, XRI, LOCAL, OTHER, None):
                            for server, signer in itertools.product((OP, EVIL), repeat=2):
                                key = ('xri', svc_ids, canon, begun, v, claimed, ident, server, signer)
                                env.reset()
                                w.store = copy.deepcopy(w.snap)
                                q = assertion(v, claimed, ident, server, signer, None)
                                resp = Consumer(copy.deepcopy(sess), w.store).complete(q, RET)
                                st.executions += 1
                                st.transitions += 1
                                st.state(key)
                                got = resp.status == 'success'
                                eff = claimed
                                if v == 1 and claimed is None and ep is not None:
                                    eff = ep.claimed_id
                                cand = []
                                if v == 2 and claimed is None and ident is None:
                                    cand = [server]
                                elif eff is not None and ident is not None and eff == 'xri://%s' % canon and canon in (CANON, '=!OTHER'):
                                    for i in svc_ids or ():
                                        m = model(S[i], 'xri://%s' % canon)
                                        if m and matches(m, v, eff, ident, server):
                                            cand.append(m[1])
                                ok = [KEYS[c] == KEYS[signer] for c in cand]
                                want = False if not any(ok) else (True if all(ok) else None)
                                if want is not None and got != want:
                                    st.violation(repr(key), 'status %s (%s), model says %s' % (
                                        resp.status, getattr(resp, 'message', ''), want), {'query': q})
                                if got and ident is not None and resp.identity_url != eff:
                                    st.violation(repr(key), 'identity %r' % (resp.identity_url,), {'query': q})
                                st.outcome('xri success' if got else 'xri refused')


# base identifier -> near identifiers with the address they are fetched from (None: refused as an identifier)
def near_ids(base):
    rest = base[len('http://user.example'):]
    out = [base, base + '#f', base + '#', base + 'x', base + '/', base.rstrip('/'), base + '?', base + '?y=2', base + '&y=2',
           'https' + base[4:], 'HTTP' + base[4:], 'http://user.example:80' + rest, 'http://user.example:8080' + rest,
           'http://www.user.example' + rest, 'http://USER.example' + rest, 'http://user.example.' + rest,
           'http://user.example' + rest.upper(), 'http://user.example' + rest.lower(), 'http://x@user.example' + rest,
           'http://user.example' + rest.replace('u', '%75'), 'http://user.example/.' + rest, 'http://user.example/a/..' + rest,
           base.split('?')[0], base[7:], ' ' + base, base + ' ', base.replace('x=1', 'x=%31'), base.replace('user', 'usor')]
    return list(dict.fromkeys(out))


NEAR_BASES = ['http://user.example/', 'http://user.example/u', 'http://user.example/u/', 'http://user.example/u?x=1', 'http://user.example/U']
NEAR_SERVERS = [OP, OP + '/', OP + 'x', OP[:-1], OP.replace('/server', '/Server'), OP + '?a=1', OP + '#a', 'https' + OP[4:],
                OP.replace('op.example', 'op.example:80'), OP.replace('op.example', 'OP.example'), OP + '/../server', EVIL]


def near_part(base, quick, st):
    """The asserted identifier and endpoint are compared exactly: neighbours of either prove nothing."""
    from openid.fetchers import HTTPFetchingError
    key_of = lambda srv: KEYS[OP] if srv == OP else KEYS[EVIL]
    snap = MemoryStore()
    for srv in NEAR_SERVERS:
        snap.storeAssociation(srv, Association('h', key_of(srv), T0, 10 ** 7, 'HMAC-SHA1'))
    mine = [((T_SIGNON,), OP, None, None), ((T_11,), OP, None, None)]
    evil = [((T_SIGNON,), EVIL, None, None), ((T_11,), EVIL, None, None), ((T_SIGNON,), OP + 'x', None, None), ((T_SIGNON,), EVIL, base, None), ((T_11,), EVIL, None, base)]
    for begun in (None, 'mine', 'mine1', 'evil'):
        for now in ('mine', 'mine+evil', 'evil', 'gone', 'down', '500', 'junk'):
            net = world.Net()

            def handler(url, body, headers, now=now):
                if not url.startswith(('http://', 'https://')) or 'server' in url:
                    return None
                if now == 'down':
                    raise HTTPFetchingError('no route to host')
                if now == '500':
                    return HTTPResponse(url, 500, {'content-type': XRDS_CT}, doc(mine))
                if now == 'junk':
                    return HTTPResponse(url, 200, {'content-type': XRDS_CT}, b'<nothing/>')
                svcs = pub(url, now)
                return HTTPResponse(url, 200, {'content-type': XRDS_CT}, doc(svcs)) if svcs else None

            def pub(url, now):
                if url == base:
                    return mine if 'mine' in now else None
                return evil if 'evil' in now else None
            sess, sm = {}, None
            if begun:
                env.reset()
                start = base if begun != 'evil' else base + ('&y=2' if '?' in base else 'x')
                net.page(start, doc(mine if begun == 'mine' else mine[1:] if begun == 'mine1' else evil), ctype=XRDS_CT)
                net.install()
                ep = Consumer(sess, copy.deepcopy(snap)).begin(start).endpoint
                sm = (tuple(ep.type_uris), ep.server_url, ep.claimed_id, ep.getLocalID())
                if sm[2] != start:
                    st.violation(repr(('near', base, begun)), 'claimed id %r for %r' % (sm[2], start), None)
            net.routes.clear()
            net.default = handler
            net.install()
            for claimed in near_ids(base):
                b = claimed.split('#')[0]
                # what discovery of the address could confirm, in the address's own spelling
                dis = [model(x, b) for x in (pub(b, now) or [])] if now not in ('down', '500', 'junk') else []
                # only addresses in normal form name themselves
                if b not in NORMAL[base]:
                    dis = []
                for ident in (claimed, base):
                    for v in (2, 1):
                        for server in (NEAR_SERVERS if v == 2 and (claimed in (base, base + '#f') or now == 'evil') else (OP, EVIL)):
                            if v == 1 and server == EVIL:
                                continue
                            for signer in (OP, EVIL):
                                key = ('near', base, begun, now, v, claimed, ident, server, signer)
                                env.reset()
                                q = assertion(v, claimed, ident, server, signer, None)
                                resp = Consumer(copy.deepcopy(sess), copy.deepcopy(snap)).complete(q, RET)
                                st.executions += 1
                                st.transitions += 1
                                st.state(key)
                                cand = [m[1] for m in [sm] + dis if matches(m, v, claimed, ident, server)]
                                ok = [key_of(c) == KEYS[signer] for c in cand]
                                want = False if not any(ok) else (True if all(ok) else None)
                                if want and '/' in b.partition('?')[2]:
                                    want = None         # whether a slash in the query is in normal form is left open
                                got = resp.status == 'success'
                                if want is not None and got != want:
                                    st.violation(repr(key), 'status %s (%s), model says %s' % (
                                        resp.status, getattr(resp, 'message', ''), want), {'session': sm, 'published': now, 'query': q})
                                if got and (resp.identity_url.split('#')[0] != b or resp.endpoint.server_url not in cand):
                                    st.violation(repr(key), 'reported %r at %r' % (resp.identity_url, resp.endpoint.server_url), {'query': q})
                                st.outcome('near success' if got else 'near refused')


# of the near identifiers, those already in normal form (written out, not computed by the code under test)
NORMAL = {}
for _b in NEAR_BASES:
    _bad = {'http://user.example', _b + '?', 'HTTP' + _b[4:], _b[7:], ' ' + _b, _b + ' '}
    NORMAL[_b] = {x for x in (y.split('#')[0] for y in near_ids(_b))
                  if x not in _bad and ':80/' not in x and 'USER' not in x and '/.' not in x[8:] and '%' not in x and '?y=2?' not in x and x.count('?') < 2}


def check(ctx):
    quick = ctx.quick
    cache = {}

    def cases():
        yield ('xri',)
        for n in sizes.counts(quick):
            yield ('size', 'services', n)
        for n in sizes.lengths(quick):
            if n <= (9000 if quick else 140000):
                yield ('size', 'local', n)
                yield ('size', 'server', n)
        for b in NEAR_BASES:
            yield ('near', b)
        for form in ('xrds', 'html'):
            for ix in lists(quick):
                if form == 'html' and not htmlable(ix):
                    continue
                yield (form, ix)

    def one(case, st):
        if case == ('xri',):
            return xri_part(st)
        if case[0] == 'size':
            return one_size(case[1], case[2], st)
        if case[0] == 'near':
            return near_part(case[1], quick, st)
        form, ix = case
        if form not in cache:
            w = W(form)
            sessions = [None]
            for i in range(len(S)):
                if form == 'html' and not htmlable((i,)):
                    continue
                r = session_for(w, [S[i]], USER if i % 2 else ALIAS, 1)
                if r is not None:
                    sessions.append(r)
            if form == 'xrds':
                sessions.append(session_for(w, [S[0], S[2]], USER, 2))
                sessions.append(session_for(w, [S[3], S[5]], USER, 2))
            cache[form] = (w, sessions)
        w, sessions = cache[form]
        svcs = None if ix is None else [S[i] for i in ix]
        w.publish(USER, svcs)
        pick = range(len(sessions)) if ix is None or len(ix) < 2 or not quick else (0, 1 + ix[0] % (len(sessions) - 1))
        for n in pick:
            sess, sm = sessions[n] if sessions[n] is not None else (None, None)
            for a in asserts(quick):
                run(w, sess, sm, svcs, *(a + ((form, ix, n) + a, st)))

    ctx.bounds = {'services of one identifier': max(sizes.counts(quick)), 'length of endpoints and local identifiers': 9000 if quick else 140000, 'service alphabet': len(S), 'services per document': 2 if quick else 3, 'assertions': len(list(asserts(quick)))}
    ctx.run(cases, one)
