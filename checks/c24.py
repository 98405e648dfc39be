"""C24: honest logins between the real relying party and the real provider, in every configuration and over disturbed histories."""
import itertools, os, pickle, shutil, tempfile
from lib import sizes, env, world, op, pair
from lib.env import CLOCK, T0
from lib.world import NS1, NS11, NS2, IDSEL, T_10, T_11, T_SIGNON, T_SERVER
from lib.pair import Pair, USER, OPURL, REALM, RETURN
from openid.consumer.consumer import SUCCESS, CANCEL, SETUP_NEEDED, FAILURE
from openid.extensions import sreg, ax, pape
from openid.fetchers import HTTPResponse
from openid.store.filestore import FileOpenIDStore
from openid.store.memstore import MemoryStore
from openid.store.sqlstore import SQLiteStore

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of the configuration product, and of all histories of consecutive logins with associations lost or expiring at every point, '
             'on the real relying party joined to the real provider by wire text; outcomes compared with an explicit model of who still holds which key')
NOTE = 'the model tracks keys, losses and expiry from what was seen on the wire; every history is executed on the real code of both sides'
RULE = 'one execution = one login from begin to completion; compared: outcome, claimed identifier, local identifier, handle in use, extension data, setup URL'
ASSUMPTIONS = ['messages arrive unaltered within the nonce window', 'argument names of a return URL are not repeated', 'the user agent follows redirects and submits forms']
LOCAL = 'http://op.example/users/u?x=1'
TYPES = {2: T_SIGNON, 11: T_11, 10: T_10}
PREFS = {'default': None, 'dh1': [('HMAC-SHA1', 'DH-SHA1')], 'dh256': [('HMAC-SHA256', 'DH-SHA256')], 'plain1': [('HMAC-SHA1', 'no-encryption')], 'plain256': [('HMAC-SHA256', 'no-encryption')]}
DISAGREE = [('dh256', 'dh1'), ('dh1', 'dh256'), ('plain1', 'dh1'), ('dh1', 'plain256'), ('default', 'dh1'), ('default', 'plain1')]
RETURNS = ['http://rp.example/return', 'http://rp.example/return?a=b', 'http://rp.example/r?x=%26%3D&y=a+b&z=', 'http://rp.example/', 'http://rp.example:80/ret', 'http://RP.example/Return/%7Eu',
           'http://rp.example/r?next=http://rp.example/%3Fa%3Db%26c%3Dd', 'http://rp.example/r?u=\u00e4', 'http://rp.example/r?openid=x&janrain=y', 'http://rp.example/return?', 'http://rp.example/r?a=b&']
REALMS = {'http://rp.example/': 'http://rp.example/', 'wild': 'http://*.rp.example/'}


class Bad(Exception):
    pass


def same(what, got, want):
    if got != want:
        raise Bad('%s: %r, expected %r' % (what, got, want))


class Lossy(object):
    """A store whose associations can all be lost at once."""

    def __init__(self, store):
        self.__dict__['_s'] = store
        self.__dict__['_keys'] = []

    def storeAssociation(self, url, assoc):
        self._keys.append((url, assoc.handle))
        return self._s.storeAssociation(url, assoc)

    def __getattr__(self, n):
        return getattr(self.__dict__['_s'], n)

    def lose(self):
        for u, h in self._keys:
            self._s.removeAssociation(u, h)
        del self._keys[:]


def html(links):
    return '<html><head>%s</head><body>x</body></html>' % ''.join('<link rel="%s" href="%s">' % (r, world.esc(h)) for r, h in links)


# identifier set-ups: (what the user types, publish(net, version), claimed id, identity as asserted)
def publish(net, kind, version):
    t = TYPES[version]
    pre = 'openid2.' if version == 2 else 'openid.'
    prov, loc = ('openid2.provider', 'openid2.local_id') if version == 2 else ('openid.server', 'openid.delegate')
    typed, claimed, local = USER, USER, USER
    if isinstance(kind, tuple):
        what, n = kind
        if what == 'claimed':
            typed = claimed = local = USER + sizes.text(n)
        elif what == 'query':
            typed = claimed = local = USER + '?q=' + sizes.text(n)
        elif what == 'local':
            local = LOCAL + sizes.text(n)
        net.page(typed, world.xrds(world.service([t], [OPURL], local_id=local if version == 2 and local != claimed else None,
                                                 delegate=None if version == 2 or local == claimed else local)), ctype=world.XRDS_CT)
    elif kind == 'xrds':
        net.page(USER, world.xrds(world.service([t], [OPURL])), ctype=world.XRDS_CT)
    elif kind == 'header':
        net.page(USER, '<html></html>', headers={'x-xrds-location': 'http://docs.example/x'})
        net.page('http://docs.example/x', world.xrds(world.service([t], [OPURL])), ctype=world.XRDS_CT)
    elif kind == 'xrds-delegate':
        net.page(USER, world.xrds(world.service([t], [OPURL], local_id=LOCAL if version == 2 else None, delegate=None if version == 2 else LOCAL)), ctype=world.XRDS_CT)
        local = LOCAL
    elif kind == 'html':
        net.page(USER, html([(prov, OPURL)]))
    elif kind == 'html-delegate':
        net.page(USER, html([(prov, OPURL), (loc, LOCAL)]))
        local = LOCAL
    elif kind == 'html-both':
        net.page(USER, html([('openid.server openid2.provider', OPURL), ('openid.delegate openid2.local_id', LOCAL)]))
        local = LOCAL
    elif kind == 'multi':   # several services, several types: the best one must win and still verify
        net.page(USER, world.xrds(world.service([T_10], [OPURL], priority='5'), world.service([T_11, t], [OPURL], priority='1'), world.service(['urn:other'], ['http://other.example/'], priority='0')), ctype=world.XRDS_CT)
    elif kind == 'redirected':
        net.page('http://short.example/u', world.xrds(world.service([t], [OPURL])), ctype=world.XRDS_CT, final=USER)
        net.page(USER, world.xrds(world.service([t], [OPURL])), ctype=world.XRDS_CT)
        typed = 'short.example/u'
    elif kind == 'typed':
        net.page(USER, world.xrds(world.service([t], [OPURL])), ctype=world.XRDS_CT)
        typed = 'USER.example#frag'
        net.routes['http://USER.example'] = net.routes['http://user.example'] = net.routes[USER]
    elif kind == 'query':
        claimed = local = typed = 'http://user.example/~u?a=b&c=d+e'
        net.page(typed, world.xrds(world.service([t], [OPURL])), ctype=world.XRDS_CT)
        local = claimed
    elif kind in ('idsel', 'idsel-frag', 'idsel-other'):
        typed = 'http://op.example/'
        net.page(typed, world.xrds(world.service([T_SERVER], [OPURL])), ctype=world.XRDS_CT)
        net.page(USER, world.xrds(world.service([T_SIGNON], [OPURL], local_id=LOCAL if kind == 'idsel-other' else None)), ctype=world.XRDS_CT)
        if kind == 'idsel-frag':
            claimed = USER + '#2017'
        if kind == 'idsel-other':
            local = LOCAL
    elif kind == 'xri':
        typed, claimed, local = 'xri://=user', 'xri://=!ABCD.1', 'xri://=!ABCD.1'
        doc = ('<?xml version="1.0"?><xrds:XRDS xmlns:xrds="xri://$xrds" xmlns="xri://$xrd*($v*2.0)"><XRD><Status code="100"/><ProviderID>xri://=</ProviderID><CanonicalID>=!ABCD.1</CanonicalID>%s</XRD></xrds:XRDS>'
               % world.service([t], [OPURL])).encode()
        net.default = lambda url, body, headers: HTTPResponse(url, 200, {'content-type': world.XRDS_CT}, doc) if 'xri.net' in url else None
    else:
        raise KeyError(kind)
    return typed, claimed, local


IDENTS = ['xrds', 'header', 'xrds-delegate', 'html', 'html-delegate', 'html-both', 'multi', 'redirected', 'typed', 'query', 'idsel', 'idsel-frag', 'idsel-other', 'xri']
V2ONLY = ('idsel', 'idsel-frag', 'idsel-other')
EXTS = ['none', 'sreg', 'ax', 'pape', 'all', 'big']


TYPE = 'http://ax.example/t%d'


def policies(n):
    return ['http://policies.example/p%d' % i for i in range(n)]


def sized_request(auth, ext):
    what, n = ext
    if what == 'nick':
        auth.addExtension(sreg.SRegRequest(required=['nickname']))
    elif what in ('values', 'value'):
        r = ax.FetchRequest()
        r.add(ax.AttrInfo(TYPE % 0, alias='a', count=max(n, 1) if what == 'values' else 1))
        auth.addExtension(r)
    elif what == 'types':
        r = ax.FetchRequest()
        for i in range(n):
            r.add(ax.AttrInfo(TYPE % i, alias='a%d' % i if i % 2 else None, required=i % 3 == 0, count=1 + i % 2))
        auth.addExtension(r)
    elif what == 'policies':
        auth.addExtension(pape.Request(policies(n)))


def sized_response(req, resp, ext):
    what, n = ext
    if what == 'nick':
        q = sreg.SRegRequest.fromOpenIDRequest(req)
        resp.addExtension(sreg.SRegResponse.extractResponse(q, {'nickname': sizes.text(n)}))
    elif what in ('values', 'value', 'types'):
        q = ax.FetchRequest.fromOpenIDRequest(req)
        if what == 'types' and not n:
            return
        same('attributes asked', sorted((a.type_uri, a.count, a.required) for a in q.iterAttrs()),
             sorted((TYPE % i, 1 + i % 2, i % 3 == 0) for i in range(n)) if what == 'types' else [(TYPE % 0, max(n, 1) if what == 'values' else 1, False)])
        r = ax.FetchResponse(request=q)
        for u, vals in sized_values(ext).items():
            r.setValues(u, vals)
        resp.addExtension(r)
    elif what == 'policies':
        q = pape.Request.fromOpenIDRequest(req)
        same('policies asked', q.preferred_auth_policies, policies(n))
        resp.addExtension(pape.Response(policies(n)))


def sized_values(ext):
    what, n = ext
    if what == 'types':
        return {TYPE % i: ['v%d' % i] * (1 + i % 2) for i in range(n)}
    return {TYPE % 0: ['v%d' % (i * 7) for i in range(n)] if what == 'values' else [sizes.text(n)]}


def sized_check(r, ext):
    what, n = ext
    if what == 'nick':
        x = sreg.SRegResponse.fromSuccessResponse(r)
        same('sreg', dict(x.items()) if x is not None else None, {'nickname': sizes.text(n)})
    elif what in ('values', 'value', 'types') and not (what == 'types' and not n):
        x = ax.FetchResponse.fromSuccessResponse(r)
        same('ax', dict(x.data) if x is not None else None, sized_values(ext))
    elif what == 'policies':
        x = pape.Response.fromSuccessResponse(r)
        same('pape', x.auth_policies if x is not None else None, policies(n))


def add_request(auth, ext):
    if isinstance(ext, tuple):
        return sized_request(auth, ext)
    if ext in ('sreg', 'all', 'big'):
        auth.addExtension(sreg.SRegRequest(required=['nickname'], optional=['email', 'dob']))
    if ext in ('ax', 'all'):
        r = ax.FetchRequest()
        r.add(ax.AttrInfo('http://axschema.org/contact/email', alias='email', required=True, count=2))
        auth.addExtension(r)
    if ext in ('pape', 'all'):
        auth.addExtension(pape.Request([pape.AUTH_PHISHING_RESISTANT], 60))


def add_response(req, resp, ext):
    if isinstance(ext, tuple):
        return sized_response(req, resp, ext)
    if ext in ('sreg', 'all', 'big'):
        q = sreg.SRegRequest.fromOpenIDRequest(req)
        same('sreg request', (q.required, q.optional), (['nickname'], ['email', 'dob']))
        resp.addExtension(sreg.SRegResponse.extractResponse(q, {'nickname': 'n' * (4000 if ext == 'big' else 1), 'email': '\u00e4@x', 'gender': 'M'}))
    if ext in ('ax', 'all'):
        q = ax.FetchRequest.fromOpenIDRequest(req)
        r = ax.FetchResponse(request=q)
        r.setValues('http://axschema.org/contact/email', ['a@x', 'b&c'])
        resp.addExtension(r)
    if ext in ('pape', 'all'):
        q = pape.Request.fromOpenIDRequest(req)
        same('pape request', (q.preferred_auth_policies, q.max_auth_age), ([pape.AUTH_PHISHING_RESISTANT], 60))
        resp.addExtension(pape.Response([pape.AUTH_PHISHING_RESISTANT], '2017-07-14T02:40:00Z'))


def check_ext(r, ext):
    if isinstance(ext, tuple):
        return sized_check(r, ext)
    if ext in ('sreg', 'all', 'big'):
        x = sreg.SRegResponse.fromSuccessResponse(r)
        same('sreg', dict(x.items()) if x is not None else None, {'nickname': 'n' * (4000 if ext == 'big' else 1), 'email': '\u00e4@x'})
    if ext in ('ax', 'all'):
        x = ax.FetchResponse.fromSuccessResponse(r)
        same('ax', x.get('http://axschema.org/contact/email') if x is not None else None, ['a@x', 'b&c'])
    if ext in ('pape', 'all'):
        x = pape.Response.fromSuccessResponse(r)
        same('pape', (x.auth_policies, x.auth_time) if x is not None else None, ([pape.AUTH_PHISHING_RESISTANT], '2017-07-14T02:40:00Z'))


def login(p, ident, version, immediate=False, ext='none', ret=RETURN, realm=REALM, transport='redirect', decision='yes', hook=lambda point, x: None, sess='kept'):
    """One whole login; returns (response, what was seen on the wire)."""
    typed, claimed, local = publish(p.net, ident, version)
    wire = {}
    auth = p.consumer().begin(typed)
    add_request(auth, ext)
    q, to = p.send(auth, realm=realm, return_to=ret, immediate=immediate, transport=transport)
    same('request sent to', to, OPURL)
    wire['request'] = q
    hook('request', wire)
    req = p.server.decodeRequest(q)
    hook('decoded', wire)
    if decision == 'yes':
        if req.idSelect():
            resp = req.answer(True, identity=local, claimed_id=claimed)
        else:
            same('identity asked', req.identity, local)
            resp = req.answer(True)
        add_response(req, resp, ext)
    else:
        same('mode', req.immediate, immediate)
        resp = req.answer(False)
    rq, cur = p.receive(resp)
    wire['response'] = rq
    wire['response_url'] = cur
    hook('answered', wire)
    if sess == 'lost':          # an application without sessions, or another browser session
        p.session = {}
    elif sess == 'stored':
        p.session = pickle.loads(pickle.dumps(p.session))
    r = p.consumer().complete(rq, cur)
    return r, wire, claimed, local


def judge(r, claimed, local, decision, immediate, ext, version, ident):
    if decision == 'yes':
        if r.status != SUCCESS:
            raise Bad('honest login ended in %s: %s' % (r.status, getattr(r, 'message', None)))
        same('identity', r.identity_url, claimed)
        same('local identifier', r.endpoint.getLocalID().split('#')[0], local)
        check_ext(r, ext)
    elif immediate:
        same('outcome of an immediate refusal', r.status, SETUP_NEEDED)
        if version != 2:
            if not (r.setup_url or '').startswith(OPURL):
                raise Bad('setup url %r' % (r.setup_url,))
    else:
        same('outcome of a refusal', r.status, CANCEL)


_CACHE = {}


def the_pair(version, store, rp_prefs, op_prefs, opstore='memory'):
    """Pairs are reused within a process (the association is then in place), with a new session each time."""
    k = (version, store, rp_prefs, op_prefs, opstore)
    if k not in _CACHE:
        if len(_CACHE) > 24:
            _CACHE.clear()
        _CACHE[k] = new_pair(*k)
    p = _CACHE[k]
    p.net = world.Net().install()
    p.net.routes[OPURL] = p.op_direct
    p.session = {}
    CLOCK.now += 1
    return p


def a_store(kind):
    if kind == 'memory':
        return MemoryStore()
    if kind == 'none':
        return None
    d = tempfile.mkdtemp(prefix='st-', dir=SCRATCH[0])
    if kind == 'file':
        return FileOpenIDStore(d)
    import sqlite3
    s = SQLiteStore(sqlite3.connect(os.path.join(d, 'db')))
    s.createTables()
    return s


SCRATCH = [None]


def new_pair(version, store, rp_prefs, op_prefs, opstore):
    rs = a_store(store)
    p = Pair(version, rp_store=None if rs is None else Lossy(rs), op_store=Lossy(a_store(opstore)), rp_prefs=PREFS[rp_prefs], op_prefs=PREFS[op_prefs], reset=False)
    return p


def config(case, st):
    _, version, store, rpp, opp, opstore, ident, immediate, ext, ret, realm, transport, decision, times, sess = case
    p = the_pair(version, store, rpp, opp, opstore)
    for n in range(times):
        st.executions += 1
        st.transitions += 4
        r, wire, claimed, local = login(p, ident, version, immediate, ext, ret, REALMS[realm], transport, decision, sess=sess)
        judge(r, claimed, local, decision, immediate, ext, version, ident)
    st.state(case)
    st.outcome('%s%s' % (r.status, ':stateless' if 'openid.assoc_handle' not in wire['request'] else ''))


LIFE = 14 * 24 * 3600
POINTS = {'begin': ['-', 'rp', 'op', 'old', 'near'], 'request': ['-', 'rp', 'op', 'old', 'near', 'hour'], 'answered': ['-', 'rp', 'op', 'hour']}
# old: everything is past its lifetime; near: half an hour is left; hour: an hour passes


def history(case, st):
    """Consecutive logins with losses and expiry at every point, against the model of who holds which key."""
    _, version, store, steps = case
    env.reset()
    p = new_pair(version, store, 'plain1', 'default', 'memory')
    sh = {}      # shared handle -> expiry, while both sides have it:  rp / op membership below
    rp, opk, private = {}, {}, {}
    dead = set()

    def disturb(d):
        if d == 'rp':
            if p.rp_store is not None:
                p.rp_store.lose()
            rp.clear()
        elif d == 'op':
            p.op_store.lose()
            opk.clear()
            private.clear()
        elif d == 'old':
            CLOCK.now += LIFE + 3600
        elif d == 'near':
            CLOCK.now += LIFE - 1800
        elif d == 'hour':
            CLOCK.now += 3600
        now = CLOCK.now
        for t in (rp, opk, private):
            for h in [h for h, e in t.items() if e <= now]:
                del t[h]

    for n, (d0, d1, d2) in enumerate(steps):
        CLOCK.now += 1
        disturb(d0)
        p.net = world.Net().install()
        p.net.routes[OPURL] = p.op_direct
        p.session = {}
        before = dict(rp)
        exp = {}

        def hook(point, wire):
            q = wire['request']
            if point == 'request':
                h = q.get('openid.assoc_handle')
                if store == 'none':
                    same('handle of a stateless relying party', h, None)
                elif h is None:
                    raise Bad('login %d: no association although the provider is able' % n)
                elif h not in before:
                    rp[h] = opk[h] = CLOCK.now + LIFE
                    if h in dead:
                        raise Bad('login %d: handle %s in use again after the provider declared it invalid' % (n, h))
                elif set(before) - {h}:
                    pass
                disturb(d1)
            elif point == 'answered':
                a = wire['response']
                h, hr = q.get('openid.assoc_handle'), a.get('openid.assoc_handle')
                if h in opk:
                    same('login %d: handle of the assertion' % n, hr, h)
                    same('invalidated handle', a.get('openid.invalidate_handle'), None)
                    exp['shared'] = True
                else:
                    if hr == h:
                        raise Bad('login %d: signed with an association the provider no longer has' % n)
                    if h is not None:
                        same('login %d: invalidated handle' % n, a.get('openid.invalidate_handle'), h)
                    private[hr] = CLOCK.now + LIFE
                    exp['shared'] = False
                exp['h'] = hr
                disturb(d2)
        st.executions += 1
        st.transitions += 7
        r, wire, claimed, local = login(p, 'xrds', version, hook=hook)
        ok = exp['h'] in rp if exp['shared'] else exp['h'] in private
        if ok:
            judge(r, claimed, local, 'yes', False, 'none', version, 'xrds')
            inv = wire['response'].get('openid.invalidate_handle')
            if inv is not None:
                rp.pop(inv, None)
                dead.add(inv)
        elif r.status != FAILURE:
            raise Bad('login %d: %s although the verifying side had lost the key' % (n, r.status))
        private.pop(exp['h'], None)
        st.outcome('history:%s:%s' % ('shared' if exp['shared'] else 'private', r.status))
    st.state(case)


FN = dict(config=config, history=history)


def one(case, st):
    st.sample(repr(case)[:300])
    try:
        FN[case[0]](case, st)
    except Bad as e:
        st.violation(repr(case)[:300], str(e)[:600], repr(case)[:1500])


def check(ctx):
    q = ctx.quick

    def cases():
        base = dict(version=2, store='memory', rpp='default', opp='default', opstore='memory', ident='xrds', immediate=False, ext='none', ret=RETURN, realm=REALM, transport='redirect', decision='yes', times=1, sess='kept')
        order = ['version', 'store', 'rpp', 'opp', 'opstore', 'ident', 'immediate', 'ext', 'ret', 'realm', 'transport', 'decision', 'times', 'sess']
        seen = set()

        def product(**dims):
            keys = list(dims)
            for vals in itertools.product(*[dims[k] for k in keys]):
                c = dict(base, **dict(zip(keys, vals)))
                if c['version'] != 2 and c['ident'] in V2ONLY:
                    continue
                t = ('config',) + tuple(c[k] for k in order)
                if t not in seen:
                    seen.add(t)
                    yield t
        versions, stores, imm, yes = [2, 11, 10], ['memory', 'none'], [False, True], ['yes', 'no']
        tr = ['redirect', 'form']
        gens = [
            product(version=versions, store=stores, ident=IDENTS, immediate=imm, ext=EXTS, transport=tr, decision=yes),
            product(version=versions, store=stores, ident=IDENTS, ret=RETURNS, transport=tr, decision=yes, immediate=imm),
            product(version=versions, store=['memory', 'file', 'none'], ident=IDENTS, immediate=imm, sess=['lost', 'stored'], ret=RETURNS[:3], decision=yes, ext=['none', 'all']),
            product(version=versions, store=stores, ret=RETURNS, realm=list(REALMS), ext=EXTS, immediate=imm),
            product(version=versions, store=['memory', 'file', 'sqlite', 'none'], opstore=['memory', 'file', 'sqlite'], rpp=list(PREFS), times=[2], decision=yes),
            (t for r, o in DISAGREE for t in product(version=versions, store=stores, rpp=[r], opp=[o], ident=['xrds', 'html-delegate'], times=[2])),
        ]
        ns, ls = sizes.counts(q), [n for n in sizes.lengths(q) if n <= (9000 if q else 70000)]
        few = [n for n in ls if n <= 2100]
        gens += [
            product(version=[2, 11], ext=[(w, n) for w in ('values', 'types', 'policies') for n in ns] + [(w, n) for w in ('nick', 'value') for n in ls], store=stores),
            product(version=[2, 11], ident=[(w, n) for w in ('claimed', 'query', 'local') for n in few], store=stores, transport=tr),
            product(version=[2, 11], ret=[RETURN + '?' + '&'.join('k%d=v%d' % (i, i * 3) for i in range(n)) for n in ns if n] + [RETURN + '?k=' + sizes.text(n) for n in ls], store=stores, transport=tr, sess=['kept', 'lost']),
        ]
        if not q:
            gens.append(product(version=versions, store=['memory', 'file', 'sqlite', 'none'], rpp=list(PREFS), ident=IDENTS, immediate=imm, ext=EXTS, ret=RETURNS, transport=tr, decision=yes))
        for g in gens:
            for t in g:
                yield t
        step = list(itertools.product(POINTS['begin'], POINTS['request'], POINTS['answered']))
        calm = ('-', '-', '-')
        for version in (2, 11):
            for store in ('memory', 'none', 'file'):
                # an OpenID 1 login carries a nonce from its beginning, which is good for hours only
                steps = [x for x in step if version == 2 or x[1] not in ('old', 'near')]
                for a in steps:
                    if store == 'file' and q:
                        yield ('history', version, store, (a, calm))
                        continue
                    for b in steps:
                        if q and version == 11 and '-' not in b[:2]:
                            continue
                        yield ('history', version, store, (a, b, calm))
                        if not q and store == 'memory' and a[0] == '-':
                            for c in steps:
                                yield ('history', version, store, (a, b, c, calm))

    ctx.bounds = {'values, attributes, policies and return URL arguments': max(sizes.counts(q)), 'length of values and URLs': 9000 if q else 70000, 'identifier set-ups': len(IDENTS), 'return urls': len(RETURNS), 'extension sets': len(EXTS), 'preferences': len(PREFS) + len(DISAGREE), 'logins in a history': 3 if q else 4, 'disturbances per login': '%dx%dx%d' % (5, 5, 4)}
    SCRATCH[0] = tempfile.mkdtemp(prefix='c24-')
    try:
        ctx.run(cases, one)
    finally:
        shutil.rmtree(SCRATCH[0], ignore_errors=True)
