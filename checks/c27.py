"""C27: the authentication request a relying party sends says exactly what was discovered and what the application asked for."""
import copy, itertools, pickle
from lib import sizes, env, world, op
from lib.env import CLOCK, T0
from lib.world import NS1, NS11, NS2, IDSEL, T_SIGNON, T_SERVER, T_11, T_10, service, xrds, XRDS_CT
from openid.association import Association
from openid.consumer.consumer import Consumer, ProtocolError
from openid.consumer.discover import OpenIDServiceEndpoint
from openid.extensions import sreg, pape
from openid.fetchers import HTTPResponse
from openid.store.memstore import MemoryStore
from six.moves.urllib.parse import parse_qsl, urlsplit

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of all sequences of operations on the real AuthRequest (extensions, arguments, anonymity, transmission) up to a depth, for every '
             'kind of discovered service and association state; every transmission is read back from the wire and compared with a model of the request')
NOTE = 'the model holds what was discovered and added so far; each transmission of the real object is compared with it field by field, in every form'
RULE = 'state = (service, association, what was added, anonymous); transition = one operation; each send compared: address, every field, refusals'
ASSUMPTIONS = ['argument names of the return URL are not repeated', 'the application passes text without line breaks in names']
USER, LOCAL, OP = 'http://user.example/', 'http://op.example/~u', 'http://op.example/server'
XRI, CANON = '=user', '=!91F2.8153'
SREG_NS, EXT = 'http://openid.net/extensions/sreg/1.1', 'http://ext.example/1'

# name -> (typed, services published, claimed, identity, OpenID 2?)
SERVICES = {
    'v2': (USER, [((T_SIGNON,), OP, None, None)], USER, USER, True),
    'v2 local': (USER, [((T_SIGNON,), OP, LOCAL, None)], USER, LOCAL, True),
    'v2 query': (USER, [((T_SIGNON,), OP + '?a=b&c=%26', None, None)], USER, USER, True),
    'v2 delegate ignored': (USER, [((T_SIGNON,), OP, None, LOCAL)], USER, USER, True),
    'op': (USER, [((T_SERVER,), OP, None, None)], IDSEL, IDSEL, True),
    'op local ignored': (USER, [((T_SERVER, T_SIGNON), OP, LOCAL, None)], IDSEL, IDSEL, True),
    'both': (USER, [((T_11, T_SIGNON), OP, LOCAL, LOCAL)], USER, LOCAL, True),
    'v1': (USER, [((T_11,), OP, None, None)], USER, USER, False),
    'v1 delegate': (USER, [((T_11,), OP, None, LOCAL)], USER, LOCAL, False),
    'v1 local ignored': (USER, [((T_11,), OP, LOCAL, None)], USER, USER, False),
    'v1.0 query': (USER, [((T_10,), OP + '?x=1', None, LOCAL)], USER, LOCAL, False),
    'xri': (XRI, [((T_SIGNON,), OP, None, None)], 'xri://' + CANON, 'xri://' + CANON, True),
    'xri local': (XRI, [((T_SIGNON,), OP, LOCAL, None)], 'xri://' + CANON, LOCAL, True),
    'xri v1': (XRI, [((T_11,), OP, None, None)], 'xri://' + CANON, 'xri://' + CANON, False),
}
OPS = [('sreg',), ('pape',), ('arg', EXT, 'k', 'v'), ('arg', EXT, 'k', 'w & x'), ('arg', EXT, 'l', ''), ('arg', SREG_NS, 'optional', 'dob'), ('anon', True), ('anon', False),
       ('rtarg', 'k', 'v=&\u00e4'), ('norts',), ('store',)]
RETURNS = [None, '', 'http://rp.example/ret', 'http://rp.example/ret?a=b&c=', 'http://rp.example/ret?', 'http://rp.example/ret?x=%26+y', 'http://rp.example/ret?xk=1&xjanrain_nonce=2']
REALMS = ['http://rp.example/', 'http://*.rp.example/?x=y&z']
HOW = ['message', 'redirect', 'form', 'html', 'form attrs']


class Bad(Exception):
    pass


def same(what, got, want):
    if got != want:
        raise Bad('%s: %r, expected %r' % (what, got, want))


class Model(object):
    def __init__(self, kind, assoc):
        self.kind = kind
        self.typed, self.svcs, self.claimed, self.identity, self.v2 = SERVICES[kind]
        self.server = self.svcs[0][1]
        self.assoc = assoc
        self.ext = {}            # (namespace, key) -> value
        self.anon = False
        self.rt_args = {}
        self.nonce = True


def begin(m, how):
    env.reset()
    net = world.Net().install()
    doc = xrds(*[service(t, [u], lid, d) for t, u, lid, d in m.svcs])
    net.page(USER, doc, ctype=XRDS_CT)
    if m.typed == XRI:
        body = doc.decode().replace('<XRD>', '<XRD><CanonicalID>%s</CanonicalID>' % CANON).encode()
        empty = xrds().decode().replace('<XRD>', '<XRD><CanonicalID>%s</CanonicalID>' % CANON).encode()
        from six.moves.urllib.parse import unquote

        def answer(url, b, h):
            if not url.startswith('http://proxy.xri.net/'):
                return None
            t = unquote(url.split('_xrd_t=')[1].split('&')[0]) if '_xrd_t=' in url else ''
            return HTTPResponse(url, 200, {'content-type': XRDS_CT}, body if t in m.svcs[0][0] else empty)
        net.default = answer
    if m.assoc == 'none':
        store = None
    else:
        store = MemoryStore()
        if m.assoc == 'known':
            store.storeAssociation(m.server, Association('h&1', b'1' * 20, T0, 1000, 'HMAC-SHA1'))
        elif m.assoc == 'old':
            store.storeAssociation(m.server, Association('h-old', b'1' * 20, T0 - 2000, 1000, 'HMAC-SHA1'))
        store.storeAssociation('http://other.example/', Association('h-other', b'2' * 20, T0, 1000, 'HMAC-SHA1'))
    c = Consumer({}, store)
    if how == 'anonymous':
        return c.begin(m.typed, anonymous=True)
    if how == 'given':
        req = c.begin(m.typed)
        return Consumer({}, store).beginWithoutDiscovery(req.endpoint)
    return c.begin(m.typed)


def expected(m, realm, rt, immediate):
    """dict of fields, or None when the request must be refused. The value ... stands for any."""
    if not rt:
        if immediate or not m.v2 or m.rt_args or m.nonce:
            return None
    f = {'openid.mode': 'checkid_immediate' if immediate else 'checkid_setup', 'openid.realm' if m.v2 else 'openid.trust_root': realm}
    if m.v2:
        f['openid.ns'] = NS2
    if rt:
        f['openid.return_to'] = ...
    if not m.anon:
        f['openid.identity'] = m.identity
        if m.v2:
            f['openid.claimed_id'] = m.claimed
    if m.assoc == 'known':
        f['openid.assoc_handle'] = 'h&1'
    return f


def extension_fields(m, q):
    """Resolve the extension fields on the wire to (namespace, key) -> value; returns (that, remaining fields)."""
    alias = {k[len('openid.ns.'):]: v for k, v in q.items() if k.startswith('openid.ns.')}
    if not m.v2:
        for a, uri in (('sreg', SREG_NS), ('pape', pape.ns_uri)):    # names that OpenID 1 need not declare
            if uri not in alias.values():
                alias.setdefault(a, uri)
    if len(set(alias.values())) != len(alias):
        raise Bad('a namespace has two names: %r' % (q,))
    ext, rest = {}, {}
    for k, v in q.items():
        if k.startswith('openid.ns.'):
            continue
        p = k.split('.')
        if len(p) > 2 and p[0] == 'openid':
            if p[1] not in alias:
                raise Bad('argument %r belongs to no namespace (%r)' % (k, q))
            ext[(alias[p[1]], '.'.join(p[2:]))] = v
        else:
            rest[k] = v
    return ext, rest


def send(req, m, how, realm, rt, immediate, st):
    want = expected(m, realm, rt, immediate)
    attrs = {'id': 'f"1', 'method': 'get', 'action': 'http://evil.example/', 'accept-charset': 'x'}
    try:
        if how == 'message':
            q, to, own = dict(req.getMessage(realm, rt, immediate).toPostArgs()), m.server, []
        elif how == 'redirect':
            url = req.redirectURL(realm, rt, immediate=immediate)
            pairs = parse_qsl(urlsplit(url).query, keep_blank_values=True, strict_parsing=True)
            own = parse_qsl(urlsplit(m.server).query, keep_blank_values=True)
            for p in own:
                if p not in pairs:
                    raise Bad('argument %r of the endpoint lost: %s' % (p, url))
                pairs.remove(p)
            q, to = dict(pairs), url.split('?')[0]
            same('repeated arguments', len(q), len(pairs))
            same('fragment', urlsplit(url).fragment, '')
        else:
            f = op.Form()
            t = req.htmlMarkup(realm, rt, immediate) if how == 'html' else req.formMarkup(realm, rt, immediate, attrs if how == 'form attrs' else None)
            f.feed(op.text(t))
            same('form', (f.forms, f.method), (1, 'post'))
            if how == 'html' and 'submit()' not in op.text(t):
                raise Bad('the page does not submit itself')
            q, to = dict(f.fields), f.action
            if len(q) != len(f.fields):
                raise Bad('repeated fields: %r' % (f.fields,))
    except ValueError as e:
        if want is not None:
            raise Bad('refused: %s' % e)
        st.outcome('refused')
        return None
    except AssertionError as e:
        raise Bad('AssertionError: %s' % e)
    if want is None:
        raise Bad('a request without the return URL it needs was made: %r' % (q,))
    same('sent to', to, m.server.split('?')[0] if how == 'redirect' else m.server)
    ext, rest = extension_fields(m, q)
    same('extension data', ext, m.ext)
    if not m.v2:
        rest.pop('openid.ns', None) if rest.get('openid.ns') in (NS1, NS11) else None
    got_rt = rest.get('openid.return_to')
    same('fields', {k: (... if want.get(k) is ... else v) for k, v in rest.items()}, want)
    if got_rt is not None:
        base, _, query = got_rt.partition('?')
        same('return URL', base, rt.split('?')[0])
        args = parse_qsl(query, keep_blank_values=True)
        for p in parse_qsl(urlsplit(rt).query, keep_blank_values=True):
            if p not in args:
                raise Bad('argument %r of the return URL lost: %s' % (p, got_rt))
            args.remove(p)
        d = dict(args)
        same('repeated arguments in the return URL', len(d), len(args))
        if m.nonce:
            n = d.pop('janrain_nonce', None)
            if n is None or not n.startswith(world.nonce_at(T0, '')):
                raise Bad('no fresh nonce in the return URL: %r' % (got_rt,))
            if not m.v2:
                same('claimed identifier in the return URL', d.pop('openid1_claimed_id', None), m.claimed)
        same('arguments added to the return URL', d, m.rt_args)
    st.outcome('%s %s' % ('OpenID 2' if m.v2 else 'OpenID 1', 'anonymous' if m.anon else 'sent'))
    return q


def sized(what, n):
    if what == 'args':
        return tuple(('arg', EXT, 'k%d' % i, 'v%d' % (i * 7)) for i in range(n))
    if what == 'exts':
        return tuple(('arg', EXT + '/%d' % i, 'k', 'v%d' % (i * 7)) for i in range(n))
    if what == 'rtargs':
        return tuple(('rtarg', 'k%d' % i, 'v%d' % (i * 7)) for i in range(n))
    if what == 'value':
        return (('arg', EXT, 'k', sizes.text(n)), ('rtarg', 'k', sizes.text(n, n // 2)))
    return (('arg', EXT, 'k' + sizes.text(n), 'v'), ('rtarg', 'k' + sizes.text(n), 'w'))


def do(req, m, o):
    """Apply one operation to the request and the model; returns the request."""
    if o[0] == 'sreg':
        try:
            req.addExtension(sreg.SRegRequest(required=['email'], optional=['nickname', 'dob']))
        except KeyError:         # the application has already put that extension under a name of its own: refused, nothing changes
            if (SREG_NS, 'optional') not in m.ext:
                raise Bad('extension refused')
            return req
        m.ext[(SREG_NS, 'required')] = 'email'
        m.ext[(SREG_NS, 'optional')] = 'nickname,dob'
    elif o[0] == 'pape':
        req.addExtension(pape.Request([pape.AUTH_MULTI_FACTOR], max_auth_age=0))
        m.ext[(pape.ns_uri, 'preferred_auth_policies')] = pape.AUTH_MULTI_FACTOR
        m.ext[(pape.ns_uri, 'max_auth_age')] = '0'
    elif o[0] == 'arg':
        req.addExtensionArg(*o[1:])
        m.ext[(o[1], o[2])] = o[3]
    elif o[0] == 'anon':
        try:
            req.setAnonymous(o[1])
            if o[1] and not m.v2:
                raise Bad('an OpenID 1 request was made anonymous')
            m.anon = o[1]
        except ValueError:
            if m.v2 or not o[1]:
                raise Bad('refused to set anonymity')
    elif o[0] == 'rtarg':
        req.return_to_args[o[1]] = o[2]
        m.rt_args[o[1]] = o[2]
    elif o[0] == 'norts':
        req.return_to_args.clear()
        m.rt_args, m.nonce = {}, False
    elif o[0] == 'store':
        req = pickle.loads(pickle.dumps(req))
    return req


def run(case, st):
    kind, assoc, how_begin, path, how, realm, rt, immediate = case
    if path and path[0] == 'size':
        path = sized(*path[1:])
    if isinstance(rt, tuple):
        rt = 'http://rp.example/ret?' + ('&'.join('q%d=w%d' % (i, i * 3) for i in range(rt[1])) if rt[0] == 'args' else 'q=' + sizes.text(rt[1]))
    m = Model(kind, assoc)
    st.executions += 1
    st.transitions += len(path) + 1
    st.state(case)
    st.sample(repr(case)[:300])
    try:
        try:
            req = begin(m, how_begin)
        except ProtocolError as e:
            if how_begin != 'anonymous' or m.v2:
                raise Bad('begin raised %s' % e)
            st.outcome('anonymous OpenID 1 refused')
            return
        if how_begin == 'anonymous':
            if not m.v2:
                raise Bad('an anonymous OpenID 1 request was begun')
            m.anon = True
        same('redirect recommended', bool(req.shouldSendRedirect()), not m.v2)
        for o in path:
            req = do(req, m, o)
        a = send(req, m, how, realm, rt, immediate, st)
        # sending again in another way is independent of the first time
        send(req, m, 'message', REALMS[0], RETURNS[2], not immediate, st)
        b = send(req, m, how, realm, rt, immediate, st)
        same('the same request sent again', b, a)
        # a later login has a nonce of its own
        if m.nonce and rt and assoc != 'none':
            n1 = dict(parse_qsl(urlsplit(a['openid.return_to']).query))['janrain_nonce']
            env.reset(9)
            r2 = Consumer({}, None).beginWithoutDiscovery(req.endpoint)
            n2 = dict(parse_qsl(urlsplit(r2.getMessage(realm, rt, False).toPostArgs()['openid.return_to']).query))['janrain_nonce']
            if n1 == n2:
                raise Bad('two logins share the nonce %r' % n1)
    except Bad as e:
        st.violation(repr(case), str(e)[:600], repr(case))


def check(ctx):
    q = ctx.quick
    depth = 2 if q else 3

    def cases():
        # every way of sending, nothing added
        for k, a, b, h, rl, rt, im in itertools.product(SERVICES, ('none', 'known', 'old', 'empty'), ('plain', 'anonymous', 'given'), HOW, REALMS, RETURNS, (False, True)):
            yield (k, a, b, (), h, rl, rt, im)
            yield (k, a, b, (('norts',),), h, rl, rt, im)
        # every size
        for k, h in itertools.product(('v2', 'v2 query', 'v1', 'v1.0 query'), ('message', 'redirect', 'form')):
            for n in sizes.counts(q):
                for w in ('args', 'exts', 'rtargs'):
                    yield (k, 'known', 'plain', ('size', w, n), h, REALMS[0], RETURNS[3], False)
                yield (k, 'known', 'plain', (), h, REALMS[0], ('args', n), False)
            for n in sizes.lengths(q):
                if n <= (20000 if q else 300000):
                    for w in ('value', 'key'):
                        yield (k, 'known', 'plain', ('size', w, n), h, REALMS[0], RETURNS[3], False)
                    yield (k, 'known', 'plain', (), h, REALMS[0], ('value', n), False)
        # every sequence of operations
        for n in range(1, depth + 1):
            for path in itertools.product(OPS, repeat=n):
                for k, h in itertools.product(SERVICES, ('redirect', 'form') if n == depth else HOW):
                    for rt, im in ((RETURNS[2], False), (RETURNS[3], True), (None, False)):
                        yield (k, 'known', 'plain', path, h, REALMS[0], rt, im)

    ctx.bounds = {'arguments': max(sizes.counts(q)), 'length of values and names': 20000 if q else 300000, 'services': len(SERVICES), 'operations': len(OPS), 'sequence length': depth, 'ways of sending': len(HOW) * len(REALMS) * len(RETURNS) * 2}
    ctx.run(cases, run)
