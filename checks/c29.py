"""C29: a byte string given where text is documented (deprecated input) means the text it encodes."""
import itertools, logging, os, sqlite3
from lib import env, world, op
from lib.env import CLOCK, T0
from lib.stores import Harness, sql_store, scratch_dir, rmtree
from openid import association, kvform, message, oidutil, urinorm
from openid.association import Association, SessionNegotiator
from openid.consumer import consumer, discover
from openid.consumer.discover import OpenIDServiceEndpoint
from openid.extensions import ax, sreg
from openid.message import Message
from openid.server import trustroot
from openid.server.server import Server, Signatory, CheckAuthRequest, CheckIDRequest, ProtocolError
from openid.store import nonce
from openid.store.filestore import FileOpenIDStore
from openid.store.memstore import MemoryStore
from openid.yadis import accept, etxrd, filters, services, xri, xrires

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive differential execution: every documented operation with every value of its bounded alphabet, and every subset of its text arguments given as '
             'UTF-8 byte strings, compared with the execution on text')
NOTE = 'the execution on text is the model; those executions are checked by the other properties'
RULE = 'one execution = one operation on one choice of values and one subset of arguments given as byte strings; compared: result (with types) or kind of error'
ASSUMPTIONS = ['only the operations whose interface documents byte strings as deprecated input are covered', 'byte strings that are no UTF-8 are outside the documented interface']


class T(object):
    """A text that may be given as a byte string."""

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return 'T(%r)' % (self.s,)


def holes(x):
    if isinstance(x, T):
        return 1
    if isinstance(x, dict):
        return sum(holes(k) + holes(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return sum(holes(y) for y in x)
    return 0


def fill(x, it):
    if isinstance(x, T):
        return x.s.encode('utf-8') if next(it) else x.s
    if isinstance(x, dict):
        return dict((fill(k, it), fill(v, it)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return type(x)(fill(y, it) for y in x)
    return x


def show(r):
    if isinstance(r, Association):
        return ('assoc', r.handle, r.secret, r.issued, r.lifetime, r.assoc_type)
    if isinstance(r, Message):
        return ('message', sorted(map(repr, r.args.items())), sorted(r.toArgs().items()) if not r.isOpenID1() else None)
    if isinstance(r, dict):
        return sorted((repr(show(k)), show(v)) for k, v in r.items())
    if isinstance(r, (list, tuple)):
        return [show(x) for x in r]
    if isinstance(r, trustroot.TrustRoot):
        return (r.unparsed, r.proto, r.wildcard, r.host, r.port, r.path)
    return r


# -- operations ----------------------------------------------------------------

def endpoint(v=2):
    e = OpenIDServiceEndpoint()
    e.server_url, e.claimed_id, e.type_uris = op.OP, 'http://user.example/', [world.T_SIGNON if v == 2 else world.T_11]
    return e


def auth(v=2):
    world.Net().install()
    return consumer.Consumer({}, None).beginWithoutDiscovery(endpoint(v))


def ext_arg(v, ns, key, value):
    a = auth(v)
    a.addExtensionArg(ns, key, value)
    return a.getMessage('http://rp.example/', 'http://rp.example/r').toPostArgs()


def said(v, how, realm, return_to, immediate):
    a = auth(v)
    r = getattr(a, how)(realm, return_to, immediate=immediate)
    return sorted(r.toPostArgs().items()) if how == 'getMessage' else r


def preferences(prefs):
    c = consumer.Consumer({}, None)
    c.setAssociationPreference(prefs)
    n = c.consumer.negotiator
    return (n.allowed_types, n.getAllowedType(), [n.isAllowed(a, s) for a in ('HMAC-SHA1', 'HMAC-SHA256') for s in ('DH-SHA1', 'DH-SHA256', 'no-encryption')])


def negotiator(prefs):
    n = SessionNegotiator(prefs)
    return (n.allowed_types, n.getAllowedType(), [n.isAllowed(a, s) for a in ('HMAC-SHA1', 'HMAC-SHA256') for s in ('DH-SHA1', 'DH-SHA256', 'no-encryption')])


def associate_request(a, s):
    _, args = consumer.GenericConsumer(None)._createAssociateRequest(endpoint(), a, s)
    args = args.toPostArgs()
    args.pop('openid.dh_consumer_public', None)
    return args


def decoded(mode, immediate_ok=True, version=2, ident='http://user.example/'):
    q = op.base_query(version, mode)
    q.update({'openid.identity': ident, 'openid.return_to': 'http://rp.example/r?a=b'})
    q.update({'openid.claimed_id': ident, 'openid.realm': 'http://rp.example/'} if version == 2 else {'openid.trust_root': 'http://rp.example/'})
    return Server(MemoryStore(), op.OP).decodeRequest(q)


def answered(version, mode, ident, allow, server_url, identity, claimed_id):
    r = decoded(mode, version=version, ident=ident).answer(allow, server_url=server_url, identity=identity, claimed_id=claimed_id)
    return {k: v for k, v in r.fields.toPostArgs().items() if k != 'openid.response_nonce'}


def from_message(endpoint_url):
    q = op.base_query(2, 'checkid_setup')
    q.update({'openid.identity': 'http://user.example/', 'openid.claimed_id': 'http://user.example/', 'openid.return_to': 'http://rp.example/r', 'openid.realm': 'http://rp.example/'})
    r = CheckIDRequest.fromMessage(Message.fromPostArgs(q), endpoint_url)
    return r.op_endpoint, {k: v for k, v in r.answer(True).fields.toPostArgs().items() if k != 'openid.response_nonce'}


def server_at(url):
    s = Server(MemoryStore(), url)
    q = op.base_query(2, 'checkid_setup')
    q.update({'openid.identity': 'http://user.example/', 'openid.claimed_id': 'http://user.example/', 'openid.return_to': 'http://rp.example/r', 'openid.realm': 'http://rp.example/'})
    got = dict(op.delivered(s.encodeResponse(s.decodeRequest(q).answer(True)), None)[1])
    return s.op_endpoint, got['openid.op_endpoint']


def check_auth(handle, invalidate):
    m = Message.fromPostArgs({'openid.ns': world.NS2, 'openid.mode': 'id_res', 'openid.sig': 'x', 'openid.signed': 'mode'})
    s = Signatory(MemoryStore())
    s.store.storeAssociation(s._normal_key, Association('known', b'k' * 20, T0, 100, 'HMAC-SHA1'))
    r = CheckAuthRequest(handle, m, invalidate, m)
    return r.assoc_handle, r.invalidate_handle, r.answer(s).fields.toPostArgs()


def signatory(dumb, what, handle):
    s = Signatory(MemoryStore())
    key = s._dumb_key if dumb else s._normal_key
    a = Association('known', b'k' * 20, T0, 100, 'HMAC-SHA1')
    s.store.storeAssociation(key, a)
    m = a.signMessage(Message.fromPostArgs({'openid.ns': world.NS2, 'openid.mode': 'id_res', 'openid.identity': 'x'}))
    if what == 'verify':
        got = s.verify(handle, m)
    elif what == 'get':
        got = s.getAssociation(handle, dumb)
    else:
        got = s.invalidate(handle, dumb)
    return got, s.store.getAssociation(key, 'known')


def created(dumb, atype):
    env.reset()
    s = Signatory(MemoryStore())
    a = s.createAssociation(dumb, atype)
    return a, s.store.getAssociation(s._dumb_key if dumb else s._normal_key, a.handle)


def file_store(ops, d):
    base = scratch_dir()
    cwd = os.getcwd()
    try:
        os.chdir(base)
        s = FileOpenIDStore(d)
        a = Association('h', b'k' * 20, T0, 100, 'HMAC-SHA1')
        s.storeAssociation('http://op.example/', a)
        return ([s.getAssociation('http://op.example/'), s.useNonce('http://op.example/', T0, 's'), s.useNonce('http://op.example/', T0, 's'), s.cleanupNonces(), s.cleanupAssociations()],
                sorted(os.path.relpath(os.path.join(b, x), base) for b, ds, fs in os.walk(base) for x in ds))
    finally:
        os.chdir(cwd)
        rmtree(base)


def store_ops(kind, url1, url2, handle):
    h = Harness(kind)
    try:
        s = h.store
        a = Association('h\u00e4/1', b'k' * 20, T0, 100, 'HMAC-SHA1')
        if kind == 'file':
            s.storeAssociation(url1, a)
        else:
            s.storeAssociation(url1.decode('utf-8') if isinstance(url1, bytes) else url1, a)
        out = [s.getAssociation(url2), s.getAssociation(url2, handle), s.useNonce(url1, T0, 'salt'), s.useNonce(url2, T0, 'salt'), s.useNonce(url1, T0, 'salt'),
               s.removeAssociation(url2, handle), s.getAssociation(url1), s.removeAssociation(url2, handle)]
        if kind == 'file':
            out.append(os.path.relpath(s.getAssociationFilename(url2, handle), h.dir))
        return out
    finally:
        h.close()


def table_names(kind, a, n):
    db = sqlite3.connect(':memory:')
    s = sql_store(kind, db, associations_table=a, nonces_table=n)
    s.createTables()
    s.storeAssociation('u', Association('h', b'k', T0, 100, 'HMAC-SHA1'))
    out = s.getAssociation('u'), s.useNonce('u', T0, 's'), s.useNonce('u', T0, 's')
    names = sorted(r[0] for r in db.execute("SELECT name FROM sqlite_master WHERE type = 'table'"))
    db.close()
    return out, names


def realm(root, url):
    t = trustroot.TrustRoot.parse(root)
    return t, t and t.validateURL(url), trustroot.TrustRoot.checkSanity(root), trustroot.TrustRoot.checkURL(root, url)


def arguments(ns, key, default):
    m = Message.fromPostArgs({'openid.ns': world.NS2, 'openid.mode': 'id_res', 'openid.ns.x': 'urn:x:\u00e4', 'openid.x.k\u00e4y': 'v', 'bare': 'b'})
    return m.getArg(ns, key, default)


def form(url):
    return message.Message.fromPostArgs({'openid.ns': world.NS2, 'openid.mode': 'x'}).toFormMarkup(url)


def yadis(uri):
    net = world.Net().install()
    net.page('http://user.example/', world.xrds(world.service([world.T_SIGNON], [op.OP])), ctype=world.XRDS_CT)
    try:
        url, found = discover.discoverYadis(uri)
    except Exception as e:
        return type(e).__name__, net.log
    return url, [(s.server_url, s.claimed_id, s.type_uris, s.local_id) for s in found], net.log


def resolver(x, types):
    net = world.Net().install()
    try:
        got = xrires.ProxyResolver('http://xri.example/').query(x, types)
    except Exception as e:
        return type(e).__name__, net.log
    return got, net.log


def local_id(types):
    doc = etxrd.parseXRDS(world.xrds(world.service([world.T_SIGNON, world.T_11], [op.OP], local_id='http://op.example/l')))
    return discover.findOPLocalIdentifier(list(etxrd.iterServices(doc))[0], types)


def matched(types):
    doc = etxrd.parseXRDS(world.xrds(world.service([world.T_SIGNON, world.T_11], [op.OP])))
    return filters.BasicServiceEndpoint('u', [world.T_SIGNON, 'urn:\u00e4'], 's', None).matchTypes(types)


def sreg_args(args, strict):
    x = sreg.SRegRequest()
    x.parseExtensionArgs(args, strict=strict)
    return x.required, x.optional, x.policy_url, x.getExtensionArgs()


def sreg_fields(first, fields, required, strict):
    x = sreg.SRegRequest()
    x.requestField(first, required=not required, strict=strict)
    x.requestFields(fields, required=required, strict=strict)
    return x.required, x.optional, x.getExtensionArgs()


def single(t, d):
    x = ax.FetchResponse()
    x.addValue('urn:\u00e4', 'v')
    x.setValues('urn:two', ['a', 'b'])
    x.setValues('urn:none', [])
    return x.getSingle(t, d)


def aliases(s):
    m = message.NamespaceMap()
    m.addAlias('urn:\u00e4', 'a')
    m.addAlias('urn:b', 'b')
    return ax.toTypeURIs(m, s)


def update(u):
    x = ax.FetchResponse(update_url=u)
    return x.update_url, x.getExtensionArgs()


def protocol_error(text):
    e = ProtocolError(Message.fromPostArgs({'openid.ns': world.NS2, 'openid.mode': 'x'}), text)
    return e.args, str(e), e.toMessage().toPostArgs(), e.encodeToKVForm()


class Records(logging.Handler):
    def emit(self, record):
        self.seen.append(record.getMessage())


def logged(text):
    h, root = Records(), logging.getLogger()
    h.seen, old = [], root.handlers[:]
    root.handlers[:] = [h]
    try:
        return oidutil.log(text), h.seen
    finally:
        root.handlers[:] = old


URLS = ['http://rp.example/', 'http://rp.example/\u00e4?\u00fc=\u2603#\u00e9', 'HTTP://RP.example:80/%7Ea/../b', '', 'nothing', 'http://\u00e4.example/', 'http://*.rp.example/', 'http://rp.example/a b', '\ud7ff\U0001d11e', '=iname*x']
WORDS = ['a', '', '\u00e4 \u2603', 'a:b', 'a\nb', ' x ', '\U0001d11e', 'http://x.example/?a=b&c']
TYPES = ['text/html', 'text/*', 'application/xrds+xml', 'x/\u00e4', '', 'none']
MORE = ['\x00', '%C3%A4', '<"\'>&', 'e\u0301', '\u00df' * 3, 'a=b&c=d', '\ufeffx', '\x80\xff']
HEAD = ['text/html; q=0.5, text/plain', '*/*', '', 'text/*;q=0, text/\u00e4', 'x', 'application/xrds+xml;q=0.3']
PAIRS = [('HMAC-SHA1', 'DH-SHA1'), ('HMAC-SHA1', 'no-encryption'), ('HMAC-SHA256', 'DH-SHA256'), ('HMAC-SHA256', 'DH-SHA1'), ('HMAC-SHA1', '\u00e4'), ('', 'DH-SHA1')]
NONCES = ['2017-07-14T02:40:00Zsalt', '2017-07-14T02:40:00Z\u00e4', '2017-07-14T02:40:00Z', '2017-07-14T09:40:00Zx', 'x', '', '2017-07-14T02:40:00+00salt']
FIELDS = ['email', 'nickname', 'bogus', '', '\u00e4']
T_ = T


def cross(*domains):
    return itertools.product(*domains)


def texts(xs):
    return [T(x) for x in xs]


def maybe(xs):
    return [None] + texts(xs)


def operations(q):
    words, urls = WORDS + ([] if q else MORE), URLS + ([] if q else ['http://rp.example/' + w for w in MORE] + ['//\u00e4', 'xri://@a*\u00e4', 'https://[::1]:8080/x;y'])
    W, U = texts(words), texts(urls)
    kv = [[(T(a), T(b))] for a in words for b in words] + [[(T(a), T(b)), (T(c), T('z'))] for a in WORDS[:3] for b in WORDS[:4] for c in ('a', 'd\u00e4')]
    yield 'appendArgs', oidutil.appendArgs, cross(U, kv + [[]])
    yield 'appendArgs with a dictionary', lambda u, a: oidutil.appendArgs(u, dict(a)), cross(U, [[(T(a), T(b)), (T('q'), T('r'))] for a in WORDS[:4] for b in WORDS])
    yield 'fromBase64', oidutil.fromBase64, cross(texts(['', 'YQ==', 'YWJj', '/+8=', 'YQ', '\u00e4', 'Y Q = =', '####']))
    yield 'log', logged, cross(W)
    yield 'urinorm', urinorm.urinorm, cross(U)
    yield 'iriToURI', xri.iriToURI, cross(U)
    yield 'seqToKV', kvform.seqToKV, cross(kv, [False, True])
    yield 'kvToSeq', kvform.kvToSeq, cross(texts(['a:b\n', 'a:b\nc:\u00e4\n', 'a\n', ':', '', 'a : b\n\n', '\u00e4:\U0001d11e\n']), [False, True])
    yield 'kvToDict', kvform.kvToDict, cross(texts(['a:b\n', 'a:b\nc:\u00e4\n', 'a\n', ':', '', 'a:1\na:2\n']))
    yield 'Association', Association, cross(W, [b'k' * 20], [T0], [100], texts(['HMAC-SHA1', 'HMAC-SHA256', 'x', '\u00e4']))
    yield 'Association.fromExpiresIn', Association.fromExpiresIn, cross([100], W, [b'k' * 20], texts(['HMAC-SHA1', 'HMAC-SHA256', 'x']))
    ser = Association('h\u00e4', b'\x00\xff' * 10, T0, 100, 'HMAC-SHA1').serialize()
    ser = ser.decode('utf-8') if isinstance(ser, bytes) else ser
    yield 'Association.deserialize', Association.deserialize, cross(texts([ser, ser[:-3], 'x:y\n', '']))
    for t in ('HMAC-SHA1', 'HMAC-SHA256'):
        yield 'Association.sign ' + t, Association('h', b'k' * (20 if t[-1] == '1' else 32), T0, 100, t).sign, cross([tuple(x) for x in kv])
    prefs = [[(T(a), T(b)) for a, b in p] for n in (0, 1, 2) for p in itertools.product(PAIRS, repeat=n)]
    yield 'SessionNegotiator', negotiator, cross(prefs)
    yield 'setAssociationPreference', preferences, cross(prefs)
    yield 'Message.fromOpenIDArgs', Message.fromOpenIDArgs, cross([{'ns': T(world.NS2), 'mode': T(a), 'ns.x': T('urn:x'), 'x.k': T(b)} for a in WORDS for b in WORDS])
    yield 'Message.fromPostArgs', Message.fromPostArgs, cross([{'openid.ns': T(n), 'openid.mode': T(a), 'openid.sreg.x': T('v')} for a in WORDS for n in (world.NS2, world.NS1, world.NS11)])
    yield 'Message.getArg', arguments, cross(texts([world.NS2, 'urn:x:\u00e4', 'urn:nothing']), texts(['mode', 'k\u00e4y', 'bare', '']), [None, 'd', message.no_default])
    yield 'Message.getArg of a symbolic namespace', arguments, cross([message.OPENID_NS, message.BARE_NS, message.NULL_NAMESPACE], texts(['mode', 'bare', '']), [None, 'd', message.no_default])
    yield 'Message.toFormMarkup', form, cross(texts([u for u in URLS]))
    yield 'nonce.split', nonce.split, cross(texts(NONCES))
    yield 'nonce.checkTimestamp', nonce.checkTimestamp, cross(texts(NONCES))
    for kind in ('file', 'sqlite', 'mysql', 'postgresql'):
        yield 'store ' + kind, store_ops, cross([kind], texts(URLS[:6]), texts(URLS[:6]), texts(['h\u00e4/1', 'h', '']))
    yield 'FileOpenIDStore', file_store, cross([0], texts(['store', './st\u00f6re', 'a/b', 'x/../y']))
    for kind in ('sqlite', 'mysql', 'postgresql'):
        yield 'table names ' + kind, table_names, cross([kind], maybe(['a1', 'assoc\u00e4']), maybe(['n1', 'nonc\u00e4s']))
    yield 'TrustRoot', realm, cross(U, U)
    yield 'parseAcceptHeader', accept.parseAcceptHeader, cross(texts(HEAD))
    yield 'getAcceptable', accept.getAcceptable, cross(texts(HEAD), [[T(a), T(b)] for a in TYPES[:4] for b in TYPES[:4]])
    yield 'generateAcceptHeader', accept.generateAcceptHeader, [(T(a), (T(b), x)) for a in TYPES for b in TYPES for x in (0.3, 1.0)]
    yield 'accept.matchTypes', accept.matchTypes, cross([[(T(a), T(b), 0.5), (T('*'), T('*'), 0.1)] for a in ('text', '*', '') for b in ('html', '*', '\u00e4')], [[T(a), T(b)] for a in TYPES[:4] for b in ('text/plain', 'x/y')])
    yield 'queryURL', xrires.ProxyResolver('http://xri.example/').queryURL, cross(['=a', 'xri://@b*c/d?e'], maybe(URLS))
    yield 'ProxyResolver.query', resolver, cross(['=a'], [[T(a), T(b)] for a in URLS[:3] for b in ('urn:x', '')])
    yield 'matchTypes', matched, cross([[T(a), T(b)] for a in (world.T_SIGNON, 'urn:\u00e4', 'x') for b in (world.T_11, world.T_SIGNON, '')])
    yield 'findOPLocalIdentifier', local_id, cross([[T(a), T(b)] for a in (world.T_SIGNON, world.T_11, 'x') for b in (world.T_11, world.T_SIGNON, '')])
    yield 'discoverYadis', yadis, cross(texts(['http://user.example/', 'http://nobody.example/', 'http://user.example/\u00e4', 'x']))
    yield 'SRegRequest.parseExtensionArgs', sreg_args, cross([{'required': T(a), 'optional': T(b), 'policy_url': T(c)} for a in ('email', 'email,bogus', '', '\u00e4') for b in ('nickname', 'email', '') for c in ('', 'http://p/\u00e4')], [False, True])
    yield 'SRegRequest.requestFields', sreg_fields, cross(texts(FIELDS), [[T(a), T(b)] for a in FIELDS for b in FIELDS], [False, True], [False, True])
    yield 'FetchResponse.getSingle', single, cross(texts(['urn:\u00e4', 'urn:two', 'urn:none', 'urn:x', '']), [None, 'd'])
    yield 'ax.toTypeURIs', aliases, cross(maybe(['a', 'a,b', 'b,a', 'x', '', '\u00e4']))
    yield 'FetchResponse', update, cross(maybe(URLS))
    for v in (2, 1):
        yield 'addExtensionArg %d' % v, ext_arg, cross([v], texts(['urn:x', 'urn:\u00e4', sreg.ns_uri_1_1]), W, W)
        for how in ('getMessage', 'redirectURL', 'formMarkup', 'htmlMarkup'):
            yield '%s %d' % (how, v), said, cross([v], [how], U, maybe(URLS), [False, True])
    yield 'createAssociateRequest', associate_request, cross(texts(['HMAC-SHA1', 'HMAC-SHA256', '\u00e4']), texts(['DH-SHA1', 'DH-SHA256', 'no-encryption', 'x']))
    for v in (2, 1):
        for mode in ('checkid_setup', 'checkid_immediate'):
            for ident in ('http://user.example/', world.IDSEL):
                yield 'answer %d %s %s' % (v, mode, ident), answered, cross([v], [mode], [ident], [False, True], maybe(['http://op.example/2', 'http://op.example/\u00e4']),
                                                                         maybe(['http://user.example/', 'http://\u00e4.example/', '']), maybe(['http://user.example/', 'http://other.example/\u00e4', '']))
        yield 'encodeToURL %d' % v, lambda v, u: decoded('checkid_setup', version=v).encodeToURL(u), cross([v], U)
    yield 'CheckIDRequest.fromMessage', from_message, cross(maybe(URLS))
    yield 'Server', server_at, cross(texts([u for u in URLS if u]))
    yield 'CheckAuthRequest', check_auth, cross(texts(['known', 'other', '\u00e4']), maybe(['known', 'other', '', '\u00e4']))
    yield 'Signatory', signatory, cross([False, True], ['verify', 'get', 'invalidate'], texts(['known', 'other', '\u00e4', '']))
    yield 'createAssociation', created, cross([False, True], texts(['HMAC-SHA1', 'HMAC-SHA256', 'x']))
    yield 'ProtocolError', protocol_error, cross(maybe(WORDS))


def outcome(f, args):
    env.reset()
    try:
        return ('result', repr(show(f(*args))))
    except Exception as e:
        return ('error', type(e).__name__)


def one(case, st):
    name, f, pattern = case
    n = holes(pattern)
    want = outcome(f, fill(pattern, iter([False] * n)))
    st.outcome('%s on text' % want[0])
    for bits in itertools.product((False, True), repeat=n):
        got = outcome(f, fill(pattern, iter(bits)))
        st.executions += 1
        st.transitions += 1
        if got != want:
            st.violation('%s:%r:%s' % (name, pattern, ''.join('TB'[b] for b in bits)),
                         ('%s%r with %s as byte strings: %s %s, on text: %s %s' % ((name, pattern, [i for i, b in enumerate(bits) if b]) + got + want))[:900], None)
    st.state((name, repr(pattern)))
    st.sample('%s%r' % (name, pattern))


def check(ctx):
    ops = list(operations(ctx.quick))

    def cases():
        for name, f, dom in operations(ctx.quick):
            for pattern in dom:
                yield (name, f, pattern)
    ctx.bounds = {'operations': len(ops), 'byte string subsets': 'all', 'values': '%d addresses, %d words and the alphabets of each operation' % (len(URLS), len(WORDS))}
    ctx.run(cases, one, key=lambda c: '%s:%r' % (c[0], c[2]))
