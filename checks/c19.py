"""C19: a relying party gets one of the documented outcomes for every query, every pending login and every remote behaviour."""
import itertools, base64, socket
from lib import env, world, rp
from lib.env import CLOCK, T0
from lib.world import NS1, NS11, NS2, IDSEL
from lib.rp import World, USER, OTHER, OP, LOCAL, REPLIES, RETURN, REALM, judge
from openid.consumer.consumer import Consumer, SUCCESS, FAILURE, CANCEL, SETUP_NEEDED, AuthRequest
from openid.consumer.discover import DiscoveryFailure
from openid.fetchers import HTTPResponse, HTTPFetchingError
from openid.store.memstore import MemoryStore
from openid.yadis.discover import DiscoveryFailure as YadisFailure

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of bounded hostile queries (all pairs of field deviations on honest assertions, all combinations of mode and '
             'namespace declarations), pending logins and fault sequences of the remote servers at every fetch, on the real relying party against an outcome model')
NOTE = 'the outcome model is derived from the protocol; every enumerated input and fault sequence is executed on the real code'
RULE = 'one execution = complete() of one query, or begin() under one fault sequence; compared: outcome class, identifier, setup URL, error text; anything raised is a violation'
ASSUMPTIONS = ['query keys and values are text without lone surrogates', 'the store itself does not fail']
VALS = [None, '', 'x', ' ', 'http://[::1', 'Ä☃', 'a\nb', NS2, 'http://user.example/', 'x' * 5000, 'id_res', '-1', 'a,b,,c', 'http://h:p/']
FIELDS = ['mode', 'ns', 'identity', 'claimed_id', 'op_endpoint', 'return_to', 'response_nonce', 'assoc_handle', 'signed', 'sig',
          'invalidate_handle', 'user_setup_url', 'ns.sreg', 'sreg.nickname', 'sreg', 'ns.mode', 'ns.a.b', 'ns.', '']
BARE = ['janrain_nonce', 'openid1_claimed_id', 'a', '', 'openid', 'extra']
_W = {}


def the_world(version, mode, session, delegate=False):
    k = (version, mode, session, delegate)
    if k not in _W:
        if len(_W) > 12:
            _W.clear()
        _W[k] = World(version=version, mode=mode, session=session, delegate=delegate)
    w = _W[k]
    w.fresh()
    return w


class Bad(Exception):
    pass


def same(what, got, want):
    if got != want:
        raise Bad('%s: %r, expected %r' % (what, got, want))


def ns_ok(q):
    """May the namespace declarations of the query be read at all?  None: not decided here."""
    ns = q.get('openid.ns')
    if ns not in (None, NS1, NS11, NS2):
        return False
    decl = {}
    for k, x in q.items():
        if k.startswith('openid.ns.'):
            decl[k[10:]] = x
    if not decl:
        return True
    if all(a.isalnum() and a not in ('mode', 'ns') for a in decl) and len(set(decl.values())) == len(decl) and (ns or NS1) not in decl.values() \
            and not set(decl.values()) & {NS1, NS11, NS2}:
        return True
    return None


def expect(w, q, r, cur=None):
    """Check the outcome r of completing q in world w."""
    if r.status not in (SUCCESS, FAILURE, CANCEL, SETUP_NEEDED):
        raise Bad('status %r' % (r.status,))
    ident = USER if w.has_session else None
    mode = q.get('openid.mode')
    v2 = q.get('openid.ns') == NS2
    readable = ns_ok(q)
    if readable is False:
        allowed = {FAILURE}
    elif mode == 'cancel':
        allowed = {CANCEL}
    elif mode == 'setup_needed' and v2:
        allowed = {SETUP_NEEDED}
    elif mode == 'id_res' and not v2 and 'openid.user_setup_url' in q:
        allowed = {SETUP_NEEDED}
    elif mode == 'id_res':
        allowed = {SUCCESS, FAILURE}
    else:
        allowed = {FAILURE}
    if readable is None:
        allowed.add(FAILURE)
    if r.status not in allowed:
        raise Bad('outcome %s, allowed %s' % (r.status, sorted(allowed)))
    if r.status == SETUP_NEEDED:
        same('setup url', r.setup_url, q.get('openid.user_setup_url'))
    if r.status == FAILURE and mode == 'error' and readable:
        same('error details', (r.message, r.contact, r.reference), (q.get('openid.error'), q.get('openid.contact'), q.get('openid.reference')))
    if r.status == SUCCESS:
        if r.identity_url is None and 'openid.identity' in q:
            raise Bad('success without identifier')
    elif r.identity_url != ident:
        raise Bad('outcome %s for %r, pending login is for %r' % (r.status, r.identity_url, ident))
    r.getDisplayIdentifier()
    return r.status


def pairs(case, st):
    """The honest assertion with one or two fields replaced, signed before or after."""
    _, version, mode, session, resign, devs = case
    for dev2 in devs[1]:
        w = the_world(version, mode, session)
        q = w.fields()
        bare = w.bare()
        k = w.private[w.handle]
        signed = w.signed()
        if not resign:
            q = world.sign(q, signed, *k)
        sig_dev = None
        for name, val in [devs[0]] + ([dev2] if dev2 else []):
            if name.startswith('bare:'):
                d, key = bare, name[5:]
            else:
                d, key = q, 'openid.' + name
            if name in ('sig', 'signed') and resign:
                sig_dev = (sig_dev or []) + [(key, val)]
            elif val is None:
                d.pop(key, None)
            else:
                d[key] = val
        if resign:
            try:
                q = world.sign(q, signed, *k)
            except UnicodeEncodeError:
                continue
            for key, val in sig_dev or []:
                if val is None:
                    q.pop(key, None)
                else:
                    q[key] = val
        q.update(bare)
        st.executions += 1
        st.transitions += 1
        st.state((case[:5], devs[0], dev2))
        v = judge(w, q, w.return_to)
        try:
            r = w.complete(q, w.return_to)
            s = expect(w, q, r)
            if s == SUCCESS and v.ok is False:
                raise Bad('success although: %s' % v.why)
        except Bad as e:
            st.violation(repr((case[:5], devs[0], dev2))[:300], str(e)[:600], repr(q)[:1500])
            continue
        except Exception as e:
            st.violation(repr((case[:5], devs[0], dev2))[:300], 'complete raised %s: %s' % (type(e).__name__, str(e)[:300]), repr(q)[:1500])
            continue
        st.outcome(s)


MODES = [None, '', 'id_res', 'cancel', 'error', 'setup_needed', 'Cancel', 'cancel ', 'invalid', 'id_res\n', 'checkid_setup', '<No mode set>', 'ÄÄ']
DECL = {'none': {}, 'sreg': {'openid.ns.sreg': world.SREG, 'openid.sreg.email': 'e'}, 'dup': {'openid.ns.a': 'urn:x', 'openid.ns.b': 'urn:x'},
        'mode': {'openid.ns.mode': 'urn:x'}, 'dot': {'openid.ns.a.b': 'urn:x'}, 'self': {'openid.ns.o': NS2}, 'self1': {'openid.ns.o': NS1}, 'empty': {'openid.ns.': 'urn:x'},
        'odd': {'openid.': 'x', 'openid': 'y', '': 'z', 'openid..': 'q'}}


def modes(case, st):
    """Queries that are not assertions: mode x namespace x details x declarations x pending login x current URL."""
    _, session, mode, ns, extra, decl, cur = case
    w = the_world(2 if session != 'v1' else 1, 'assoc', session != 'none')
    q = dict(DECL[decl])
    if mode is not None:
        q['openid.mode'] = mode
    if ns is not None:
        q['openid.ns'] = ns
    for k, x in extra:
        q['openid.' + k] = x
    st.executions += 1
    st.transitions += 1
    st.state(case)
    r = w.complete(q, cur)
    st.outcome('mode:' + expect(w, q, r))
    # the pending login is over
    r2 = Consumer(w.session, w.store).complete({'openid.mode': 'cancel'}, cur)
    if r2.identity_url is not None:
        raise Bad('the pending login survived its completion')


def hostile_op(case, st):
    """Any answer to the signature check, and any answer to the discovery the completion makes."""
    _, version, target, what = case
    w = the_world(version, 'stateless', target == 'check')
    q = world.sign(w.fields(), w.signed(), *w.private[w.handle])
    q.update(w.bare())
    url = OP if target == 'check' else USER
    old = w.net.routes[url]
    w.net.routes[url] = ANSWERS[what](url)
    st.executions += 1
    st.transitions += 1
    st.state(case)
    try:
        r = w.complete(q, w.return_to)
    finally:
        w.net.routes[url] = old
    s = expect(w, q, r)
    if s == SUCCESS and not (target == 'check' and what.startswith('true')):
        raise Bad('success although the answer was %s' % what)
    if target == 'check' and what.startswith('true'):
        same('completion', s, SUCCESS)
    st.outcome('hostile:' + s)


def http(status, body, ctype='text/plain', final=None, headers=None):
    return lambda url: HTTPResponse(final or url, status, dict({'content-type': ctype} if ctype is not None else {}, **(headers or {})), body)


def exc(e):
    return lambda url: e


class Weird(Exception):
    pass


ANSWERS = {
    'true': http(200, b'is_valid:true\n'), 'true2': http(200, b'ns:' + NS2.encode() + b'\nis_valid:true\n'), 'true206': http(206, b'is_valid:true\n'),
    'empty': http(200, b''), 'junk': http(200, b'\x00\xff\xfe'), 'nocolon': http(200, b'is_valid\n'), 'colons': http(200, b':::\n:\n'),
    'badns': http(200, b'ns:http://bad.example/\nis_valid:true\n'), 'dupns': http(200, b'ns.a:urn:x\nns.b:urn:x\nis_valid:true\n'),
    'fieldns': http(200, b'ns.mode:urn:x\nis_valid:true\n'), 'dotns': http(200, b'ns.a.b:urn:x\nis_valid:true\n'), 'html': http(200, b'<html><head><link rel="openid.server" href="http://[::1"></head>', 'text/html'),
    'xrds-broken': http(200, b'<XRDS', 'application/xrds+xml'), 'xrds-empty': http(200, world.xrds(), 'application/xrds+xml'),
    'xrds-weird': http(200, world.xrds(world.service([], []), world.service([world.T_SIGNON], ['http://[::1', '', 'Ä']), world.service(['', world.T_11], ['x'], priority='-')), 'application/xrds+xml'),
    'loc-self': http(200, b'x', 'text/plain', headers={'x-xrds-location': USER}), 'loc-bad': http(200, b'x', 'text/plain', headers={'x-xrds-location': 'http://[::1'}),
    'noctype': http(200, b'is_valid:truth', None), 'truenoct': http(200, b'is_valid:true', None), 'ctype': http(200, b'x', ';;;=Ä'), 'charset': http(200, b'<html>\xff', 'text/html; charset=nope'),
    's0': http(0, b''), 's204': http(204, b''), 's302': http(302, b'is_valid:true\n'), 's400': http(400, b'error:x\n'), 's400junk': http(400, b'\xff'), 's400ns': http(400, b'ns.a:u\nns.b:u\n'),
    's404': http(404, b''), 's500': http(500, b'\xff\x00'), 's999': http(999, b'is_valid:true\n'), 'snone': http(None, b'is_valid:true\n'),
    'fetch': exc(HTTPFetchingError('x')), 'value': exc(ValueError('x')), 'key': exc(KeyError('x')), 'os': exc(OSError('x')), 'timeout': exc(socket.timeout()),
    'weird': exc(Weird()), 'assert': exc(AssertionError()), 'unicode': exc(UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'x')), 'runtime': exc(RuntimeError('x')),
    'huge': http(200, b'a:' + b'b' * 200000 + b'\n'),
    'finalodd': http(200, b'x', 'text/plain', final='javascript:x'), 'finalbad': http(200, b'x', 'text/html', final='http://[::1'),
}
P = 'DH-SHA1'
GOODPUB = base64.b64encode(b'\x05' * 40).decode().encode()
ASSOC = {
    'plain': b'assoc_type:%A\nassoc_handle:h\nexpires_in:100\nsession_type:no-encryption\nmac_key:AAAAAAAAAAAAAAAAAAAAAAAAAAA=\n',
    'short': b'assoc_type:%A\nassoc_handle:h\nexpires_in:100\nsession_type:%S\nmac_key:AA==\nenc_mac_key:AA==\ndh_server_public:' + GOODPUB + b'\n',
    'nopub': b'assoc_type:%A\nassoc_handle:h\nexpires_in:100\nsession_type:%S\nenc_mac_key:%K\n',
    'nokey': b'assoc_type:%A\nassoc_handle:h\nexpires_in:100\nsession_type:%S\ndh_server_public:' + GOODPUB + b'\n',
    'zeropub': b'assoc_type:%A\nassoc_handle:h\nexpires_in:100\nsession_type:%S\nenc_mac_key:%K\ndh_server_public:AA==\n',
    'junkpub': b'assoc_type:%A\nassoc_handle:h\nexpires_in:100\nsession_type:%S\nenc_mac_key:%K\ndh_server_public:!!!\n',
    'nonascii': 'assoc_type:%A\nassoc_handle:h\nexpires_in:100\nsession_type:%S\nenc_mac_key:Ä\ndh_server_public:Ä\n'.encode('utf-8'),
    'negpub': b'assoc_type:%A\nassoc_handle:h\nexpires_in:100\nsession_type:%S\nenc_mac_key:%K\ndh_server_public:/wE=\n',
    'good': b'assoc_type:%A\nassoc_handle:h\nexpires_in:100\nsession_type:%S\nenc_mac_key:%K\ndh_server_public:' + GOODPUB + b'\n',
    'exp-junk': b'assoc_type:%A\nassoc_handle:h\nexpires_in:soon\nsession_type:%S\nenc_mac_key:%K\ndh_server_public:' + GOODPUB + b'\n',
    'exp-neg': b'assoc_type:%A\nassoc_handle:h\nexpires_in:-5\nsession_type:%S\nenc_mac_key:%K\ndh_server_public:' + GOODPUB + b'\n',
    'exp-none': b'assoc_type:%A\nassoc_handle:h\nsession_type:%S\nenc_mac_key:%K\ndh_server_public:' + GOODPUB + b'\n',
    'handle-odd': 'assoc_type:%A\nassoc_handle:Ä \x01\nexpires_in:100\nsession_type:%S\nenc_mac_key:%K\ndh_server_public:'.encode('utf-8') + GOODPUB + b'\n',
    'handle-empty': b'assoc_type:%A\nassoc_handle:\nexpires_in:100\nsession_type:%S\nenc_mac_key:%K\ndh_server_public:' + GOODPUB + b'\n',
    'type': b'assoc_type:HMAC-MD5\nassoc_handle:h\nexpires_in:100\nsession_type:%S\nenc_mac_key:%K\ndh_server_public:' + GOODPUB + b'\n',
    'types-none': b'assoc_handle:h\nexpires_in:100\nmac_key:AAAAAAAAAAAAAAAAAAAAAAAAAAA=\n',
    'session': b'assoc_type:%A\nassoc_handle:h\nexpires_in:100\nsession_type:DH-MD5\nenc_mac_key:%K\n',
}
for _n, _b in (('unsup', b'error_code:unsupported-type\nerror:x\n'), ('unsup-good', b'error_code:unsupported-type\nerror:x\nassoc_type:HMAC-SHA1\nsession_type:no-encryption\n'),
               ('unsup-junk', b'error_code:unsupported-type\nassoc_type:X\nsession_type:Y\n'), ('unsup-half', b'error_code:unsupported-type\nassoc_type:HMAC-SHA1\n'),
               ('unsup-mix', b'error_code:unsupported-type\nassoc_type:HMAC-SHA256\nsession_type:DH-SHA1\n'), ('err', b'error:x\n')):
    ASSOC['400:' + _n] = _b
    ASSOC['400ns:' + _n] = b'ns:' + NS2.encode() + b'\n' + _b


class Script(object):
    """Answers the associate requests of one begin() from a list."""

    def __init__(self, answers):
        self.answers, self.n = answers, 0

    def __call__(self, url, body, headers):
        a = self.answers[min(self.n, len(self.answers) - 1)]
        self.n += 1
        if a in ANSWERS:
            return ANSWERS[a](url)
        q = world.parse_body(body)
        at = q.get('openid.assoc_type', 'HMAC-SHA1')
        key = base64.b64encode(b'k' * (32 if at.endswith('256') else 20))
        b = ASSOC[a].replace(b'%A', at.encode()).replace(b'%S', q.get('openid.session_type', '').encode()).replace(b'%K', key)
        return HTTPResponse(url, 400 if a.startswith('400') else 200, {}, b)


def begin_assoc(case, st):
    """Whatever the provider says to the associate requests, begin gives a request that can be sent."""
    _, version, answers = case
    env.reset()
    net = world.Net().install()
    types = {2: [world.T_SIGNON], 1: [world.T_11]}[version]
    net.page(USER, world.xrds(world.service(types, [OP])), ctype=world.XRDS_CT)
    s = net.routes[OP] = Script(answers)
    session, store = {}, MemoryStore()
    st.executions += 1
    st.transitions += 1 + len(answers)
    st.state(case)
    req = Consumer(session, store).begin(USER)
    same('request', isinstance(req, AuthRequest), True)
    url = req.redirectURL(REALM, RETURN)
    h = world.query_of(url).get('openid.assoc_handle')
    a = store.getAssociation(OP)
    if 'exp-neg' not in answers:  # an association that is over on arrival may be named or not
        same('handle sent', h, a.handle if a is not None else None)
    if s.n > 3:
        raise Bad('%d association requests in one begin' % s.n)
    st.outcome('begin:%s:%d' % ('assoc' if h else 'stateless', s.n))


IDENTS = [USER, 'user.example', 'http://user.example', '', ' ', 'http://', 'http:///x', 'xri://=user', '=user', '@a*b', '$', '(x)', 'http://[::1', 'http://[::1]/', 'user.example:port',
          'http://user.example:99999/', 'ftp://user.example/', 'javascript:alert(1)', 'mailto:u@x', 'Ä.example', 'http://user.example/ä b?c#d', 'a\nb', 'http://a b/', 'x' * 3000,
          'http://%zz/', 'http://user.example/%zz', 'HTTP://USER.EXAMPLE/', 'http://u:p@user.example/', 'http://user.example/#', '\x00', 'http://.', 'http://..', '.', '/', '?', '#', '\udcff'.encode('utf-8', 'replace').decode()]


def begin_disc(case, st):
    """Whatever the web says during discovery, begin returns a request or raises the documented failure."""
    _, ident, answers = case
    env.reset()
    net = world.Net().install()
    log = []

    def default(url, body, headers):
        if url == OP:
            return HTTPFetchingError('no association')
        a = answers[min(len(log), len(answers) - 1)]
        log.append(url)
        if a == 'xrds':
            return HTTPResponse(url, 200, {'content-type': 'application/xrds+xml'}, world.xrds(world.service([world.T_SIGNON], [OP])))
        if a == 'loc':
            return HTTPResponse(url, 200, {'content-type': 'text/html', 'x-xrds-location': 'http://loc.example/'}, b'<html>')
        if a == 'html2':
            return HTTPResponse(url, 200, {'content-type': 'text/html'}, b'<html><head><link rel="openid2.provider" href="%s"></head>' % OP.encode())
        return ANSWERS[a](url)
    net.default = default
    st.executions += 1
    st.transitions += 1 + len(answers)
    st.state(case)
    session = {}
    try:
        req = Consumer(session, None).begin(ident)
    except DiscoveryFailure:
        st.outcome('disc:failure')
        same('fetches', len(log) <= 6, True)
        return
    same('request', isinstance(req, AuthRequest), True)
    if not any(a in ('xrds', 'html2', 'html', 'xrds-weird') for a in answers):
        raise Bad('a request although no service was published')
    st.outcome('disc:request')


FN = dict(pairs=pairs, modes=modes, hostile=hostile_op, bassoc=begin_assoc, bdisc=begin_disc)


def one(case, st):
    st.sample(repr(case)[:300])
    try:
        FN[case[0]](case, st)
    except Bad as e:
        st.violation(repr(case)[:300], str(e)[:600], repr(case)[:1500])


def check(ctx):
    q = ctx.quick
    devs = [(f, v) for f in FIELDS for v in VALS if not (f in ('ns.sreg', 'sreg', 'ns.mode', 'ns.a.b', 'ns.', '', 'sreg.nickname') and v in ('-1', 'id_res', 'a,b,,c'))]
    devs += [('bare:' + f, v) for f in BARE for v in VALS[:8]]
    few = (None, '', 'x', 'http://[::1', 'Ä☃', 'a\nb')

    def cases():
        for version in (2, 1, 11):
            for mode in ('assoc', 'stateless', 'lost'):
                for session in (True, False):
                    for resign in (True, False):
                        deep = session and version != 11 and mode != 'lost' if q else True
                        for i, d in enumerate(devs):
                            rest = [None]
                            if deep:
                                rest += [e for e in devs[i + 1:] if e[0] != d[0] and (not q or (e[1] in few and d[1] in few and resign))]
                            yield ('pairs', version, mode, session, resign, (d, rest))
        extras = [(), (('user_setup_url', 'http://op.example/setup?a=b'),), (('user_setup_url', ''),), (('error', 'e'), ('contact', 'c'), ('reference', 'r')), (('error', 'Ä\n'),),
                  (('return_to', 'http://[::1'),), (('identity', USER), ('return_to', RETURN))]
        for session in ('v2', 'v1', 'none'):
            for m in MODES:
                for ns in (None, NS1, NS11, NS2, 'http://bad/', '', 'Ä'):
                    for ex in extras:
                        for d in DECL:
                            for cur in (RETURN, '', 'http://[::1', 'Ä'):
                                if q and cur != RETURN and d not in ('none', 'odd'):
                                    continue
                                yield ('modes', session, m, ns, ex, d, cur)
        for version in (2, 1, 11):
            for t in ('check', 'discovery'):
                for a in ANSWERS:
                    if version != 2 and a.startswith('true2'):
                        continue
                    yield ('hostile', version, t, a)
        names = list(ASSOC) + list(ANSWERS)
        for version in (2, 1):
            for a in names:
                yield ('bassoc', version, (a,))
                if a.startswith('400') or a in ASSOC:
                    for b in names:
                        yield ('bassoc', version, (a, b))
                        if not q and b.startswith('400'):
                            for c in names:
                                yield ('bassoc', version, (a, b, c))
        web = ['xrds', 'loc', 'html2'] + [a for a in ANSWERS if not a.startswith('true')]
        for i in IDENTS:
            for a in web:
                yield ('bdisc', i, (a,))
        for i in (USER, '=user', 'http://user.example/ä b?c#d'):
            for a in web:
                for b in web:
                    yield ('bdisc', i, (a, b))
                    if not q:
                        for c in web:
                            yield ('bdisc', i, (a, b, c))

    ctx.bounds = {'deviations': len(devs), 'deviations per assertion': 2, 'modes': len(MODES), 'declarations': len(DECL), 'remote answers': len(ANSWERS) + len(ASSOC),
                  'faulty fetches in sequence': 2 if q else 3, 'identifiers': len(IDENTS)}
    ctx.run(cases, one)
