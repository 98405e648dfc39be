"""C20: the provider's front door: every query is decoded, refused or ignored as the protocol says, and every answer encoded in the right form."""
import itertools, base64
from lib import sizes as sz, env, world, op
from lib.env import CLOCK, T0
from lib.world import NS2, NS1, NS11
from lib.op import Recorder, parse_kv, delivered, text
from openid.server.server import Server, ProtocolError, EncodingError, NoReturnToError, CheckIDRequest, CheckAuthRequest, AssociateRequest
from openid.store.memstore import MemoryStore
from openid.extensions import sreg
from six.moves.urllib.parse import parse_qsl, urlsplit, urlencode

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of the bounded product of provider queries (mode, namespace, return URL, realm, identifiers, namespace '
             'declarations, association parameters) and of answer sizes, on the real decoder, handler and encoder, against a model of the protocol')
NOTE = 'the model predicts request, refusal and the form of the answer; every query is executed on the real provider'
RULE = 'one execution = one query through decodeRequest, handleRequest/answer and encodeResponse; compared: kind of result, HTTP code, every field'
ASSUMPTIONS = ['query values are text without lone surrogates']
OPURL = 'http://op.example/server'
LIMIT = 2047
RT = 'http://rp.example/return'
DIRECT = ('associate', 'check_authentication')
BROWSER = ('checkid_setup', 'checkid_immediate')

# return URL -> (well-formed, within http://rp.example/)
RETURNS = {
    None: None,
    '': (False, False),
    RT: (True, True),
    RT + '?a=1&b=&a=2': (True, True),
    RT + '?openid.x=y&c=%26': (True, True),
    'https://rp.example:8443/x': (True, False),
    'http://other.example/return?q': (True, False),
    RT + '?' + 'l' * LIMIT: (True, True),
    'javascript:alert(1)': (False, False),
    '/relative?x=1': (False, False),
    'ftp://rp.example/return': (False, False),
    'http://': (False, False),
    'http://[::1': (False, False),
    'rp.example': (False, False),
    ' ': (False, False),
    'http://rp.example:port/': (False, False),
}
REALMS = {None: None, '': None, 'http://rp.example/': True, 'http://*.example/': True, 'http://rp.example/return/deeper': False,
          'not a realm': 'bad', 'javascript:alert(1)': 'bad', 'http://[::1': 'bad'}


def covered(realm, rt):
    """Is the well-formed return URL within the well-formed realm?  (Only for the URLs above; C12 decides the general question.)"""
    if realm == 'http://rp.example/':
        return rt.startswith(RT)
    if realm == 'http://*.example/':
        return rt.startswith('http://')
    return False


EXTRAS = {
    'none': {},
    'sreg': {'openid.ns.sreg': 'http://openid.net/extensions/sreg/1.1', 'openid.sreg.required': 'email'},
    'bare': {'foo': 'bar', 'a.b': 'c', 'openid': 'x', 'openidx': 'y', '': ''},
    'odd': {'openid.': 'x', 'openid.x.y': 'z', 'openid.ns.': 'urn:e', 'openid.foo': 'b\nc'},
    'dup': {'openid.ns.a': 'urn:x', 'openid.ns.b': 'urn:x'},
    'field': {'openid.ns.mode': 'urn:x'},
    'dotted': {'openid.ns.a.b': 'urn:x'},
    'self': {'openid.ns.o': NS2},
}
BADNS = ('dup', 'field', 'dotted')


def make():
    env.reset()
    return Server(Recorder(MemoryStore()), OPURL)


class Bad(Exception):
    pass


def same(what, got, want):
    if got != want:
        raise Bad('%s: %r, expected %r' % (what, got, want))


def version_of(q):
    ns = q.get('openid.ns')
    return {None: 1, NS1: 1, NS11: 1, NS2: 2}.get(ns, 'bad')


def decode(s, q):
    try:
        return s.decodeRequest(dict(q)), None
    except ProtocolError as e:
        return None, e


def fields_to(kind_pairs_target, rt, extra, ns):
    """The delivered pairs must be the return URL's own arguments followed by exactly these fields."""
    kind, pairs, target = kind_pairs_target
    own = parse_qsl(urlsplit(rt).query, keep_blank_values=True)
    if kind == 'redirect':
        same('redirect target', target.split('?')[0], rt.split('?')[0])
    else:
        same('form target', target, rt)
    rest = list(pairs)
    for p in own:
        if p not in rest:
            raise Bad('return URL argument %r lost (%r)' % (p, pairs))
        rest.remove(p)
    d = dict(rest)
    same('repeated fields', len(d), len(rest))
    want = dict(extra)
    if ns == NS2 or (ns and 'openid.ns' in d):        # OpenID 1 answers may leave the namespace implicit
        want['openid.ns'] = ns
    same('names of the fields sent', sorted(d), sorted(want))
    for k, v in want.items():
        if v is not None:
            same(k, d[k], v)


def size_form(kind, pairs, rt):
    own = parse_qsl(urlsplit(rt).query, keep_blank_values=True)
    rest = list(pairs)
    for p in own:
        rest.remove(p)
    return len(rt) + 1 + len(urlencode(rest))


def check_error(s, q, e, v, mode, rt):
    """How a refusal is sent."""
    ns = NS2 if v in (2, 'bad') else q.get('openid.ns')
    try:
        web = s.encodeResponse(e)
    except EncodingError:
        web = None
    good_rt = rt is not None and RETURNS[rt][0]
    if mode in DIRECT or (mode and mode not in BROWSER and rt is None):
        same('refusal of a direct request', web is not None and web.code, 400)
        d = parse_kv(web.body)
        ns = ns if ns == NS2 or 'ns' in d else None
        same('fields', sorted(set(d) - {'contact', 'reference'}), sorted({'mode', 'error'} | ({'ns'} if ns else set())))
        same('mode', (d['mode'], d.get('ns')), ('error', ns))
    elif good_rt:
        if web is None:
            raise Bad('refusal not sent to the return URL')
        dv = delivered(web, rt)
        fields_to(dv, rt, {'openid.mode': 'error', 'openid.error': None}, ns)
        if dv[0] == 'redirect' and ns == NS2:
            same('over-long redirect', len(dv[2]) > LIMIT, False)
        if dv[0] == 'form':
            same('form used although a redirect would do', ns == NS2 and size_form(dv[0], dv[1], rt) > LIMIT, True)
    elif web is None or not (mode and mode not in BROWSER and web.code == 400 and not web.headers):
        if web is not None:
            raise Bad('refusal sent although there is no usable return URL: %s %r' % (web.code, web.headers))
    return 'refused:' + ('none' if web is None else str(web.code))


def checkid(case, st):
    _, mode, ns, rt, realm, ids, extra, handle = case
    s = make()
    q = dict(EXTRAS[extra])
    for k, x in (('mode', mode), ('ns', ns), ('return_to', rt), ('assoc_handle', handle)):
        if x is not None:
            q['openid.' + k] = x
    v = version_of(q)
    if realm is not None:
        q['openid.realm' if v == 2 else 'openid.trust_root'] = realm
    for c in ids:
        q[{'i': 'openid.identity', 'c': 'openid.claimed_id'}[c]] = 'http://user.example/'
    if not q:
        return
    same_as_ns = extra == 'self' and (v in (2, 'bad'))
    ok = v != 'bad' and extra not in BADNS and not same_as_ns and mode in BROWSER
    if ok:
        if v == 1:
            ok = bool(rt) and 'i' in ids
        else:
            ok = ('i' in ids) == ('c' in ids) and not (rt is None and not realm)
        if rt is not None:
            ok = ok and RETURNS[rt][0]
        if ok and REALMS[realm] == 'bad':
            ok = False
        if ok and rt is not None and realm:
            ok = covered(realm, rt)
    req, err = decode(s, q)
    if mode in DIRECT:
        fine = mode == 'associate' and v == 1 and extra not in BADNS       # OpenID 1 has defaults for everything
        same('bare direct request accepted', req is not None, fine)
        if fine:
            d = parse_kv(s.encodeResponse(s.handleRequest(req)).body)
            same('answer', 'mac_key' in d and 'error' not in d, True)
            st.outcome('associate ok')
            return
    else:
        same('accepted', req is not None, bool(ok))
    if err is not None:
        st.outcome(check_error(s, q, err, v, mode, rt))
        return
    same('kind', (isinstance(req, CheckIDRequest), req.immediate, req.mode), (True, mode == 'checkid_immediate', mode))
    same('content', (req.return_to, req.identity, req.claimed_id, req.assoc_handle, req.trust_root),
         (rt, q.get('openid.identity'), q.get('openid.claimed_id'), handle, realm or rt))
    onens = ns if v == 1 else NS2
    for allow in (True, False):
        r2, _ = decode(s, q)
        if rt is None:
            for f in (lambda: r2.answer(allow), lambda: r2.encodeToURL(OPURL)) + ((r2.getCancelURL,) if not r2.immediate else ()):
                try:
                    f()
                    raise Bad('an answer was made although there is no return URL')
                except NoReturnToError:
                    pass
            st.outcome('request without return URL')
            continue
        web = s.encodeResponse(r2.answer(allow))
        dv = delivered(web, rt)
        if allow:
            f = dict.fromkeys(['openid.' + k for k in ('op_endpoint', 'response_nonce', 'return_to', 'assoc_handle', 'signed', 'sig')])
            f.update({'openid.mode': 'id_res', 'openid.return_to': rt, 'openid.op_endpoint': OPURL})
            for k in ('openid.identity', 'openid.claimed_id'):
                if k in q and (v == 2 or k == 'openid.identity'):
                    f[k] = q[k]
            if handle:
                f['openid.invalidate_handle'] = handle
        elif mode == 'checkid_immediate':
            f = {'openid.mode': 'setup_needed' if v == 2 else 'id_res', 'openid.user_setup_url': None}
            if v == 1:          # an OpenID 1 id_res answer is signed, even this one; that is harmless
                f.update((k, None) for k, _ in dv[1] if k in ('openid.assoc_handle', 'openid.signed', 'openid.sig', 'openid.invalidate_handle'))
        else:
            f = {'openid.mode': 'cancel'}
            c = parse_qsl(urlsplit(r2.getCancelURL()).query, keep_blank_values=True)
            fields_to(('redirect', c, r2.getCancelURL()), rt, f, onens)
        fields_to(dv, rt, f, onens)
        if dv[0] == 'redirect' and v == 2:
            same('over-long redirect', len(dv[2]) > LIMIT, False)
        if dv[0] == 'form':
            same('form used although a redirect would do', v == 2 and size_form(dv[0], dv[1], rt) > LIMIT, True)
        same('code', web.code, 302 if dv[0] == 'redirect' else 200)
        if not allow and mode == 'checkid_immediate':
            setup = dict(dv[1])['openid.user_setup_url']
            same('setup url', setup.split('?')[0], OPURL)
            again, _ = decode(s, world.query_of(setup))
            same('request at the setup URL', (again.mode, again.return_to, again.identity, again.claimed_id, again.assoc_handle or None, again.trust_root),
                 ('checkid_setup', rt, req.identity, req.claimed_id, handle or None, realm or rt))
    st.outcome('request')


def b64i(n):
    b = n.to_bytes((n.bit_length() + 8) // 8, 'big')
    return base64.b64encode(b).decode()


MOD = int('DCF93A0B883972EC0E19989AC5A2CE310E1D37717E8D9571BB7623731866E61EF75A2E27898B057F9891C2E27A639C3F29B60814581CD3B2CA3986D2683705577D45C2E7E52DC81C7A171876E5CEA74B1448BFDFAF18828EFD2519F14E45E3826634AF1949E5B535CC829A483B8A76223E5D490A257F05BDFF16F2FB22C583AB', 16)
PUBS = {'good': b64i(pow(2, 12345, MOD)), 'empty': '', 'zero': b64i(0), 'one': b64i(1), 'two': b64i(2), 'p-1': b64i(MOD - 1), 'p': b64i(MOD), 'p+5': b64i(MOD + 5),
        'junk': '!!!', 'notb64': 'abc', 'nonascii': 'Ä', 'negative': base64.b64encode(b'\xff\x01').decode(), 'newline': b64i(pow(2, 12345, MOD)) + '\n', 'absent': None}
MODS = {'absent': None, 'default': b64i(MOD), 'empty': '', 'zero': b64i(0), 'one': b64i(1), 'seven': b64i(7), 'junk': '!', 'nonascii': '☃', 'even': b64i(MOD + 1),
        'negative': base64.b64encode(b'\xff').decode()}
GENS = {'absent': None, 'default': b64i(2), 'five': b64i(5), 'empty': '', 'zero': b64i(0), 'one': b64i(1), 'p-1': b64i(MOD - 1), 'p': b64i(MOD), 'junk': 'A', 'nonascii': 'Ä'}


def associate(case, st):
    _, ns, stype, atype, mod, gen, pub, rt = case
    s = make()
    q = {'openid.mode': 'associate'}
    for k, x in (('ns', ns), ('session_type', stype), ('assoc_type', atype), ('dh_modulus', MODS[mod]), ('dh_gen', GENS[gen]),
                 ('dh_consumer_public', PUBS[pub]), ('return_to', rt)):
        if x is not None:
            q['openid.' + k] = x
    v = version_of(q)
    est = (stype or 'no-encryption') if v == 1 else stype
    eat = ('HMAC-SHA1' if atype is None else atype) if v == 1 else atype
    fits = {'no-encryption': ('HMAC-SHA1', 'HMAC-SHA256'), 'DH-SHA1': ('HMAC-SHA1',), 'DH-SHA256': ('HMAC-SHA256',)}
    ok = eat in fits.get(est, ())
    sure = True
    if ok and est != 'no-encryption':
        if (mod, gen) not in (('absent', 'absent'), ('default', 'default'), ('default', 'five')) or pub not in ('good', 'newline'):
            # mixed presence, missing or undecodable numbers are errors; degenerate numbers may be refused
            sure = (mod == 'absent') != (gen == 'absent') or pub in ('absent',) or mod in ('junk', 'nonascii') or gen in ('nonascii',) or pub in ('notb64', 'nonascii')
            ok = False
    req, err = decode(s, q)
    if err is not None:
        same('refused', ok, False)
        st.outcome('associate ' + check_error(s, q, err, v, 'associate', rt))
        return
    if sure:
        same('accepted', True, ok)
    same('kind', (type(req) is AssociateRequest, req.mode, req.assoc_type), (True, 'associate', eat))
    try:
        resp = s.handleRequest(req)
    except ProtocolError as e:
        same('refused', ok, False)
        st.outcome('associate ' + check_error(s, q, e, v, 'associate', rt))
        return
    web = s.encodeResponse(resp)
    d = parse_kv(web.body)
    if 'error' in d:
        same('refused', ok, False)
        same('code of an error', web.code, 400)
        st.outcome('associate error')
        return
    same('code', web.code, 200)
    ns = ns if ns == NS2 or 'ns' in d else None
    same('ns', d.get('ns'), ns)
    want = {'assoc_handle', 'expires_in', 'assoc_type'} | ({'mac_key'} if est == 'no-encryption' else {'dh_server_public', 'enc_mac_key'}) | ({'ns'} if ns else set())
    if v == 2 or est != 'no-encryption':
        want.add('session_type')
    same('fields', set(d), want)
    st.outcome('associate ok')


def checkauth(case, st):
    _, ns, handle, sig, signed, inv, rt, extra = case
    s = make()
    a = s.signatory.createAssociation(dumb=True)
    b = s.signatory.createAssociation(dumb=False)
    q = dict(EXTRAS[extra])
    q['openid.mode'] = 'check_authentication'
    hd = {'dumb': a.handle, 'shared': b.handle, 'unknown': 'nope', 'empty': '', 'odd': 'Ä\n', 'absent': None}
    for k, x in (('ns', ns), ('assoc_handle', hd[handle]), ('sig', sig), ('signed', signed), ('invalidate_handle', hd[inv]), ('return_to', rt)):
        if x is not None:
            q['openid.' + k] = x
    v = version_of(q)
    ok = v != 'bad' and hd[handle] is not None and sig is not None and extra not in BADNS and not (extra == 'self' and v == 2)
    req, err = decode(s, q)
    same('accepted', req is not None, ok)
    if err is not None:
        st.outcome('check_authentication ' + check_error(s, q, err, v, 'check_authentication', rt))
        return
    same('kind', (type(req) is CheckAuthRequest, req.mode, req.assoc_handle, req.invalidate_handle), (True, 'check_authentication', hd[handle], hd[inv]))
    web = s.encodeResponse(s.handleRequest(req))
    d = parse_kv(web.body)
    same('code', web.code, 200)
    ns = ns if ns == NS2 or 'ns' in d else None
    same('verdict', d.get('is_valid'), 'false')        # none of these signatures is right
    want = {'is_valid'} | ({'ns'} if ns else set()) | ({'invalidate_handle'} if inv in ('unknown', 'dumb') else set())
    if inv == 'odd':
        d.pop('invalidate_handle', None)
    same('fields', set(d), want)
    st.outcome('check_authentication answered')


def sizes(case, st):
    """Answers around the redirect limit."""
    _, ns, rt, n, allow = case
    s = make()
    q = {'openid.mode': 'checkid_setup', 'openid.identity': 'http://user.example/', 'openid.return_to': rt}
    if ns:
        q['openid.ns'] = ns
    if ns == NS2:
        q['openid.claimed_id'] = q['openid.identity']
    req, err = decode(s, q)
    r = req.answer(allow)
    if n:
        r.addExtension(sreg.SRegResponse({'nickname': 'x' * n}))
    web = s.encodeResponse(r)
    dv = delivered(web, rt)
    d = dict(dv[1])
    if n:
        same('extension value', d.get('openid.sreg.nickname'), 'x' * n)
    for k, x in parse_qsl(urlsplit(rt).query, keep_blank_values=True):
        same('return URL argument', (k, x) in dv[1], True)
    full = len(dv[2]) if dv[0] == 'redirect' else size_form(dv[0], dv[1], rt)
    same('transport of an answer of %d characters' % full, dv[0], 'form' if ns == NS2 and full > LIMIT else 'redirect')
    if dv[0] == 'form':
        f = op.Form()
        f.feed(text(web.body))
        same('form', (f.method, f.action, web.code), ('post', rt, 200))
    st.outcome('size:' + dv[0])
    st.state(full)


ERR_RT = RT + '?q=' + 'l' * 1600


def error_sizes(case, st):
    _, ns, n = case
    s = make()
    rt = ERR_RT + 'm' * n
    q = {'openid.mode': 'monkeydance', 'openid.return_to': rt}
    if ns:
        q['openid.ns'] = ns
    req, err = decode(s, q)
    dv = delivered(s.encodeResponse(err), rt)
    fields_to(dv, rt, {'openid.mode': 'error', 'openid.error': None}, ns)
    full = len(dv[2]) if dv[0] == 'redirect' else size_form(dv[0], dv[1], rt)
    same('transport of an error of %d characters' % full, dv[0], 'form' if ns == NS2 and full > LIMIT else 'redirect')
    st.outcome('error size:' + dv[0])


def noquery(case, st):
    s = make()
    same('no query', s.decodeRequest({}), None)
    same('no query', s.decodeRequest(None), None)
    st.outcome('nothing')


def twice(case, st):
    """Signing is never repeated, unsigned answers may be encoded again; unknown encodings are refused."""
    from openid.server.server import AlreadySigned
    s = make()
    q = {'openid.mode': 'checkid_setup', 'openid.ns': NS2, 'openid.identity': 'http://user.example/', 'openid.claimed_id': 'http://user.example/', 'openid.return_to': RT}
    req, _ = decode(s, q)
    r = req.answer(True)
    w1 = s.encodeResponse(r)
    same('encoding changes the answer', r.fields.hasKey(NS2, 'sig'), False)
    signed = s.signatory.sign(r)
    try:
        s.encodeResponse(signed)
        raise Bad('a signed answer was signed again')
    except AlreadySigned:
        pass
    try:
        s.handleRequest(req)
        raise Bad('handleRequest answered a request only the application can answer')
    except NotImplementedError:
        pass
    st.outcome('twice')


def negotiate(case, st):
    """A provider that allows only some association types: everything else is refused, naming a type that is allowed."""
    from openid.association import SessionNegotiator
    _, ns, allowed, stype, atype = case
    s = make()
    s.negotiator = SessionNegotiator(list(allowed))
    q = {'openid.mode': 'associate', 'openid.assoc_type': atype, 'openid.session_type': stype, 'openid.dh_consumer_public': PUBS['good']}
    if ns:
        q['openid.ns'] = ns
    req, err = decode(s, q)
    same('decoded', err, None)
    fine = (atype, stype) in allowed
    try:
        web = s.encodeResponse(s.handleRequest(req))
    except ProtocolError as e:
        same('refused by exception', (fine, ns == NS2), (False, False))
        st.outcome('unsupported type, version 1: ' + check_error(s, q, e, version_of(q), 'associate', None))
        return
    d = parse_kv(web.body)
    if fine:
        same('answer', (web.code, d.get('assoc_type'), 'error' in d), (200, atype, False))
        st.outcome('supported type')
        return
    same('code', web.code, 400)
    pref = {'assoc_type': allowed[0][0], 'session_type': allowed[0][1]} if allowed else {}
    same('answer', {k: x for k, x in d.items() if k not in ('error', 'mode')}, dict(pref, ns=NS2, error_code='unsupported-type'))
    same('reason given', bool(d.get('error')), True)
    st.outcome('unsupported type')


def errors(case, st):
    """Errors an application raises: text, contact and reference all arrive."""
    from openid.message import Message
    _, ns, mode, rt, msg, contact, ref = case
    s = make()
    q = {'openid.mode': mode}
    if ns:
        q['openid.ns'] = ns
    if rt:
        q['openid.return_to'] = rt
    kw = {}
    if contact is not None:
        kw['contact'] = contact
    if ref is not None:
        kw['reference'] = ref
    e = ProtocolError(Message.fromPostArgs(q), msg, **kw)
    want = {'mode': 'error', 'error': msg}
    want.update(kw)
    if mode in DIRECT or not rt:
        web = s.encodeResponse(e)
        same('code', web.code, 400)
        d = parse_kv(web.body)
        if ns == NS2 or 'ns' in d:
            want['ns'] = ns
        same('error sent', d, want)
    else:
        dv = delivered(s.encodeResponse(e), rt)
        fields_to(dv, rt, {'openid.' + k: x for k, x in want.items()}, ns)
        full = len(dv[2]) if dv[0] == 'redirect' else size_form(dv[0], dv[1], rt)
        same('transport', dv[0], 'form' if ns == NS2 and full > LIMIT else 'redirect')
    st.outcome('application error')


def big(case, st):
    """Requests of every size."""
    _, what, n, mode, ns = case
    t = sz.text(n)
    rt, handle, extra = RT + '?a=1', None, {}
    if what == 'rtargs':
        rt = RT + '?' + '&'.join('k%d=v%d' % (i, i * 3) for i in range(n))
    elif what == 'rtlong':
        rt = RT + '?k=' + t
    elif what == 'rtpath':
        rt = RT + '/' + t
    elif what == 'handle':
        handle = 'h' + t
    elif what == 'bare':
        extra = dict(('b%d' % i, str(i)) for i in range(n))
    elif what == 'ext':
        extra = dict(('openid.ns.e%d' % i, 'urn:e%d' % i) for i in range(n))
        extra.update(('openid.e%d.k' % i, 'v%d' % i) for i in range(n))
    elif what == 'long':
        extra = {'openid.ns.e': 'urn:' + t, 'openid.e.' + t: t, t: t}
    elif what == 'dup':
        extra = dict(('openid.ns.e%d' % i, 'urn:e%d' % (i if i < n - 1 else 0)) for i in range(n))
    RETURNS[rt] = (True, True)
    EXTRAS['dup' if what == 'dup' and n > 1 else 'big'], old = extra, EXTRAS['dup']
    try:
        checkid(('checkid', mode, ns, rt, 'http://rp.example/', 'ic' if ns == NS2 else 'i', 'dup' if what == 'dup' and n > 1 else 'big', handle), st)
    finally:
        EXTRAS['dup'] = old


FN = dict(big=big, negotiate=negotiate, error=errors, checkid=checkid, associate=associate, checkauth=checkauth, size=sizes, esize=error_sizes, none=noquery, twice=twice)


def one(case, st):
    st.executions += 1
    st.transitions += 1
    st.state(case)
    st.sample(repr(case)[:300])
    try:
        FN[case[0]](case, st)
    except Bad as e:
        st.violation(repr(case)[:300], str(e)[:800], repr(case))


def check(ctx):
    q = ctx.quick
    NSS = [None, NS1, NS11, NS2, 'http://bad.example/', '']
    modes = [None, '', 'checkid_setup', 'checkid_immediate', 'check_authentication', 'associate', 'id_res', 'error', 'monkey\ndance', 'Checkid_setup', 'checkid_setup ', ' associate', 'check_authentication\n', 'checkid_']

    def cases():
        yield ('none',)
        yield ('twice',)
        for m in modes:
            for ns in NSS:
                for rt in RETURNS:
                    for ids in ('', 'i', 'c', 'ic'):
                        for ex in EXTRAS:
                            for realm in (REALMS if ex in ('none', 'sreg') and m in BROWSER or not q else (None, 'http://rp.example/')):
                                for h in ((None, 'h') if ids == 'ic' and m in BROWSER else (None,)):
                                    yield ('checkid', m, ns, rt, realm, ids, ex, h)
        stypes = [None, '', 'no-encryption', 'DH-SHA1', 'DH-SHA256', 'DH-MD5', 'x\ny']
        atypes = [None, '', 'HMAC-SHA1', 'HMAC-SHA256', 'HMAC-MD5', 'x\ny', 'Ä']
        for ns in (None, NS1, NS11, NS2):
            for rt in (None, RT, 'javascript:alert(1)'):
                for stp in stypes:
                    for at in atypes:
                        yield ('associate', ns, stp, at, 'absent', 'absent', 'good', rt)
                        yield ('associate', ns, stp, at, 'absent', 'absent', 'absent', rt)
            for stp, at in (('DH-SHA1', 'HMAC-SHA1'), ('DH-SHA256', 'HMAC-SHA256')):
                for m in MODS:
                    for g in GENS:
                        for p in PUBS:
                            if q and ns in (NS1, NS11) and p not in ('good', 'zero'):
                                continue
                            yield ('associate', ns, stp, at, m, g, p, None)
        for ns in NSS[:5]:
            for h in ('dumb', 'shared', 'unknown', 'empty', 'odd', 'absent'):
                for sig in (None, '', 'x', 'AAAAAAAAAAAAAAAAAAAAAAAAAAA=', 'Ä', 'a\nb'):
                    for signed in (None, '', 'mode', 'mode,return_to,nope', ',,', 'a.b', 'ns.x,foo', 'Ä', 'mode\n'):
                        for inv in ('absent', 'shared', 'dumb', 'unknown', 'empty'):
                            for rt in (None, RT, 'javascript:alert(1)'):
                                if q and rt and inv not in ('absent', 'unknown'):
                                    continue
                                yield ('checkauth', ns, h, sig, signed, inv, rt, 'none')
                        if signed in (None, 'mode'):
                            for ex in EXTRAS:
                                yield ('checkauth', ns, h, sig, signed, 'absent', None, ex)
        TYPES = [('HMAC-SHA1', 'no-encryption'), ('HMAC-SHA1', 'DH-SHA1'), ('HMAC-SHA256', 'no-encryption'), ('HMAC-SHA256', 'DH-SHA256')]
        for ns in (None, NS1, NS11, NS2):
            for k in range(3 if q else 5):
                for allowed in itertools.permutations(TYPES, k):
                    for at, stp in TYPES:
                        yield ('negotiate', ns, allowed, stp, at)
            for m in ('associate', 'check_authentication', 'checkid_setup', 'checkid_immediate', 'dance'):
                for rt in (None, RT, RT + '?a=1&b='):
                    if rt is None and m in BROWSER:
                        continue
                    for msg in ('oops', 'a:b', '\u00fcber & <x>', 'y' * 2000):
                        for contact in (None, '', 'admin@op.example', '\u00c4 <b>'):
                            for ref in (None, '', 'r:1'):
                                yield ('error', ns, m, rt, msg, contact, ref)
        for ns in (None, NS11, NS2):
            for rt in (RT, RT + '?a=1&b=', RT + '?x=%C3%84+z'):
                for n in [0] + list(range(1, 2000, 97 if q else 13)) + list(range(1050, 1500)):
                    yield ('size', ns, rt, n, True)
                for n in [0] + list(range(1700, 2000, 1 if not q else 3)):
                    yield ('size', ns, rt, n, False)
            for n in range(0, 500):
                yield ('esize', ns, n)
            for m in BROWSER:
                for n in sz.counts(q):
                    for w in ('rtargs', 'bare', 'ext', 'dup'):
                        yield ('big', w, n, m, ns)
                for n in sz.lengths(q):
                    if n <= (20000 if q else 140000):
                        for w in ('rtlong', 'rtpath', 'handle', 'long'):
                            yield ('big', w, n, m, ns)

    ctx.bounds = {'size of requests': 'up to %d arguments, %d characters' % (max(sz.counts(q)), 20000 if q else 140000), 'modes': len(modes), 'namespaces': len(NSS), 'return urls': len(RETURNS), 'realms': len(REALMS), 'declarations': list(EXTRAS),
                  'associate': '%d session types x %d association types; %d moduli x %d generators x %d public keys' % (7, 7, len(MODS), len(GENS), len(PUBS)),
                  'answer sizes': 'every length around the limit of %d' % LIMIT}
    ctx.run(cases, one)
