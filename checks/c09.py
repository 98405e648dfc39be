"""C09: association negotiation between the real relying party and the real provider (and independent peers), all preference pairs and single faults."""
import itertools, base64, hashlib
from lib import env, world, op
from lib.env import CLOCK, T0
from lib.world import NS2, NS1, kv, parse_body
from lib.op import Recorder, parse_kv
from openid.association import SessionNegotiator, default_negotiator, encrypted_negotiator
from openid.consumer.consumer import Consumer, GenericConsumer
from openid.consumer.discover import OpenIDServiceEndpoint, OPENID_1_1_TYPE, OPENID_2_0_TYPE, OPENID_1_0_TYPE
from openid.fetchers import HTTPResponse, HTTPFetchingError
from openid.server.server import Server, ProtocolError
from openid.store.memstore import MemoryStore

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive exploration of the two-party negotiation: all ordered preference lists of both sides x version, and all single '
             'faults / dishonest replies at each request, on the real relying party and provider, against a protocol model and independent peers')
NOTE = 'the model predicts requests and outcome; every model trace is executed on the real code'
RULE = 'one execution = (relying party preferences, provider preferences, version, fault at request i); compared: requests on the wire, keys on both sides'
ASSUMPTIONS = ['Diffie-Hellman key pairs are drawn by the cryptography library']
OPURL = 'http://op.example/server'
PAIRS = [('HMAC-SHA1', 'DH-SHA1'), ('HMAC-SHA1', 'no-encryption'), ('HMAC-SHA256', 'DH-SHA256'), ('HMAC-SHA256', 'no-encryption')]
LISTS = [p for n in range(1, 5) for p in itertools.permutations(PAIRS, n)]
MOD = int('DCF93A0B883972EC0E19989AC5A2CE310E1D37717E8D9571BB7623731866E61EF75A2E27898B057F9891C2E27A639C3F29B60814581CD3B2CA3986D2683705577D45C2E7E52DC81C7A171876E5CEA74B1448BFDFAF18828EFD2519F14E45E3826634AF1949E5B535CC829A483B8A76223E5D490A257F05BDFF16F2FB22C583AB', 16)
GEN = 2
HASH = {'DH-SHA1': hashlib.sha1, 'DH-SHA256': hashlib.sha256}
SIZE = {'HMAC-SHA1': 20, 'HMAC-SHA256': 32}


def btwoc(n):
    b = n.to_bytes((n.bit_length() + 8) // 8 or 1, 'big')
    return b


def b64(b):
    return base64.b64encode(b).decode()


def endpoint(version):
    e = OpenIDServiceEndpoint()
    e.server_url = OPURL
    e.claimed_id = 'http://user.example/'
    e.type_uris = [{2: OPENID_2_0_TYPE, 1: OPENID_1_1_TYPE, 10: OPENID_1_0_TYPE}[version]]
    e.local_id = None
    return e


class Provider(object):
    """The real provider behind the wire."""

    def __init__(self, prefs):
        self.store = Recorder(MemoryStore())
        self.server = Server(self.store, OPURL)
        self.server.negotiator = SessionNegotiator(list(prefs))
        self.log = []

    def __call__(self, url, body, headers):
        q = parse_body(body)
        try:
            req = self.server.decodeRequest(q)
            resp = self.server.handleRequest(req)
            web = self.server.encodeResponse(resp)
        except ProtocolError as e:
            web = self.server.encodeResponse(e)
        b = op.text(web.body).encode('utf-8')
        self.log.append((q, web.code, b))
        return HTTPResponse(url, web.code, {}, b)


def secrets_in(body, key):
    return b64(key).encode() in body or key in body


def model(rp, oplist, version):
    """(requests, outcome pair or None)"""
    first = rp[0]
    reqs = [first]
    if first in oplist:
        return reqs, first
    if version != 2 or not oplist:
        return reqs, None
    sug = oplist[0]
    if sug not in rp:
        return reqs, None
    return reqs + [sug], sug


def request_pair(q):
    return (q.get('openid.assoc_type'), q.get('openid.session_type') or 'no-encryption')


def begin(store, rp, version):
    c = Consumer({}, store)
    if rp is not None:
        c.setAssociationPreference(list(rp))
    return c.beginWithoutDiscovery(endpoint(version))


def honest(case, st):
    rp, oplist, version = case
    key = 'honest:v%d:%s:%s' % (version, short(rp), short(oplist))
    env.reset(key)
    net = world.Net()
    p = Provider(oplist)
    net.routes[OPURL] = p
    net.install()
    store = MemoryStore()
    st.executions += 1
    st.state(key)
    bad = lambda what: st.violation(key, what, {'rp': rp, 'op': oplist, 'version': version, 'wire': [(q, c, b.decode()) for q, c, b in p.log]})
    want_reqs, want = model(rp, oplist, version)
    try:
        req = begin(store, rp, version)
    except Exception as e:
        return bad('begin raised %s: %s' % (type(e).__name__, e))
    st.transitions += len(p.log)
    st.outcome('requests %d %s' % (len(p.log), 'established' if want else 'none'))
    if [request_pair(q) for q, c, b in p.log] != want_reqs:
        bad('requests %r, expected %r' % ([request_pair(q) for q, c, b in p.log], want_reqs))
    for q, c, b in p.log:
        if q.get('openid.ns') != (NS2 if version == 2 else None):
            bad('request namespace %r' % q.get('openid.ns'))
        if version == 2 and 'openid.session_type' not in q:
            bad('no session type in an OpenID 2 request')
    got = store.getAssociation(OPURL)
    if want is None:
        if got is not None:
            bad('an association of type %s was established' % got.assoc_type)
        if p.store.assocs:
            bad('the provider created an association of a type it does not allow: %r' % [a[1] for a in p.store.assocs.values()])
        return
    if got is None:
        return bad('no association although %r is acceptable to both' % (want,))
    if len(p.store.assocs) != 1:
        bad('the provider created %d associations' % len(p.store.assocs))
    h = p.store.order[-1]
    k = p.store.assocs[h]
    if (got.handle, got.secret, got.assoc_type, got.issued + got.lifetime) != (h,) + k or got.assoc_type != want[0] or len(got.secret) != SIZE[want[0]]:
        bad('relying party holds %r, provider issued %r' % ((got.handle, got.secret, got.assoc_type, got.lifetime), (h, k)))
    if p.server.signatory.getAssociation(h, dumb=False) is None:
        bad('the provider cannot use the association it issued')
    if want[1] != 'no-encryption' and (secrets_in(p.log[-1][2], k[0]) or b'mac_key:' in p.log[-1][2].replace(b'enc_mac_key:', b'')):
        bad('the key was sent in clear')
    if req.assoc is None or req.assoc.handle != h:
        bad('the request does not use the association')
    # again: the stored one is used; after expiry a new one is negotiated
    n = len(p.log)
    req = begin(store, rp, version)
    if len(p.log) != n or req.assoc.handle != h:
        bad('a valid association was not reused')
    CLOCK.reset(got.issued + got.lifetime)
    req = begin(store, rp, version)
    if len(p.log) != n + len(want_reqs) or req.assoc is None or req.assoc.handle == h or req.assoc.secret != p.store.assocs[req.assoc.handle][0]:
        bad('no new association after expiry')
    st.sample({'rp': rp, 'op': oplist, 'version': version, 'requests': want_reqs})


def short(l):
    return '' if l is None else ','.join({'HMAC-SHA1': '1', 'HMAC-SHA256': '2'}[a] + ('d' if s != 'no-encryption' else 'p') for a, s in l)


# -- faults -----------------------------------------------------------------------------------------------------
OTHER_SECRET = b'\x55' * 32


def faults(version):
    """name -> function(reply dict, status) -> (body bytes or Exception, status)"""
    F = {}
    F['neterror'] = lambda d, s: (HTTPFetchingError('down'), s)
    for code in (500, 404, 302, 400):
        F['status%d' % code] = lambda d, s, code=code: (kv(d), code)
    F['empty'] = lambda d, s: (b'', 200)
    F['garbage'] = lambda d, s: (b'<html>hello</html>', 200)
    F['binary'] = lambda d, s: (b'\xff\xfe:\xff\n', 200)
    F['nocolon'] = lambda d, s: (kv(d).replace(b':', b''), 200)
    for f in ('ns', 'assoc_handle', 'assoc_type', 'session_type', 'expires_in', 'mac_key', 'enc_mac_key', 'dh_server_public', 'error_code', 'error'):
        def drop(d, s, f=f):
            d = dict(d)
            d.pop(f, None)
            return kv(d), s
        F['drop:' + f] = drop
    alts = {
        'ns': ['', NS1, 'http://openid.net/signon/1.1', 'http://bad/'],
        'assoc_type': ['', 'HMAC-SHA1', 'HMAC-SHA256', 'HMAC-MD5'],
        'session_type': ['', 'no-encryption', 'DH-SHA1', 'DH-SHA256', 'DH-MD5'],
        'expires_in': ['', '0', '-1', 'x', '1', ' 12 ', '99999999999', '1e3', '12345678901234567890123'],
        'enc_mac_key': ['', '!!!', 'AAAA', b64(b'\x01' * 20), b64(b'\x01' * 32), b64(b'\x01' * 33)],
        'mac_key': ['', '!!!', 'AAAA', b64(b'\x01' * 20), b64(b'\x01' * 32)],
        'dh_server_public': ['', '!!!', b64(btwoc(0)), b64(btwoc(1)), b64(btwoc(MOD - 1)), b64(btwoc(MOD)), b64(btwoc(MOD + 1)), b64(btwoc(4))],
        'assoc_handle': ['', 'h\u00e9', 'x' * 300],
        'error_code': ['unsupported-type', 'other', ''],
    }
    for f, vs in alts.items():
        for v in vs:
            F['set:%s=%s' % (f, v[:12])] = lambda d, s, f=f, v=v: (kv(dict(d, **{f: v})), s)
    for a, t in PAIRS + [('HMAC-MD5', 'DH-SHA1'), ('HMAC-SHA1', 'DH-SHA256'), ('HMAC-SHA256', 'DH-SHA1'), ('', ''), (None, 'DH-SHA1'), ('HMAC-SHA1', None)]:
        def unsup(d, s, a=a, t=t):
            r = {'ns': NS2, 'error': 'no', 'error_code': 'unsupported-type'}
            if a is not None:
                r['assoc_type'] = a
            if t is not None:
                r['session_type'] = t
            return kv(r), 400
        F['unsupported:%s/%s' % (a, t)] = unsup
        F['unsupported1:%s/%s' % (a, t)] = lambda d, s, u=unsup: (u(d, s)[0].replace(b'ns:' + NS2.encode() + b'\n', b''), 400)
    for a, t in PAIRS:
        # a whole plain-text answer in place of what was asked for
        F['plain:%s' % a] = lambda d, s, a=a: (kv({'ns': NS2, 'assoc_type': a, 'session_type': 'no-encryption', 'expires_in': '100', 'assoc_handle': 'hp',
                                                   'mac_key': b64(b'\x07' * SIZE[a])}), 200)
        F['plain1:%s' % a] = lambda d, s, a=a: (kv({'assoc_type': a, 'expires_in': '100', 'assoc_handle': 'hp', 'mac_key': b64(b'\x07' * SIZE[a])}), 200)
    F['both'] = lambda d, s: (kv(dict(d, mac_key=b64(OTHER_SECRET[:20]))), s)
    F['error200'] = lambda d, s: (kv({'ns': NS2, 'error': 'x', 'error_code': 'unsupported-type', 'assoc_type': 'HMAC-SHA1', 'session_type': 'DH-SHA1'}), 200)
    return F


FAULTS = faults(2)
OPAQUE = ('set:enc_mac_key', 'set:mac_key', 'set:dh_server_public', 'both')


def faulty(case, st):
    rp, oplist, version, which, name = case
    key = 'fault:v%d:%s:%s:%d:%s' % (version, short(rp), short(oplist), which, name)
    env.reset(key)
    net = world.Net()
    p = Provider(oplist)
    sent = []

    def handler(url, body, headers):
        r = p(url, body, headers)
        n = len(sent)
        b, status = r.body, r.status
        if n == which:
            b, status = FAULTS[name](parse_kv(r.body), r.status)
        sent.append((request_pair(parse_body(body)), b, status))
        if isinstance(b, Exception):
            return b
        return HTTPResponse(url, status, {}, b)
    net.routes[OPURL] = handler
    net.install()
    store = MemoryStore()
    st.executions += 1
    st.state(key)
    bad = lambda what: st.violation(key, what, {'case': case, 'wire': [(a, b.decode('utf-8', 'replace') if isinstance(b, bytes) else str(b), c) for a, b, c in sent]})
    try:
        req = begin(store, rp, version)
    except Exception as e:
        return bad('begin raised %s: %s' % (type(e).__name__, e))
    st.transitions += len(sent)
    if len(sent) > 2:
        bad('%d association requests' % len(sent))
    for pair, b, c in sent:
        if pair not in rp:
            bad('the relying party asked for %r, which it does not allow' % (pair,))
    got = store._raw() if hasattr(store, '_raw') else store.getAssociation(OPURL)
    got = got or req.assoc
    if got is None:
        st.outcome('none')
        return
    st.outcome('established')
    pair, b, status = sent[-1]
    if isinstance(b, Exception) or status != 200:
        return bad('an association from a failed reply')
    try:
        d = parse_kv(b)
    except Exception:
        return bad('an association from a malformed reply')
    eff = d.get('session_type')
    if d.get('ns') != NS2 and not eff:
        eff = 'no-encryption'
    if (got.assoc_type, eff) not in rp:
        bad('association of type %s over session %s, which the relying party does not allow' % (got.assoc_type, eff))
    if got.assoc_type != d.get('assoc_type') or got.handle != d.get('assoc_handle'):
        bad('association %r %r differs from the reply' % (got.assoc_type, got.handle))
    try:
        if got.lifetime != int(d.get('expires_in', '')):
            bad('lifetime %r differs from the reply' % got.lifetime)
    except ValueError:
        bad('an association with an unreadable lifetime')
    if eff == 'no-encryption':
        if got.secret != base64.b64decode(d.get('mac_key', '')):
            bad('key differs from the reply')
    else:
        if eff != pair[1]:
            bad('session type %s although %s was asked for' % (eff, pair[1]))
        if not name.startswith(OPAQUE) and got.secret not in [a[0] for a in p.store.assocs.values()]:
            bad('key differs from the one the provider issued')
        if d.get('dh_server_public') in ('', '!!!', b64(btwoc(0)), b64(btwoc(1)), b64(btwoc(MOD - 1)), b64(btwoc(MOD))):
            bad('association from a degenerate public key')
        if len(got.secret) != len(base64.b64decode(d.get('enc_mac_key', ''))) or len(got.secret) != SIZE[got.assoc_type]:
            bad('key of %d bytes' % len(got.secret))


# -- independent peers ---------------------------------------------------------------------------------------------
def peer(case, st):
    side, pair, version, secret_n, x = case
    atype, stype = pair
    key = 'peer:%s:v%d:%s:%d:%d' % (side, version, short([pair]), secret_n, x)
    env.reset(key)
    st.executions += 1
    st.transitions += 1
    st.state(key)
    bad = lambda what, e=None: st.violation(key, what, e)
    key_bytes = bytes([secret_n]) * SIZE[atype]
    if side == 'op':                    # independent provider, real relying party
        seen = {}

        def handler(url, body, headers):
            q = parse_body(body)
            seen.update(q)
            r = {'assoc_handle': 'hh', 'assoc_type': atype, 'expires_in': '77'}
            if version == 2:
                r['ns'] = NS2
            if stype == 'no-encryption':
                r['mac_key'] = b64(key_bytes)
                if version == 2:
                    r['session_type'] = stype
            else:
                r['session_type'] = stype
                cp = int.from_bytes(base64.b64decode(q['openid.dh_consumer_public']), 'big')
                p = int.from_bytes(base64.b64decode(q['openid.dh_modulus']), 'big') if 'openid.dh_modulus' in q else MOD
                g = int.from_bytes(base64.b64decode(q['openid.dh_gen']), 'big') if 'openid.dh_gen' in q else GEN
                shared = pow(cp, x, p)
                hashed = HASH[stype](btwoc(shared)).digest()
                r['dh_server_public'] = b64(btwoc(pow(g, x, p)))
                r['enc_mac_key'] = b64(bytes(a ^ b for a, b in zip(hashed, key_bytes)))
            return HTTPResponse(url, 200, {}, kv(r))
        net = world.Net()
        net.routes[OPURL] = handler
        net.install()
        store = MemoryStore()
        begin(store, [pair], version)
        got = store.getAssociation(OPURL)
        if got is None or (got.handle, got.secret, got.lifetime, got.assoc_type) != ('hh', key_bytes, 77, atype):
            bad('real relying party obtained %r' % (got and (got.handle, got.secret, got.lifetime, got.assoc_type),), seen)
    else:                               # independent relying party, real provider
        srv = Server(Recorder(MemoryStore()), OPURL)
        srv.negotiator = SessionNegotiator([pair])
        q = {'openid.mode': 'associate', 'openid.assoc_type': atype}
        if version == 2:
            q['openid.ns'] = NS2
        if version == 2 or stype != 'no-encryption':
            q['openid.session_type'] = stype
        p, g = MOD, GEN
        if stype != 'no-encryption':
            if secret_n % 2:
                p = (1 << 607) - 1 if secret_n % 4 == 1 else MOD
                g = 3
                q['openid.dh_modulus'], q['openid.dh_gen'] = b64(btwoc(p)), b64(btwoc(g))
            q['openid.dh_consumer_public'] = b64(btwoc(pow(g, x, p)))
        web = srv.encodeResponse(srv.handleRequest(srv.decodeRequest(q)))
        d = parse_kv(web.body)
        h = srv.store.order[-1]
        issued = srv.store.assocs[h]
        if stype == 'no-encryption':
            k = base64.b64decode(d.get('mac_key', ''))
        else:
            sp = int.from_bytes(base64.b64decode(d['dh_server_public']), 'big')
            hashed = HASH[stype](btwoc(pow(sp, x, p))).digest()
            k = bytes(a ^ b for a, b in zip(hashed, base64.b64decode(d['enc_mac_key'])))
            if 'mac_key' in d:
                bad('key in clear', d)
        want_st = None if (version != 2 and stype == 'no-encryption') else stype
        if (k, d.get('assoc_handle'), d.get('assoc_type'), d.get('session_type')) != (issued[0], h, atype, want_st) or int(d['expires_in']) != issued[2] - CLOCK.now:
            bad('real provider answered %r, issued %r' % (d, issued))


VALID = {'HMAC-SHA1': ('DH-SHA1', 'no-encryption'), 'HMAC-SHA256': ('DH-SHA256', 'no-encryption')}
EVERY = [(a, s) for a in ('HMAC-SHA1', 'HMAC-SHA256', 'bogus', None) for s in ('DH-SHA1', 'DH-SHA256', 'no-encryption', 'bogus', None)]


def negotiator(first, st):
    """Every sequence of set/add calls on a negotiator against a list model; negotiators never share state."""
    env.reset()
    defaults = list(default_negotiator.allowed_types)
    adds = [('add',) + p for p in EVERY if p[0] is not None] + [
        ('set', ()), ('set', (('HMAC-SHA1', 'DH-SHA1'),)), ('set', (('HMAC-SHA256', 'DH-SHA1'),)),
        ('set', (('HMAC-SHA256', 'no-encryption'), ('HMAC-SHA1', 'DH-SHA1')))]
    for start in (None, 'default', 'encrypted'):
        for seq in itertools.product(adds, repeat=2):
            seq = (first,) + seq
            if start is None:
                neg, model = SessionNegotiator([]), []
            else:
                src = default_negotiator if start == 'default' else encrypted_negotiator
                neg, model = src.copy(), list(src.allowed_types)
            srv, cons = Server(Recorder(MemoryStore()), OPURL), GenericConsumer(None)
            for op in seq:
                st.transitions += 1
                try:
                    if op[0] == 'add':
                        neg.addAllowedType(*op[1:]) if op[2] is not None else neg.addAllowedType(op[1])
                    else:
                        neg.setAllowedTypes(list(op[1]))
                    ok = True
                except ValueError:
                    ok = False
                new = list(op[1]) if op[0] == 'set' else ([(op[1], op[2])] if op[2] is not None else [(op[1], x) for x in VALID.get(op[1], ())])
                want = all(s in VALID.get(a, ()) for a, s in new) and (bool(new) or op[0] == 'set')
                if ok != want:
                    st.violation('negotiator:%r' % (seq,), '%r %s' % (op, 'accepted' if ok else 'refused'), None)
                    break
                if want:
                    model = new if op[0] == 'set' else model + new
                if list(neg.allowed_types) != model:
                    st.violation('negotiator:%r' % (seq,), 'after %r allowed %r, expected %r' % (op, neg.allowed_types, model), None)
                    break
                if tuple(neg.getAllowedType()) != (model[0] if model else (None, None)):
                    st.violation('negotiator:%r' % (seq,), 'preferred %r' % (neg.getAllowedType(),), None)
                for p in EVERY:
                    if bool(neg.isAllowed(*p)) != (p in model):
                        st.violation('negotiator:%r' % (seq,), 'isAllowed%r with %r' % (p, model), None)
            st.executions += 1
            st.state((start, seq))
            for other in (default_negotiator, srv.negotiator, cons.negotiator):
                if list(other.allowed_types) != defaults:
                    st.violation('negotiator:%r' % (seq,), 'another negotiator changed to %r' % (other.allowed_types,), None)
                    return
    # changing the negotiator of one party must not change another party's
    for mk in (lambda: Server(Recorder(MemoryStore()), OPURL), lambda: GenericConsumer(None)):
        a, b = mk(), mk()
        a.negotiator.addAllowedType('HMAC-SHA1', 'no-encryption')
        a.negotiator.allowed_types.reverse()
        if list(b.negotiator.allowed_types) != defaults or list(mk().negotiator.allowed_types) != defaults:
            st.violation('negotiator:shared', 'configuring one party changed another', None)
    st.outcome('negotiator')


def check(ctx):
    quick = ctx.quick
    hl = [(rp, o, v) for rp in LISTS for o in LISTS + [()] for v in (1, 2)]
    fp = [(PAIRS[:1], PAIRS), (PAIRS[1:2], PAIRS), (PAIRS[2:3], PAIRS), (PAIRS[3:], PAIRS), (PAIRS, PAIRS), (PAIRS[2:3] + PAIRS[:1], PAIRS[:1]),
          (PAIRS[3:] + PAIRS[:1], PAIRS[:1]), (PAIRS[3:] + PAIRS[:1], PAIRS), (PAIRS[:1] + PAIRS[2:3], PAIRS[1:2])]
    jobs = [(honest, c) for c in hl]
    for rp, o in fp:
        for v in (1, 2, 10):
            for which in (0, 1):
                if which == 1 and (rp[0] in o or v != 2):
                    continue
                jobs += [(faulty, (tuple(rp), tuple(o), v, which, n)) for n in FAULTS]
    if not quick:
        for rp in LISTS:
            for o in ((PAIRS[0],), (PAIRS[1],), (PAIRS[2],), (PAIRS[3],), tuple(PAIRS)):
                for which in (0, 1):
                    for v in (2, 1):
                        if not (which and v == 1):
                            jobs += [(faulty, (rp, o, v, which, n)) for n in FAULTS]
    for side in ('op', 'rp'):
        for pair in PAIRS:
            for v in (1, 2):
                for n in range(6 if quick else 40):
                    jobs.append((peer, (side, pair, v, n, 3 + 7919 * n if n < 3 else (1 << 500) + n)))
    for a in EVERY:
        if a[0] is not None:
            jobs.append((negotiator, ('add',) + a))
    ctx.bounds = {'honest negotiations': len(hl), 'faults': len(FAULTS), 'jobs': len(jobs)}
    ctx.run(lambda: iter(jobs), lambda j, st: j[0](j[1], st), key=lambda j: {
        honest: lambda c: 'honest:v%d:%s:%s' % (c[2], short(c[0]), short(c[1])),
        faulty: lambda c: 'fault:v%d:%s:%s:%d:%s' % (c[2], short(c[0]), short(c[1]), c[3], c[4]),
        negotiator: lambda c: 'negotiator:%r' % (c,),
        peer: lambda c: 'peer:%s:v%d:%s:%d:%d' % (c[0], c[2], short([c[1]]), c[3], c[4])}[j[0]](j[1]))
