"""Relying-party scenarios: real Consumer against a scripted web, with an independent oracle for completion.

The oracle (`judge`) is written from the OpenID specifications and works on the raw query dictionary,
the arrival URL, the published discovery data, the stored associations and the OP's answer.
"""
import copy, re, calendar
from lib import env, world
from lib.env import CLOCK, T0
from lib.world import NS1, NS11, NS2, SREG, SREG10, T_11, T_10, T_SIGNON, T_SERVER
from lib.urlmodel import norm_path
from openid.association import Association
from openid.consumer.consumer import Consumer
from openid.store.memstore import MemoryStore
from openid.fetchers import HTTPResponse, HTTPFetchingError
from six.moves.urllib.parse import parse_qsl, urlsplit

USER = 'http://user.example/'
OTHER = 'http://other.example/'
LOCAL = 'http://op.example/~local'
OP = 'http://op.example/server'
EVIL = 'http://evil.example/server'
REALM = 'http://rp.example/'
RETURN = 'http://rp.example/return?a=1&b='
LIFE = 3600
SKEW = 5 * 3600


class Svc(object):
    """A published service, as the oracle sees it."""

    def __init__(self, types, server, local, claimed=None):
        self.types, self.server, self.local, self.claimed = tuple(types), server, local, claimed


def secret(n, assoc_type):
    return bytes([n]) * (20 if assoc_type == 'HMAC-SHA1' else 32)


class World(object):
    """One relying party, one honest OP, one evil OP.

    version: 2, 1 (implicit namespace) or 11 (explicit OpenID 1.1 namespace)
    mode: 'assoc' (association stored), 'stateless' (store None), 'lost' (store, association lost after begin)
    """

    def __init__(self, version=2, mode='assoc', session=True, delegate=False, atype='HMAC-SHA1', store=None,
                 return_to=RETURN, extra_services=()):
        env.reset()
        self.version, self.mode, self.atype = version, mode, atype
        self.v2 = version == 2
        self.local = LOCAL if delegate else USER
        types = [T_SIGNON] if self.v2 else [T_11]
        self.web = {USER: [Svc(types, OP, self.local, USER)] + list(extra_services),
                    OTHER: [Svc(types, EVIL, OTHER, OTHER)]}
        self.net = world.Net()
        for url in self.web:
            self.publish(url)
        self.net.routes[OP] = self._op
        self.net.routes[EVIL] = self._evil
        self.reply = 'honest'
        self.asked = []
        self.assocs = {}           # (server, handle) -> (secret, type, expires at)
        self.private = {}          # handle -> (secret, type): the honest OP's own keys
        self.store = None if mode == 'stateless' else (store if store is not None else MemoryStore())
        self.net.install()
        k = secret(1, atype)
        if self.store is not None:
            self.put(OP, 'h-good', k, atype, LIFE)
            self.put(EVIL, 'h-evil', secret(2, 'HMAC-SHA1'), 'HMAC-SHA1', LIFE)
            self.put(EVIL, 'h-good2', secret(3, 'HMAC-SHA1'), 'HMAC-SHA1', LIFE)
            self.put(OP, 'h-256', secret(5, 'HMAC-SHA256'), 'HMAC-SHA256', LIFE - 10)
        self.private['h-good'] = (k, atype)
        self.private['h-private'] = (secret(7, 'HMAC-SHA1'), 'HMAC-SHA1')
        self.session = {}
        cons = Consumer(self.session, self.store)
        if self.store is not None:
            self.put(OP, 'h-old', secret(4, 'HMAC-SHA1'), 'HMAC-SHA1', 100, issued=T0 - 4000)
        req = cons.begin(USER)
        msg = req.getMessage(REALM, return_to, False)
        args = msg.toPostArgs()
        self.return_to = args['openid.return_to']
        if mode == 'lost':
            self.store.removeAssociation(OP, 'h-good')
            del self.assocs[(OP, 'h-good')]
        self.has_session = session
        if not session:
            self.session = {}
        self.handle = 'h-good' if mode != 'stateless' else 'h-private'
        self.snap = (copy.deepcopy(self.session), copy.deepcopy(self.store) if isinstance(self.store, MemoryStore)
                     else None)

    def publish(self, url, as_=None):
        svcs = []
        for s in self.web[url]:
            one = any(t in (T_11, T_10) for t in s.types)
            two = T_SIGNON in s.types
            svcs.append(world.service(s.types, [s.server],
                                      local_id=s.local if two and s.local != url else None,
                                      delegate=s.local if one and s.local != url else None))
        self.net.page(url, world.xrds(*svcs), ctype=world.XRDS_CT)

    def put(self, server, handle, key, atype, life, issued=None):
        issued = int(CLOCK.now) if issued is None else issued
        self.store.storeAssociation(server, Association(handle, key, issued, life, atype))
        self.assocs[(server, handle)] = (key, atype, issued + life)

    def fresh(self):
        """Independent copies of session and store for one execution (memory store only)."""
        env.reset()
        self.net.install()
        self.net.log = []
        self.asked = []
        self.reply = 'honest'
        self.session = copy.deepcopy(self.snap[0])
        if self.snap[1] is not None:
            self.store = copy.deepcopy(self.snap[1])

    # -- the OPs -----------------------------------------------------------
    def _op(self, url, body, headers):
        q = world.parse_body(body)
        if q.get('openid.mode') != 'check_authentication':
            return HTTPResponse(url, 500, {}, b'')
        self.asked.append((url, q))
        return self.answer(url, q)

    def _evil(self, url, body, headers):
        q = world.parse_body(body)
        self.asked.append((url, q))
        return HTTPResponse(url, 200, {}, world.kv({'ns': NS2, 'is_valid': 'true'}))

    def honest_valid(self, q):
        k = self.private.get(q.get('openid.assoc_handle'))
        if k is None or not q.get('openid.signed'):
            return False
        q = dict(q)
        q['openid.mode'] = 'id_res'
        return world.good_sig(q, *k)

    def answer(self, url, q):
        r = self.reply
        ns = {'ns': NS2} if self.v2 else {}
        ok = lambda d, st=200: HTTPResponse(url, st, {}, world.kv(dict(ns, **d)))
        if r == 'honest':
            return ok({'is_valid': 'true' if self.honest_valid(q) else 'false'})
        body, status = REPLIES[r]
        if isinstance(body, Exception):
            return body
        return HTTPResponse(url, status, {}, (world.kv(ns) if body.startswith(b'is_valid') else b'') + body)

    # -- assertions --------------------------------------------------------
    def fields(self):
        """Unsigned fields of the honest positive assertion."""
        q = {'openid.mode': 'id_res', 'openid.identity': self.local, 'openid.return_to': self.return_to,
             'openid.assoc_handle': self.handle}
        if self.version == 2:
            q.update({'openid.ns': NS2, 'openid.claimed_id': USER, 'openid.op_endpoint': OP,
                      'openid.response_nonce': world.nonce_at(T0 - 5), 'openid.ns.sreg': SREG})
        elif self.version == 11:
            q.update({'openid.ns': NS11, 'openid.ns.sreg': SREG10})
        q['openid.sreg.nickname'] = 'Nick'
        return q

    def signed(self):
        f = ['identity', 'return_to', 'assoc_handle', 'mode', 'sreg.nickname']
        if self.version == 2:
            f += ['claimed_id', 'op_endpoint', 'response_nonce', 'ns.sreg', 'ns']
        return f

    def bare(self):
        return dict(parse_qsl(urlsplit(self.return_to).query, keep_blank_values=True))

    # -- completion --------------------------------------------------------
    def complete(self, query, cur):
        return Consumer(self.session, self.store).complete(dict(query), cur)


REPLIES = {
    'blind': (b'is_valid:true\n', 200),
    'blind206': (b'is_valid:true\n', 206),
    'false': (b'is_valid:false\n', 200),
    'missing': (b'is_validX:true\n', 200),
    'nothing': (b'foo:bar\n', 200),
    'True': (b'is_valid:True\n', 200),
    '1': (b'is_valid:1\n', 200),
    'truex': (b'is_valid:truex\n', 200),
    'xtrue': (b'is_valid:not true\n', 200),
    'empty': (b'is_valid:\n', 200),
    't400': (b'is_valid:true\n', 400),
    'e400': (b'is_valid:true\nerror:x\nerror_code:unsupported-type\n', 400),
    'e200': (b'is_valid:false\nerror:x\nerror_code:unsupported-type\n', 200),
    'x400': (b'error:is_valid:true\nerror_code:true\n', 400),
    't500': (b'is_valid:true\n', 500),
    't302': (b'is_valid:true\n', 302),
    't404': (b'is_valid:true\n', 404),
    't201': (b'is_valid:true\n', 201),
    't204': (b'is_valid:true\n', 204),
    'none': (b'', 200),
    'html': (b'<html>is_valid:true</html>', 200),
    'latin': (b'\xff\xfe:\xff\n', 200),
    'exc': (HTTPFetchingError('connection refused'), 0),
    'inv': (b'is_valid:true\ninvalidate_handle:h-256\n', 200),
    'invf': (b'is_valid:false\ninvalidate_handle:h-256\n', 200),
}
TRUE_REPLIES = ('blind', 'blind206', 'inv')

_NONCE = re.compile(r'^([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2}):([0-9]{2})Z')


def nonce_time(n):
    m = _NONCE.match(n or '')
    if not m:
        return None
    y, mo, d, h, mi, s = map(int, m.groups())
    dim = calendar.monthrange(y, mo)[1] if 1 <= mo <= 12 and y >= 1 else 0
    if not (1 <= d <= dim and h < 24 and mi < 60 and s < 62):
        return None
    t = calendar.timegm((y, mo, d, h, mi, s, 0, 0, 0))
    return t if t >= 0 else None


def url_base(u):
    """Normalised (scheme, host, port, path) of an http(s) URL, None when it is not one."""
    try:
        p = urlsplit(u)
        port = p.port
    except ValueError:
        return None
    sch = p.scheme.lower()
    if sch not in ('http', 'https') or not p.hostname:
        return None
    if port is None or port == {'http': 80, 'https': 443}[sch]:
        port = None
    return (sch, p.netloc.rpartition('@')[0], p.hostname.lower(), port, norm_path(p.path))


class Verdict(object):
    def __init__(self, ok, why='', server=None, claimed=None, path=None):
        self.ok, self.why, self.server, self.claimed, self.path = ok, why, server, claimed, path


def judge(w, q, cur, used=()):
    """Must this completion be SUCCESS?  ok is True, False, or None where either is allowed."""
    no = lambda why: Verdict(False, why)
    ns = q.get('openid.ns')
    if ns not in (None, NS1, NS11, NS2):
        return no('ns')
    v2 = ns == NS2
    decl = [v for k, v in q.items() if k.startswith('openid.ns.')]
    if len(set(decl)) != len(decl) or (ns or NS1) in decl:
        return no('duplicate namespace')
    if q.get('openid.mode') != 'id_res':
        return no('mode')
    if not v2 and 'openid.user_setup_url' in q:
        return no('setup')
    need = ['return_to', 'assoc_handle', 'sig', 'signed'] + (['op_endpoint'] if v2 else ['identity'])
    for f in need:
        if 'openid.' + f not in q:
            return no('missing ' + f)
    signed = q['openid.signed'].split(',')
    must = ['return_to', 'identity'] + (['response_nonce', 'claimed_id', 'assoc_handle', 'op_endpoint'] if v2 else [])
    for f in must:
        if 'openid.' + f in q and f not in signed:
            return no('unsigned ' + f)
    # the return URL, both ways
    rt = q['openid.return_to']
    if url_base(rt) is None or url_base(rt) != url_base(cur):
        return no('return_to base')
    args = parse_qsl(urlsplit(rt).query, keep_blank_values=True)
    for k, v in args:
        if q.get(k) != v:
            return no('return_to arg')
    for k, v in q.items():
        if not k.startswith('openid.') and (k, v) not in args:
            return no('extra arg')
    # discovery
    ident = q.get('openid.identity')
    servers = []
    if v2:
        claimed = q.get('openid.claimed_id')
        if (claimed is None) != (ident is None):
            return no('identity pairing')
        if claimed is None:
            servers = [q['openid.op_endpoint']]
        else:
            for s in w.web.get(claimed.split('#')[0], []):
                if T_SIGNON in s.types and s.server == q['openid.op_endpoint'] and s.local == ident:
                    servers.append(s.server)
    else:
        claimed = q.get('openid1_claimed_id')
        if claimed is None:
            if not w.has_session:
                return no('no claimed id')
            claimed = USER
        for s in w.web.get(claimed.split('#')[0], []):
            if (T_11 in s.types or T_10 in s.types) and s.local == ident:
                servers.append(s.server)
    if not servers:
        return no('discovery')
    # OpenID 1 does not name the endpoint: the session's service if it matches, else the first match
    server = servers[0]
    v = Verdict(True, 'ok', server, claimed)
    # signature
    handle = q['openid.assoc_handle']
    known = None if w.store is None else w.assocs.get((server, handle))
    if known is not None and known[2] > CLOCK.now:
        v.path = 'assoc'
        if not q['openid.sig'] or not world.good_sig(q, known[0], known[1]):
            return no('signature')
    else:
        v.path = 'check_auth'
        if any('openid.' + f not in q for f in signed):
            return no('missing signed')
        if server == EVIL:
            pass
        elif server != OP:
            return no('no such OP')
        elif w.reply == 'honest':
            if not w.honest_valid(q):
                return no('check_auth')
        elif w.reply not in TRUE_REPLIES:
            return no('check_auth')
        if known is not None:
            v.ok = None
    # nonce
    nonce = q.get('openid.response_nonce') if v2 else q.get('janrain_nonce')
    t = nonce_time(nonce)
    if t is None:
        return no('nonce')
    if w.store is not None:
        if abs(t - CLOCK.now) > SKEW:
            return no('nonce window')
        key = (server if v2 else '', t, nonce[20:])
        if key in used:
            return no('replay')
        v.nonce = key
    return v
