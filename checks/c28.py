"""C28: secrets, handles and nonces are fresh: drawn in full from the system's random source, never repeated."""
import itertools, os, random, hashlib
from lib import env, world, op, pair
from lib.env import CLOCK, T0
from openid.association import Association
from openid.consumer.consumer import Consumer
from openid.consumer.discover import OpenIDServiceEndpoint
from openid.constants import DEFAULT_DH_MODULUS
from openid.server.server import Server
from openid.store import nonce as nonce_mod
from openid.store.memstore import MemoryStore
from openid.fetchers import HTTPResponse
from six.moves.urllib.parse import parse_qsl, urlsplit

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of the random streams that differ in one byte (every position drawn, every value) after every short history of issued values, '
             'executed on the real provider and relying party, with clock, process state and every other generator held fixed')
NOTE = 'the interposed random source is the only thing that varies, so whatever differs was drawn from it and whatever does not was not'
RULE = 'one execution = one history of issued values under one random stream; compared: the values issued last over the whole family of streams'
ASSUMPTIONS = ['the private numbers of Diffie-Hellman key pairs come from OpenSSL, whose generator is not interposed: only that keys are new each time and not small powers is checked',
               'bytes drawn from the operating system are taken as random']
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
SIZE = {'HMAC-SHA1': 20, 'HMAC-SHA256': 32}


class Stream(object):
    """Stands in for the operating system's random source: stream n, with some bytes after the mark changed."""

    def __init__(self, n=0):
        self.n, self.pos, self.mark, self.change = n, 0, None, {}

    def __call__(self, count):
        out = bytearray()
        for _ in range(count):
            i = self.pos
            self.pos += 1
            b = hashlib.sha256(b'%d|%d' % (self.n, i // 32)).digest()[i % 32]
            if self.mark is not None:
                b = self.change.get(i - self.mark, b)
            out.append(b)
        return bytes(out)

    def __enter__(self):
        os.urandom = random._urandom = self
        return self

    def __exit__(self, *a):
        env.controlled_random()


class Bad(Exception):
    pass


# -- where the values come from: each gives a function that issues the next one as {part: value} -------------

def provider(version):
    store = op.Recorder(MemoryStore())
    return store, Server(store, op.OP)


def last(store):
    h = store.order[-1]
    return {'handle': h, 'secret:' + store.assocs[h][1]: store.assocs[h][0]}


def shared(version, atype, session):
    store, server = provider(version)

    def issue():
        q = op.base_query(version, 'associate')
        q['openid.assoc_type'] = atype
        if session != 'plain':
            q.update({'openid.session_type': session, 'openid.dh_consumer_public': PUBLIC})
        elif version == 2:
            q['openid.session_type'] = 'no-encryption'
        server.encodeResponse(server.handleRequest(server.decodeRequest(q)))
        return last(store)
    return issue


def private(version, handle):
    store, server = provider(version)
    if handle in SIZE:                  # a shared association that has expired by now: the private one takes over its type
        store._s.storeAssociation(server.signatory._normal_key, Association('old', b'k' * SIZE[handle], T0 - 20, 10, handle))

    def issue():
        q = op.base_query(version, 'checkid_setup')
        q.update({'openid.identity': 'http://user.example/', 'openid.return_to': 'http://rp.example/r'})
        if version == 2:
            q['openid.claimed_id'] = 'http://user.example/'
            q['openid.realm'] = 'http://rp.example/'
        else:
            q['openid.trust_root'] = 'http://rp.example/'
        if handle:
            q['openid.assoc_handle'] = 'old'
        web = server.encodeResponse(server.decodeRequest(q).answer(True))
        got = dict(op.delivered(web, None)[1])
        out = last(store)
        if version == 2:
            out['nonce'] = got['openid.response_nonce']
        if got['openid.assoc_handle'] != out['handle']:
            raise Bad('signed with %r, stored %r' % (got['openid.assoc_handle'], out['handle']))
        return out
    return issue


def response(version, atype):
    """Assertions under one shared association: only the nonce is new."""
    store, server = provider(version)
    store._s.storeAssociation(server.signatory._normal_key, Association('live', b'k' * SIZE[atype], T0, 100000, atype))

    def issue():
        q = op.base_query(version, 'checkid_immediate')
        q.update({'openid.identity': 'http://user.example/', 'openid.return_to': 'http://rp.example/r', 'openid.claimed_id': 'http://user.example/', 'openid.realm': 'http://rp.example/',
                  'openid.assoc_handle': 'live'})
        got = dict(op.delivered(server.encodeResponse(server.decodeRequest(q).answer(True)), None)[1])
        return {'nonce': got['openid.response_nonce']}
    return issue


def login(version, same_consumer):
    """The nonce a relying party puts into the return URL of an OpenID 1 login."""
    world.Net().install()
    e = OpenIDServiceEndpoint()
    e.server_url, e.claimed_id, e.type_uris = op.OP, 'http://user.example/', [{11: world.T_11, 10: world.T_10}[version]]
    keep = Consumer({}, None)

    def issue():
        c = keep if same_consumer else Consumer({}, None)
        url = c.beginWithoutDiscovery(e).redirectURL('http://rp.example/', 'http://rp.example/r')
        q = dict(parse_qsl(urlsplit(url).query))
        return {'nonce': dict(parse_qsl(urlsplit(q['openid.return_to']).query))['janrain_nonce']}
    return issue


def direct(kind):
    if kind == 'now':
        return lambda: {'nonce': nonce_mod.mkNonce()}
    return lambda: {'nonce': nonce_mod.mkNonce(int(CLOCK.now))}


SOURCES = dict(shared=shared, private=private, response=response, login=login, direct=direct)
PUBLIC = None


def public_key():
    from openid.dh import DiffieHellman
    return DiffieHellman.fromDefaults().public_key


def sources():
    for v in (2, 1):
        for t in SIZE:
            if v == 2 or t == 'HMAC-SHA1':
                yield ('shared', v, t, 'plain')
                yield ('shared', v, t, 'DH-SHA1' if t == 'HMAC-SHA1' else 'DH-SHA256')
            yield ('private', v, t)
        yield ('private', v, None)
        yield ('private', v, 'unknown')
    for t in SIZE:
        yield ('response', 2, t)
    for v in (11, 10):
        for same in (False, True):
            yield ('login', v, same)
    yield ('direct', 'now')
    yield ('direct', 'when')


def split(part, value):
    """The part of a value that has to be random, checked for form."""
    if part.startswith('secret'):
        want = SIZE[part.split(':')[1]]
        if len(value) != want:
            raise Bad('a secret of %d bytes for %s' % (len(value), part))
        return value, 8 * want, range(256)
    if part == 'nonce':
        stamp, salt = value[:20], value[20:]
        if stamp != env._strftime('%Y-%m-%dT%H:%M:%SZ', env._gmtime(CLOCK.now)):
            raise Bad('nonce %r at %d' % (value, CLOCK.now))
        if len(salt) < 6 or set(salt) - set(LETTERS):
            raise Bad('nonce %r' % value)
        return salt, 35, LETTERS
    if not value or len(value) > 255 or any(not '!' <= c <= '~' for c in value):
        raise Bad('handle %r' % value)
    return value, 32, None


def stream_family(case, st):
    """Every value of every byte drawn for the last of the issued values."""
    _, src, prior = case
    env.reset()
    runs, count = {}, {}

    def run(change):
        CLOCK.now = T0
        random.seed(1)
        issue = SOURCES[src[0]](*src[1:])
        with Stream() as s:
            before = []
            for i in range(prior):
                CLOCK.now = T0 + i // 2
                before.append(issue())
            CLOCK.now = T0 + prior // 2
            s.mark, s.change = s.pos, change
            got = issue()
            drawn = s.pos - s.mark
        st.executions += 1
        st.transitions += prior + 1
        for part, value in got.items():
            if any(b.get(part) == value for b in before) and not change:
                raise Bad('%s %r was issued before' % (part, value))
        runs[tuple(change.items())] = got
        base = runs[()]
        if drawn == count.setdefault('base', drawn) and len(set(part.split(':')[0] for part in got if got[part] != base[part])) > 1:
            raise Bad('one byte of the random source decides about %s' % ' and '.join(sorted(part for part in got if got[part] != base[part])))
        return drawn

    n = run({})
    if not n:
        raise Bad('nothing was drawn from the random source')
    for p in range(min(n, 48)):
        for b in range(256):
            run({p: b})
    st.state(case)
    parts = sorted(set(k for r in runs.values() for k in r))
    for part in parts:
        values = [split(part, r[part]) for r in runs.values()]
        bits, symbols = values[0][1], values[0][2]
        texts = [v[0] for v in values]
        # a stream that differs in one drawn byte gives another value, for as many bytes as the value is worth
        least = {32: 4 * 255, 35: 6 * 61}.get(bits, bits // 8 * 255) + 1
        if len(set(texts)) < least:
            raise Bad('%s: only %d different values over %d random streams, expected %d: for instance %r' % (part, len(set(texts)), len(texts), least, texts[0]))
        if symbols is None:
            continue
        for i in range(min(len(t) for t in texts)):
            got = set(t[i] for t in texts)
            if len(got) < len(symbols):
                raise Bad('%s: place %d takes only the values %r' % (part, i, sorted(got)[:20]))
    st.outcome('family:%s:%d bytes' % (src[0], n))


def history(case, st):
    """Long histories under one stream: no value is issued twice."""
    _, src, n, stream = case
    env.reset()
    st.state(case)
    issue = SOURCES[src[0]](*src[1:])
    seen = {}
    with Stream(stream):
        for i in range(n):
            CLOCK.now = T0 + i // 50
            for part, value in issue().items():
                if value in seen.setdefault(part, set()):
                    raise Bad('%s %r was issued before' % (part, value))
                seen[part].add(value)
            st.executions += 1
            st.transitions += 1
    st.outcome('history')


_SMALL = set()


def small():
    if not _SMALL:
        from openid import cryptutil
        p = cryptutil.base64ToLong(DEFAULT_DH_MODULUS)
        x = 1
        for _ in range(1 << 16):
            _SMALL.add(cryptutil.longToBase64(x))
            _SMALL.add(cryptutil.longToBase64(p - x))
            x = x * 2 % p
    return _SMALL


def exchanges(case, st):
    """Key pairs are new in every exchange, on both sides, whatever object is used again."""
    _, prefs, reuse, n = case
    env.reset()
    st.state(case)
    p = pair.Pair(2, rp_prefs=list(prefs), reset=False)
    keys = {'dh_consumer_public': [], 'dh_server_public': []}
    real = p.op_direct

    def spy(url, body, headers):
        q = world.parse_body(body)
        r = real(url, body, headers)
        if q.get('openid.mode') == 'associate' and 'openid.dh_consumer_public' in q:
            keys['dh_consumer_public'].append(q['openid.dh_consumer_public'])
            keys['dh_server_public'].append(op.parse_kv(r.body)['dh_server_public'])
        return r
    p.net.routes[pair.OPURL] = spy
    c = p.consumer()
    for i in range(n):
        if reuse != 'consumer':
            p.session = {}
            c = p.consumer()
        if reuse == 'none':
            p.server = Server(p.op_store, pair.OPURL)
        c.begin(pair.USER)
        for h in list(p.rp_store.server_assocs.get(pair.OPURL).assocs) if p.rp_store.server_assocs.get(pair.OPURL) else []:
            p.rp_store.removeAssociation(pair.OPURL, h)
        st.executions += 1
        st.transitions += 1
    for k, v in sorted(keys.items()):
        if len(v) != n:
            raise Bad('%d exchanges instead of %d' % (len(v), n))
        if len(set(v)) < n:
            raise Bad('%s used again: %r' % (k, v))
        for x in v:
            if x in small():
                raise Bad('%s is a small power: %r' % (k, x))
    st.outcome('exchanges')


def repeated(case, st):
    """The same exchange asked for again and again gets another key pair and another secret every time."""
    _, v, session, n = case
    env.reset()
    st.state(case)
    store, server = provider(v)
    seen = {}
    for i in range(n):
        q = op.base_query(v, 'associate')
        q.update({'openid.assoc_type': 'HMAC-' + session[3:], 'openid.session_type': session, 'openid.dh_consumer_public': PUBLIC})
        r = op.parse_kv(server.encodeResponse(server.handleRequest(server.decodeRequest(q))).body)
        for k in ('dh_server_public', 'enc_mac_key', 'assoc_handle'):
            if r[k] in seen.setdefault(k, set()) or r[k] in small():
                raise Bad('%s %r again' % (k, r[k]))
            seen[k].add(r[k])
        st.executions += 1
        st.transitions += 1
    st.outcome('repeated')


FN = dict(family=stream_family, history=history, exchanges=exchanges, repeated=repeated)


def one(case, st):
    st.sample(repr(case)[:300])
    try:
        FN[case[0]](case, st)
    except Bad as e:
        st.violation(repr(case).replace(' ', ''), str(e)[:600], repr(case))


def check(ctx):
    global PUBLIC
    PUBLIC = public_key()
    q = ctx.quick
    priors = (0, 1, 2) if q else range(8)
    n = 120 if q else 2000

    def cases():
        for src in sources():
            for k in priors:
                yield ('family', src, k)
            for s in range(2 if q else 8):
                yield ('history', src, n, s)
        for prefs in ([('HMAC-SHA1', 'DH-SHA1')], [('HMAC-SHA256', 'DH-SHA256')], [('HMAC-SHA256', 'DH-SHA256'), ('HMAC-SHA1', 'DH-SHA1')]):
            for reuse in ('none', 'server', 'consumer'):
                yield ('exchanges', tuple(prefs), reuse, 12 if q else 60)
        for v in (2, 1):
            for s in ('DH-SHA1', 'DH-SHA256'):
                if v == 2 or s == 'DH-SHA1':
                    yield ('repeated', v, s, 25 if q else 200)

    jobs = list(cases())
    ctx.bounds = {'sources of values': len(list(sources())), 'values issued before': max(priors), 'bytes varied': 'every byte drawn (up to 48), every value', 'history length': n}
    ctx.run(lambda: iter(jobs), one, shards=len(jobs))
