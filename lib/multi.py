"""A small world with several OP endpoints, for histories of presented assertions."""
from lib import env, world, rp
from lib.world import NS2, NS11, T_SIGNON, T_11
from lib.env import CLOCK, T0
from openid.association import Association
from openid.consumer.consumer import Consumer
from six.moves.urllib.parse import quote_plus

RET = 'http://rp.example/ret'
KEYLEN = 20


class Multi(object):
    def __init__(self, endpoints, store, version=2, direct=False, life=10 ** 8):
        """direct: no association is stored, the OP confirms by direct verification."""
        self.endpoints = endpoints
        self.store = store
        self.version = version
        self.direct = direct
        self.net = world.Net().install()
        t = [T_SIGNON] if version == 2 else [T_11]
        for i, e in enumerate(endpoints):
            self.net.page(self.user(i), world.xrds(world.service(t, [e])), ctype=world.XRDS_CT)
            self.net.routes[e] = self._op
            if store is not None and not direct:
                store.storeAssociation(e, Association('h', self.key(i), T0, life, 'HMAC-SHA1'))

    def user(self, i):
        return 'http://u%d.example/' % i

    def key(self, i):
        return bytes([i + 1]) * KEYLEN

    def _op(self, url, body, headers):
        from openid.fetchers import HTTPResponse
        q = world.parse_body(body)
        i = self.endpoints.index(url)
        q['openid.mode'] = 'id_res'
        ok = world.good_sig(q, self.key(i), 'HMAC-SHA1')
        ns = {'ns': NS2} if self.version == 2 else {}
        return HTTPResponse(url, 200, {}, world.kv(dict(ns, is_valid='true' if ok else 'false')))

    def assertion(self, i, nonce):
        """(query) of a genuine assertion; nonce None leaves it out."""
        u = self.user(i)
        q = {'openid.mode': 'id_res', 'openid.identity': u, 'openid.assoc_handle': 'h'}
        signed = ['mode', 'identity', 'assoc_handle', 'return_to']
        if self.version == 2:
            q.update({'openid.ns': NS2, 'openid.claimed_id': u, 'openid.op_endpoint': self.endpoints[i],
                      'openid.return_to': RET})
            signed += ['claimed_id', 'op_endpoint']
            if nonce is not None:
                q['openid.response_nonce'] = nonce
                signed.append('response_nonce')
            bare = {}
        else:
            bare = {'openid1_claimed_id': u}
            if nonce is not None:
                bare['janrain_nonce'] = nonce
            q['openid.return_to'] = RET + '?' + '&'.join('%s=%s' % (k, quote_plus(v.encode('utf-8')))
                                                         for k, v in sorted(bare.items()))
        q = world.sign(q, signed, self.key(i), 'HMAC-SHA1')
        q.update(bare)
        return q

    def present(self, q, session=None):
        self.net.install()
        return Consumer({} if session is None else session, self.store).complete(dict(q), RET)
