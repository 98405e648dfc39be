"""A real relying party and a real provider joined by a scripted wire (no code of one side sees the other's objects)."""
import copy
from lib import env, world, op
from lib.env import CLOCK, T0
from lib.world import T_11, T_10, T_SIGNON, T_SERVER
from openid.association import SessionNegotiator
from openid.consumer.consumer import Consumer
from openid.fetchers import HTTPResponse
from openid.server.server import Server, ProtocolError
from openid.store.memstore import MemoryStore
from six.moves.urllib.parse import parse_qsl, urlsplit, urlencode

USER = 'http://user.example/'
OPURL = 'http://op.example/server'
REALM = 'http://rp.example/'
RETURN = 'http://rp.example/return'


class Pair(object):
    """version: 2, 11 or 10 (service type published); rp_store: a store or None (stateless)."""

    def __init__(self, version=2, rp_store='memory', op_store=None, rp_prefs=None, op_prefs=None, reset=True):
        if reset:
            env.reset()
        self.version = version
        self.net = world.Net().install()
        self.rp_store = MemoryStore() if rp_store == 'memory' else rp_store
        self.op_store = op.Recorder(MemoryStore() if op_store is None else op_store)
        self.server = Server(self.op_store, OPURL)
        if op_prefs is not None:
            self.server.negotiator = SessionNegotiator(list(op_prefs))
        self.rp_prefs = rp_prefs
        self.session = {}
        self.net.routes[OPURL] = self.op_direct
        types = {2: [T_SIGNON], 11: [T_11], 10: [T_10]}[version]
        self.net.page(USER, world.xrds(world.service(types, [OPURL])), ctype=world.XRDS_CT)

    def op_direct(self, url, body, headers):
        web = self.op_web(world.parse_body(body))
        return HTTPResponse(url, web.code, {'content-type': 'text/plain'}, op.text(web.body).encode('utf-8'))

    def op_web(self, q):
        """Direct request through the public interface of the provider."""
        try:
            return self.server.encodeResponse(self.server.handleRequest(self.server.decodeRequest(q)))
        except ProtocolError as e:
            return self.server.encodeResponse(e)

    def consumer(self):
        c = Consumer(self.session, self.rp_store)
        if self.rp_prefs is not None:
            c.setAssociationPreference(self.rp_prefs)
        return c

    def send(self, auth, realm=REALM, return_to=RETURN, immediate=False, transport='redirect'):
        """The request as it arrives at the provider: query dict."""
        if transport == 'redirect':
            url = auth.redirectURL(realm, return_to, immediate=immediate)
            return dict(parse_qsl(urlsplit(url).query, keep_blank_values=True, strict_parsing=True)), url.split('?')[0]
        f = op.Form()
        f.feed(op.text(auth.htmlMarkup(realm, return_to, immediate=immediate)))
        assert f.forms == 1 and f.method == 'post', (f.forms, f.method)
        return dict([(k, v) for k, v in f.fields]), f.action

    def receive(self, resp):
        """The provider's answer as it arrives at the relying party: (query dict, current url)."""
        web = self.server.encodeResponse(resp)
        kind, pairs, target = op.delivered(web, None)
        assert kind != 'none', 'the provider sent no message: %r' % (web.code,)
        return dict(pairs), target
