"""Provider scenarios: real Server over a recording store, with raw-query helpers (independent of the library's codecs)."""
import copy, html.parser
from lib import env, world
from lib.env import CLOCK, T0
from lib.world import NS1, NS11, NS2, IDSEL
from openid.server.server import Server
from openid.store.memstore import MemoryStore
from six.moves.urllib.parse import parse_qsl, urlsplit, urlencode

OP = 'http://op.example/server'
WEEK2 = 14 * 24 * 3600


class Recorder(object):
    """Forwards to a store and remembers every association ever stored."""

    def __init__(self, store):
        self.__dict__.update(_s=store, assocs={}, order=[])

    def storeAssociation(self, url, assoc):
        self.assocs[assoc.handle] = (assoc.secret, assoc.assoc_type, assoc.issued + assoc.lifetime)
        self.order.append(assoc.handle)
        return self._s.storeAssociation(url, assoc)

    def __getattr__(self, n):
        return getattr(self.__dict__['_s'], n)

    def __deepcopy__(self, memo):
        r = Recorder(copy.deepcopy(self._s, memo))
        r.assocs.update(self.assocs)
        r.order.extend(self.order)
        return r


def ns_of(version):
    return {2: NS2, 11: NS11, 10: NS1, 1: None}[version]


def base_query(version, mode):
    q = {'openid.mode': mode}
    if ns_of(version):
        q['openid.ns'] = ns_of(version)
    return q


class Form(html.parser.HTMLParser):
    """Reads the (single) form of a page."""

    def __init__(self):
        html.parser.HTMLParser.__init__(self, convert_charrefs=True)
        self.action = self.method = None
        self.fields = []
        self.forms = 0

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == 'form':
            self.forms += 1
            self.action, self.method = a.get('action'), (a.get('method') or '').lower()
            self.charset = a.get('accept-charset')
            self.enctype = a.get('enctype')
        elif tag == 'input' and a.get('name') is not None:
            self.fields.append((a['name'], a.get('value', '')))


def text(b):
    return b.decode('utf-8') if isinstance(b, bytes) else b


def parse_kv(body):
    return dict(l.split(':', 1) for l in text(body).split('\n') if l)


def delivered(resp, return_to):
    """How an indirect web response reaches the relying party: (kind, full list of query/body pairs, target url)."""
    if resp.code == 302:
        loc = text(resp.headers['location'])
        u = urlsplit(loc)
        return 'redirect', parse_qsl(u.query, keep_blank_values=True, strict_parsing=False), loc
    f = Form()
    f.feed(text(resp.body))
    if f.forms != 1:
        return 'none', [], None
    u = urlsplit(f.action)
    return 'form', parse_qsl(u.query, keep_blank_values=True) + f.fields, f.action


def openid_args(pairs):
    return {k: v for k, v in pairs if k.startswith('openid.')}


def sig_ok(q, key):
    return world.good_sig(q, key[0], key[1])
