"""A scripted web: discovery documents, OP endpoints and an independent assertion builder/signer."""
import base64, hashlib, hmac
from lib import env
from lib.env import CLOCK, T0
import time
from openid import fetchers
from openid.fetchers import HTTPResponse, HTTPFetchingError
from six.moves.urllib.parse import parse_qsl, urlencode, urlsplit

NS2 = 'http://specs.openid.net/auth/2.0'
NS1 = 'http://openid.net/signon/1.0'
NS11 = 'http://openid.net/signon/1.1'
SREG = 'http://openid.net/extensions/sreg/1.1'
SREG10 = 'http://openid.net/sreg/1.0'
IDSEL = 'http://specs.openid.net/auth/2.0/identifier_select'
T_SERVER = 'http://specs.openid.net/auth/2.0/server'
T_SIGNON = 'http://specs.openid.net/auth/2.0/signon'
T_11 = 'http://openid.net/signon/1.1'
T_10 = 'http://openid.net/signon/1.0'
XRDS_CT = 'application/xrds+xml'


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def service(types, uris, local_id=None, delegate=None, priority=None):
    out = ['<Service%s>' % ('' if priority is None else ' priority="%s"' % priority)]
    for t in types:
        out.append('<Type>%s</Type>' % esc(t))
    for u in uris:
        if isinstance(u, tuple):
            out.append('<URI priority="%s">%s</URI>' % (u[1], esc(u[0])))
        else:
            out.append('<URI>%s</URI>' % esc(u))
    if local_id is not None:
        out.append('<LocalID>%s</LocalID>' % esc(local_id))
    if delegate is not None:
        out.append('<openid:Delegate>%s</openid:Delegate>' % esc(delegate))
    out.append('</Service>')
    return ''.join(out)


def xrds(*services, **kw):
    return ('<?xml version="1.0" encoding="UTF-8"?>\n'
            '<xrds:XRDS xmlns:xrds="xri://$xrds" xmlns="xri://$xrd*($v*2.0)" '
            'xmlns:openid="http://openid.net/xmlns/1.0"><XRD>%s</XRD></xrds:XRDS>' % ''.join(services)).encode('utf-8')


class Net(object):
    """Fetcher: url -> handler(url, body, headers) or HTTPResponse or Exception. Everything else is 404."""

    def __init__(self):
        self.routes = {}
        self.log = []
        self.default = None        # handler for every other URL

    def install(self):
        fetchers.setDefaultFetcher(self, wrap_exceptions=True)
        return self

    def page(self, url, body, ctype='text/html', status=200, headers=None, final=None):
        if isinstance(body, str):
            body = body.encode('utf-8')
        h = {'content-type': ctype}
        h.update(headers or {})
        self.routes[url] = HTTPResponse(final or url, status, h, body)

    def fetch(self, url, body=None, headers=None):
        self.log.append((url, body))
        r = self.routes.get(url)
        if r is None:
            r = self.routes.get(url.split('#')[0])
        if r is None and self.default is not None:
            r = self.default(url, body, headers)
        if r is None:
            return HTTPResponse(url, 404, {'content-type': 'text/plain'}, b'not found')
        if isinstance(r, Exception):
            raise r
        if callable(r):
            r = r(url, body, headers)
            if isinstance(r, Exception):
                raise r
        return r


def kv(d):
    return ''.join('%s:%s\n' % (k, v) for k, v in d.items()).encode('utf-8')


def parse_body(body):
    if isinstance(body, bytes):
        body = body.decode('utf-8')
    return dict(parse_qsl(body, keep_blank_values=True))


HASH = {'HMAC-SHA1': hashlib.sha1, 'HMAC-SHA256': hashlib.sha256}


def sig_base(query, signed):
    """The bytes that are signed, written from the specification (key:value lines)."""
    return ''.join('%s:%s\n' % (f, query.get('openid.' + f, '')) for f in signed).encode('utf-8')


def sign(query, signed, secret, assoc_type):
    """Independent signer: sets openid.signed and openid.sig on a copy."""
    q = dict(query)
    q['openid.signed'] = ','.join(signed)
    mac = hmac.new(secret, sig_base(q, signed), HASH[assoc_type]).digest()
    q['openid.sig'] = base64.b64encode(mac).decode()
    return q


def good_sig(query, secret, assoc_type):
    signed = query.get('openid.signed', '').split(',')
    mac = hmac.new(secret, sig_base(query, signed), HASH[assoc_type]).digest()
    return base64.b64encode(mac).decode() == query.get('openid.sig')


def nonce_at(t, salt='abcdef'):
    return time.strftime('%Y-%m-%dT%H:%M:%SZ', time.gmtime(t)) + salt


def query_of(url):
    return dict(parse_qsl(urlsplit(url).query, keep_blank_values=True))
