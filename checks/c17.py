"""C17: Yadis and HTML discovery over all combinations of web answers, against a model of the discovery rules."""
import itertools
from lib import sizes, env, world, urlmodel
from lib.world import T_SERVER, T_SIGNON, T_11, esc
from openid.consumer.consumer import Consumer
from openid.consumer.discover import discover, DiscoveryFailure, OpenIDServiceEndpoint
from openid.fetchers import HTTPResponse, HTTPFetchingError
from openid.yadis.discover import discover as yadis_discover

LEVEL = 'model_checking'
TECHNIQUE = ('bounded-exhaustive enumeration of web behaviours: first answer x located answer x second plain answer x faults x identifier forms, executed on the '
             'real discovery code behind a scripted fetcher, against a model of the Yadis/HTML discovery rules')
NOTE = 'the oracle works on the page structures the documents were generated from, not on their text'
RULE = 'one execution = one web behaviour and identifier; compared: services, claimed identifier or failure, and the URLs fetched'
ASSUMPTIONS = ['redirects are followed by the fetcher, which reports the final URL']
U = 'http://user.example/'
X = 'http://docs.example/xrds?u=1&v=2'
OP = 'http://op.example/'


class Page(object):
    """xrds: None (not a discovery document) or list of (types, uri, local); meta: None, '' or location; links: list of rel -> href"""

    def __init__(self, name, body, xrds=None, meta=None, links=()):
        self.name, self.body = name, body if isinstance(body, bytes) else body.encode('utf-8')
        self.xrds, self.meta, self.links = xrds, meta, dict(links)

    def yadis(self, claimed):
        return [(u, None if T_SERVER in t else (l or None), None if T_SERVER in t else claimed, tuple(t), True) for t, u, l in (self.xrds or [])]

    def html(self, claimed):
        out = []
        for t, rel, lrel in ((T_SIGNON, 'openid2.provider', 'openid2.local_id'), (T_11, 'openid.server', 'openid.delegate')):
            if self.links.get(rel):
                out.append((self.links[rel], self.links.get(lrel), claimed, (t,), False))
        return out


def html(head, body='', pre=''):
    return '%s<html><head>%s</head><body>%s</body></html>' % (pre, head, body)


def meta(loc, name='X-XRDS-Location'):
    return '<meta http-equiv="%s" content="%s">' % (name, esc(loc))


def link(rel, href):
    return '<link rel="%s" href="%s">' % (rel, esc(href))


L2 = link('openid2.provider', OP + '2?a=1&b=2')
L2L = L2 + link('openid2.local_id', OP + '~2')
L1 = link('openid.server', OP + '1')
L1L = L1 + link('openid.delegate', OP + '~1')
D2, D2L = {'openid2.provider': OP + '2?a=1&b=2'}, {'openid2.provider': OP + '2?a=1&b=2', 'openid2.local_id': OP + '~2'}
D1, D1L = {'openid.server': OP + '1'}, {'openid.server': OP + '1', 'openid.delegate': OP + '~1'}


def xdoc(svcs):
    out = []
    for i, (t, u, l) in enumerate(svcs):
        out.append(world.service(t, [u], local_id=l if T_SIGNON in t else None, delegate=l if T_11 in t else None, priority=i))
    return world.xrds(*out)


SX = [([T_SIGNON], OP + 'x', OP + '~x')]
SIDP = [([T_SERVER], OP + 'idp', None)]
S11 = [([T_11], OP + 'x1', None)]
SNONE = [(['http://example.com/other'], OP + 'other', None)]


def pages():
    x = lambda n, s: Page(n, xdoc(s), xrds=[r for r in s if r[0][0].startswith('http://spec') or T_11 in r[0]])
    P = {}
    for p in [x('xrds', SX), x('xrds-idp', SIDP), x('xrds-11', S11), x('xrds-none', SNONE),
              Page('html-meta', html(meta(X)), meta=X),
              Page('html-meta-links', html(L1L + meta(X) + L2), meta=X, links=dict(D1L, **D2)),
              Page('html-meta-other', html(meta('http://gone.example/m') + L2), meta='http://gone.example/m', links=D2),
              Page('html-meta-empty', html(meta('') + L2), meta='', links=D2),
              Page('html-2', html(L2), links=D2), Page('html-2l', html(L2L), links=D2L),
              Page('html-1', html(L1), links=D1), Page('html-1l', html(L1L), links=D1L),
              Page('html-both', html(L1L + L2L), links=dict(D1L, **D2L)),
              Page('html-plain', html('<title>hi</title>')), Page('empty', ''), Page('junk', b'\xff\xfe\x00<junk'), Page('text', 'just text')]:
        P[p.name] = p
    return P


PAGES = pages()


def forms():
    """Forms of one HTML page that all mean the same, or do not publish anything."""
    F = []
    add = lambda n, b, **k: F.append(Page('form:' + n, b, **k))
    for pre in ('', '<!DOCTYPE html>\n', '<?xml version="1.0" encoding="UTF-8"?>\n', '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">\n',
                '\n\n', '<!-- c -->'):
        add('meta pre %r' % pre, html(meta(X), pre=pre), meta=X)
        add('link pre %r' % pre, html(L2L, pre=pre), links=D2L)
    for n in ('x-xrds-location', 'X-XRDS-LOCATION', 'x-Xrds-Location'):
        add('meta name ' + n, html(meta(X, n)), meta=X)
    for n in ('X-YADIS-Location', 'X-XRDS-Locatio', 'XX-XRDS-Location', 'X-XRDS-Location2', 'Content-Type'):
        add('meta other name ' + n, html(meta(X, n)))
    add('meta twice', html(meta(X) + meta('http://second.example/')), meta=X)
    add('meta after others', html('<title>x</title><meta name="a" content="b">' + meta('http://no.example/', 'Refresh') + meta(X)), meta=X)
    add('meta in body', html('', meta('http://body.example/')))
    add('meta in head and body', html(meta(X), meta('http://body.example/')), meta=X)
    add('meta commented', html('<!-- ' + meta('http://no.example/') + ' -->'))
    add('meta in script', html('<script>var x = \'' + meta('http://no.example/') + '\';</script>'))
    add('meta without content', html('<meta http-equiv="X-XRDS-Location">'))
    add('meta name attribute', html('<meta name="X-XRDS-Location" content="http://no.example/">'))
    add('meta upper', html(meta(X)).replace('meta', 'META').replace('http-equiv', 'HTTP-EQUIV').replace('content=', 'CONTENT='), meta=X)
    add('meta single quotes', html("<meta content='%s' http-equiv='X-XRDS-Location' />" % esc(X)), meta=X)
    add('meta char refs', html('<meta http-equiv="X-XRDS-Location" content="%s">' % ''.join('&#x%x;' % ord(c) for c in X)), meta=X)
    add('meta unicode around', html('<title>\u017elu\u0165ou\u010dk\xfd</title>' + meta(X), '\u6f22'), meta=X)
    add('meta binary around', html(meta(X) + '<title>').encode() + b'\xff\xfe\xe9</title></head></html>', meta=X)
    add('head only', '<head>%s</head>' % meta(X), meta=X)
    add('unclosed', '<html><head>%s' % meta(X), meta=X)
    add('links unclosed', '<html><head>%s' % L1, links=D1)
    for rel in ('openid2.provider openid.server', 'openid.server openid2.provider', 'foo  openid.server\topenid2.provider bar', ' openid.server openid2.provider '):
        add('rel %r' % rel, html(link(rel, OP)), links={'openid2.provider': OP, 'openid.server': OP})
    add('rel local both', html(link('openid2.provider openid.server', OP) + link('openid.delegate openid2.local_id', OP + '~')),
        links={'openid2.provider': OP, 'openid.server': OP, 'openid.delegate': OP + '~', 'openid2.local_id': OP + '~'})
    for rel in ('openid.servers', 'xopenid.server', 'openid', 'openid.server.x', 'openid-server', ''):
        add('rel other %r' % rel, html(link(rel, OP)))
    add('links twice', html(L2 + link('openid2.provider', 'http://second.example/')), links=D2)
    add('local twice', html(L1L + link('openid.delegate', 'http://second.example/')), links=D1L)
    add('links in body', html('', L2L + L1L))
    add('link in head and body', html(L2L, link('openid.server', 'http://body.example/')), links=D2L)
    add('links commented', html('<!-- ' + L2L + ' -->'))
    add('link without href', html('<link rel="openid.server">'))
    add('link empty href', html('<link rel="openid.server" href="">'))
    add('delegate only', html(link('openid.delegate', OP)))
    add('link upper', html('<LINK REL="openid.server" HREF="%s">' % OP), links={'openid.server': OP})
    add('link swapped', html('<link href=\'%s\' title="x" rel=\'openid.server\' />' % OP), links={'openid.server': OP})
    add('a not link', html('<a rel="openid.server" href="http://no.example/">x</a>'))
    add('link char refs', html('<link rel="openid.server" href="http&#58;//op.example/?a=1&amp;b=&lt;2&gt;">'), links={'openid.server': 'http://op.example/?a=1&b=<2>'})
    add('link after unicode', html('<title>\u017e\u6f22</title>' + L1), links=D1)
    return F


class Web(object):
    """first: answer to requests that accept discovery documents; plain: answer to those that do not; located: answer at X"""

    def __init__(self, first, plain, located, final=None):
        self.first, self.plain, self.located, self.final = first, plain, located, final
        self.fetched = []
        self.net = world.Net()
        self.net.default = self.answer
        self.net.install()

    def answer(self, url, body, headers):
        headers = dict((k.lower(), v) for k, v in (headers or {}).items())
        acc = 'application/xrds+xml' in headers.get('accept', '')
        self.fetched.append((url, acc))
        a = None
        if url == X:
            a, final = self.located, None
        elif url == self.start or url == (self.final or '').split('#')[0]:
            a, final = (self.first if acc or self.plain == 'same' else self.plain), self.final
        if a is None:
            return HTTPResponse(url, 404, {}, b'none')
        if isinstance(a, Exception):
            raise a
        status, ctype, hdr, page = a
        h = {}
        if ctype is not None:
            h['content-type'] = ctype
        if hdr is not None:
            h['x-xrds-location'] = hdr
        return HTTPResponse(final or url, status, h, page.body)


def is_x(ctype):
    return (ctype or '').split(';')[0].lower() == 'application/xrds+xml'


def model(first, plain, located, start, final):
    """(kind, claimed raw, services, fetches) with kind in ok / failure"""
    fin = final or start
    fetched = [start]
    bad = ('failure', None, None, fetched)
    if isinstance(first, Exception) or first[0] not in (200, 206):
        return bad
    status, ctype, hdr, page = first
    loc = None
    if is_x(ctype):
        doc, as_x = page, True
    else:
        loc = hdr or page.meta
        if loc and loc != fin:
            fetched.append(loc)
            if loc != X or isinstance(located, Exception) or located is None or located[0] not in (200, 206):
                return bad
            doc, as_x = located[3], True
        else:
            doc, as_x = page, False
    sv = doc.yadis(fin)
    if sv:
        return ('ok', fin, sv, fetched)
    if as_x:
        second = first if plain == 'same' else plain
        fetched.append(start)
        if isinstance(second, Exception) or second[0] not in (200, 206):
            return bad
        return ('ok', fin, second[3].html(fin), fetched)
    return ('ok', fin, page.html(fin), fetched)


def flat(services):
    return [(s.server_url, s.local_id, s.claimed_id, tuple(s.type_uris), bool(s.used_yadis)) for s in services]


def rank(rows):
    order = [T_SERVER, T_SIGNON, T_11]
    return sorted(rows, key=lambda r: min(order.index(t) for t in r[3]))


def run_one(st, key, ident, start, first, plain, located, final=None, finalnorm=None):
    w = Web(first, plain, located, final)
    w.start = start
    st.executions += 1
    st.transitions += 1
    kind, raw, sv, fetched = model(first, plain, located, start, final)
    norm = finalnorm or raw
    want = 'failure' if kind == 'failure' else (norm, rank([(a, b, c and norm, d, e) for a, b, c, d, e in sv]))
    try:
        claimed, services = discover(ident)
        got = (claimed, flat(services))
    except (DiscoveryFailure, HTTPFetchingError):
        got = 'failure'
    if got != want:
        st.violation(key, 'discover(%r): got %r, expected %r' % (ident, got, want), [repr(first)[:300], repr(plain)[:200], repr(located)[:200], final])
    if [u for u, a in w.fetched] != fetched:
        st.violation(key, 'fetched %r, expected %r' % (w.fetched, fetched), key)
    elif not w.fetched[0][1]:
        st.violation(key, 'the first request does not accept discovery documents', key)
    # the same through the relying party: a request or a discovery failure
    st.transitions += 1
    w2 = Web(first, plain, located, final)
    w2.start = start
    try:
        req = Consumer({}, None).begin(ident)
        got2 = (req.endpoint.server_url, req.endpoint.local_id, req.endpoint.claimed_id)
    except DiscoveryFailure:
        got2 = 'failure'
    want2 = want[1][0][:3] if want != 'failure' and want[1] else 'failure'
    if got2 != want2:
        st.violation(key, 'begin(%r): got %r, expected %r' % (ident, got2, want2), key)
    st.outcome('failure' if want == 'failure' else 'services:%d' % len(want[1]))
    st.state((key, repr(want)))
    st.sample({'case': key, 'result': repr(want)[:200]}, every=4999)


FAULTS = [HTTPFetchingError('down'), ValueError('bad'), OSError('io'), HTTPResponse]


def yadis(case, st):
    _, pname, ctype, hdr = case
    page = PAGES[pname]
    start = U
    for final, fnorm in ((None, None), ('http://Other.Example', 'http://other.example/'), ('http://user.example/a/../b?x#frag', 'http://user.example/b?x=')):
        h = hdr if hdr != 'self' else (final or start)
        for plain in ('same', (200, 'text/html', None, PAGES['html-both']), (404, 'text/html', None, PAGES['html-2']), (200, 'text/html', 'http://ignored.example/', PAGES['html-meta-links']),
                      HTTPFetchingError('down'), OSError('io')):
            for located in LOCATED:
                key = 'y:%s:%s:%s:%s:%s:%s' % (pname, ctype, hdr, final, nm(plain), nm(located))
                uses = not is_x(ctype) and (h or page.meta) == X
                if located is not LOCATED[0] and not uses:
                    continue
                run_one(st, key, start, start, (200, ctype, h, page), plain, located, final, fnorm)


def nm(a):
    return a if isinstance(a, str) or a is None else repr(a) if isinstance(a, Exception) else '%s/%s/%s/%s' % (a[0], a[1], a[2], a[3].name)


LOCATED = [(200, 'application/xrds+xml', None, PAGES['xrds']), (200, 'text/plain', None, PAGES['xrds-11']), (200, 'application/xrds+xml', None, PAGES['xrds-none']),
           (200, 'application/xrds+xml', None, PAGES['junk']), (200, 'text/html', None, PAGES['html-both']), (200, 'text/html', X, PAGES['html-meta']),
           (206, None, None, PAGES['xrds-idp']), (404, 'application/xrds+xml', None, PAGES['xrds']), (500, None, None, PAGES['xrds']),
           (302, 'application/xrds+xml', None, PAGES['xrds']), HTTPFetchingError('down'), ValueError('bad'), OSError('io'), RuntimeError('odd')]
CTYPES = [None, '', 'text/html', 'application/xrds+xml', 'Application/XRDS+XML', 'application/xrds+xml; charset=utf-8', 'application/xrds+xml;q=1', 'application/xml', 'application/xhtml+xml',
          'text/html; charset=utf-8', 'application/xrds', 'xapplication/xrds+xml', 'text/html; application/xrds+xml', 'application/xrds+xmlx', 'application/xrds+xml.x; charset=utf-8', 'text/html;charset=application/xrds+xml']


def status(case, st):
    _, code, pname = case
    for ctype in ('text/html', 'application/xrds+xml'):
        for plain in ('same', (200, 'text/html', None, PAGES['html-both'])):
            run_one(st, 'status:%s:%s:%s:%s' % (code, pname, ctype, nm(plain)), U, U, code if isinstance(code, Exception) else (code, ctype, None, PAGES[pname]), plain, LOCATED[0])
    for loc in (200, 206):
        run_one(st, 'status2:%s:%s:%d' % (code, pname, loc), U, U, (loc, 'text/html', X, PAGES['html-2']), 'same',
                code if isinstance(code, Exception) else (code, None, None, PAGES[pname]))
        run_one(st, 'status3:%s:%s:%d' % (code, pname, loc), U, U, (loc, 'application/xrds+xml', None, PAGES['xrds-none']),
                code if isinstance(code, Exception) else (code, None, None, PAGES[pname]), LOCATED[0])


CHARSETS = ['utf-8', 'UTF-8', '"utf-8"', 'iso-8859-1', 'ascii', 'utf-16', 'bogus', '', 'hex', 'a\0b', 'idna', 'utf-8; x=y', 'unicode_escape', 'rot13', '\u017e']


def form(case, st):
    _, i = case
    page = FORMS[i]
    for cs in CHARSETS if i % 4 == 0 else ['utf-8', 'bogus']:
        if page.body.count(b'\xff') and cs in ('iso-8859-1', 'unicode_escape'):
            pass
        ctype = 'text/html; charset=' + cs
        if cs in ('utf-16', 'unicode_escape') or (cs == 'utf-8; x=y'):
            # the page does not have this encoding: only totality
            total(st, 'form:%s:%s' % (page.name, cs), (200, ctype, None, page))
            continue
        run_one(st, 'form:%s:%s' % (page.name, cs), U, U, (200, ctype, None, page), 'same', LOCATED[0])
    for ctype in (None, 'text/html', 'application/xhtml+xml'):
        run_one(st, 'form:%s:%s' % (page.name, ctype), U, U, (200, ctype, None, page), 'same', LOCATED[0])
        run_one(st, 'form:%s:%s:hdr' % (page.name, ctype), U, U, (200, ctype, X, page), 'same', LOCATED[1])
        run_one(st, 'form:%s:%s:fallback' % (page.name, ctype), U, U, (200, ctype, X, PAGES['html-meta']), (200, ctype, None, page), LOCATED[2])


FORMS = forms()
ENCODED = [('utf-16', 'utf-16'), ('utf-16-le', 'utf-16-le'), ('UTF-16BE', 'utf-16-be'), ('utf-32', 'utf-32'), ('cp037', 'cp037')]


def encoded(case, st):
    """Pages in encodings in which the tag cannot be read as ASCII: the content type tells."""
    _, label, codec = case
    page = Page('enc:' + codec, html('<title>\xe9</title>' + meta(X)).encode(codec), meta=X)
    for ctype in ('text/html; charset=%s', 'text/html;charset=%s', 'text/html ;  charset=%s ', 'text/html; x=y; charset=%s', 'application/xhtml+xml; charset=%s'):
        run_one(st, 'enc:%s:%s' % (ctype, label), U, U, (200, ctype % label, None, page), 'same', LOCATED[0])


def size(case, st):
    """Pages of every size: what is published comes after much else, or is itself long."""
    _, what, n = case
    t = sizes.text(n)
    P = []
    add = lambda name, body, **k: P.append(Page('size:%s:%d:%s' % (what, n, name), body, **k))
    if what == 'before':
        for name, pad in (('comment', '<!-- %s -->' % t), ('title', '<title>%s</title>' % t), ('style', '<style>%s</style>' % t), ('spaces', ' ' * n)):
            add('meta ' + name, html(pad + meta(X)), meta=X)
            add('links ' + name, html(pad + L1L + pad + L2L), links=dict(D1L, **D2L))
        add('pre', html(meta(X), pre='\n' * n), meta=X)
        add('pre links', html(L2L, pre='<!--%s-->' % t), links=D2L)
    elif what == 'after':
        add('meta', html(meta(X), t), meta=X)
        add('links', html(L2L, t), links=D2L)
    elif what == 'tags':
        others = ''.join('<meta name="n%d" content="http://no.example/%d">%s' % (i, i, link('alternate', 'http://no.example/')) for i in range(n))
        add('meta', html(others + meta(X)), meta=X)
        add('links', html(others + L1L + others + L2L), links=dict(D1L, **D2L))
        add('body', html(others, meta('http://body.example/') * n + L2L))
    elif what == 'rel':
        rel = ' '.join('r%d' % i for i in range(n))
        add('rel', html(link(rel + ' openid2.provider', OP) + link('openid2.local_id ' + rel, OP + '~')), links={'openid2.provider': OP, 'openid2.local_id': OP + '~'})
    elif what == 'attrs':
        a = ' '.join('data-a%d="%d"' % (i, i) for i in range(n))
        add('meta', html('<meta %s http-equiv="X-XRDS-Location" content="%s">' % (a, esc(X))), meta=X)
        add('link', html('<link %s rel="openid.server" href="%s">' % (a, OP)), links={'openid.server': OP})
    elif what == 'location':
        for u in ('http://gone.example/' + t, 'http://gone.example/?q=' + t):
            add('meta ' + u[20:22], html(meta(u) + L2), meta=u, links=D2)
            run_one(st, 'size:location:%d:%s:hdr' % (n, u[20:22]), U, U, (200, 'text/html', u, PAGES['html-2']), 'same', LOCATED[0])
            run_one(st, 'size:location:%d:%s:both' % (n, u[20:22]), U, U, (200, 'text/html', u, PAGES['html-meta-links']), 'same', LOCATED[0])
    elif what == 'href':
        add('href', html(link('openid2.provider', OP + t) + link('openid2.local_id', OP + '?l=' + t)), links={'openid2.provider': OP + t, 'openid2.local_id': OP + '?l=' + t})
    for p in P:
        for ctype in ('text/html', 'text/html; charset=utf-8') if n < 3000 else ('text/html',):
            run_one(st, p.name + ctype, U, U, (200, ctype, None, p), 'same', LOCATED[0])
        if what in ('before', 'tags', 'location', 'href'):
            run_one(st, p.name + ':fallback', U, U, (200, 'text/html', X, PAGES['html-meta']), (200, 'text/html', None, p), LOCATED[2])


def total(st, key, first):
    w = Web(first, 'same', LOCATED[0])
    w.start = U
    st.executions += 1
    st.transitions += 1
    try:
        discover(U)
        st.outcome('total')
    except (DiscoveryFailure, HTTPFetchingError):
        st.outcome('failure')
    st.state(key)


def damage(case, st):
    """Every truncation / deleted byte / changed byte of a page: only the documented outcomes, and never a service that is not published."""
    _, which, pos = case
    page = (DAMAGED + FORMS)[which]
    for kind in ('cut', 'del', '<', '>', '"', '\0', '\xff', '&', '/'):
        b = page.body
        b = b[:pos] if kind == 'cut' else b[:pos] + b[pos + 1:] if kind == 'del' else b[:pos] + kind.encode('latin-1') + b[pos + 1:]
        w = Web((200, 'text/html', None, Page('d', b)), 'same', LOCATED[0])
        w.start = U
        st.executions += 1
        st.transitions += 1
        key = 'damage:%d:%d:%s' % (which, pos, kind)
        try:
            claimed, services = discover(U)
            if claimed != U:
                st.violation(key, 'claimed %r' % claimed, b.decode('latin-1'))
            for s in services:
                # every address must stand in the page (or in the document it points to)
                if s.server_url.split('?')[0].split('&')[0].encode() not in b and s.server_url != OP + 'x':
                    if (kind in ('cut', 'del') and b'&#' not in page.body) or len(s.server_url) > len(OP) + 100:
                        st.violation(key, 'service %r is not in the page' % s.server_url, b.decode('latin-1'))
            st.outcome('damaged:services' if services else 'damaged:none')
        except (DiscoveryFailure, HTTPFetchingError):
            st.outcome('damaged:failure')
        st.state(key)


DAMAGED = [PAGES['html-both'], PAGES['html-meta-links'], PAGES['xrds']]


IDENTS = [('http://user.example/', U), ('user.example', U), ('HTTP://USER.Example', U), ('http://user.example:80/', U), ('http://user.example/#me', U), ('user.example/#me', U),
          ('http://user.example', U), ('https://user.example', 'https://user.example/'), ('user.example/a/../b', 'http://user.example/b'),
          ('user.example?q=1', 'http://user.example/?q=1'), ('http://user.example/%7euser', 'http://user.example/~user'), ('user.example:8080', 'http://user.example:8080/'),
          ('http://user.example:443/', 'http://user.example:443/'), ('https://user.example:443/x', 'https://user.example/x')]
NOIDENT = ['ftp://user.example/', 'javascript://user.example/', 'file:///etc/passwd', 'file://localhost/etc/passwd', 'data:text/html,x', 'http://', 'http:///', 'https://', 'http:',
           '', '/', '//', '?', '#', 'http://user.example:port/', 'http://%zz/', 'http://[::1', 'http://user.example:99999999/', 'xri:', 'http://\x00/', 'http://a b/', ' ', '\u017e',
           'http://\u017e.example/', 'user@', '@', '=', '!', 'xri://', 'mailto:user@user.example', 'ldap://user.example/x', 'HTTP:user.example', 'http//user.example',
           'http://user.example/%', '.', '..', '*', 'a' * 300, 'http://' + 'a' * 300 + '/', 'gopher://user.example:70/', 'http://]/', 'http://user.example]/']


def idents(case, st):
    _, ident, start = case
    if start is not None:
        for page, ct in ((PAGES['xrds'], 'application/xrds+xml'), (PAGES['html-2l'], 'text/html'), (PAGES['html-meta'], 'text/html'), (PAGES['empty'], None)):
            run_one(st, 'ident:%s:%s' % (ident, page.name), ident, start, (200, ct, None, page), 'same', LOCATED[0])
        return
    # malformed or foreign: the documented failure or a lookup of an http(s) URL, nothing else
    for how in ('discover', 'begin'):
        w = Web(None, 'same', None)
        w.start = 'nothing'
        st.executions += 1
        st.transitions += 1
        try:
            if how == 'discover':
                claimed, services = discover(ident)
                if services:
                    st.violation('noident:%r' % ident, 'services %r for %r' % (flat(services), ident), ident)
            else:
                Consumer({}, None).begin(ident)
                st.violation('noident:%r' % ident, 'begin succeeded for %r' % ident, ident)
        except DiscoveryFailure:
            pass
        except HTTPFetchingError:
            if how == 'begin':
                raise
        for u, a in w.fetched:
            if not (u.startswith('http://') or u.startswith('https://')):
                st.violation('noident:%r' % ident, 'fetched %r for %r' % (u, ident), ident)
        st.outcome('no identifier')
        st.state((ident, how))


def results(case, st):
    """What Yadis discovery reports about where the document came from."""
    _, pname, ctype, hdr = case
    page = PAGES[pname]
    loc = None if is_x(ctype) else (hdr or page.meta)
    if loc and loc not in (U, X):
        return              # the located document is unreachable: covered by the 'yadis' cases
    w = Web((200, ctype, hdr, page), 'same', LOCATED[0])
    w.start = U
    st.executions += 1
    st.transitions += 1
    r = yadis_discover(U)
    used = bool(loc) and loc != U
    want = (U, X if used else U if is_x(ctype) else loc or None, used or is_x(ctype), PAGES['xrds'].body if used else page.body, 'application/xrds+xml' if used else ctype)
    got = (r.normalized_uri, r.xrds_uri or None, r.isXRDS(), r.response_text, r.content_type)
    if got != want or r.request_uri != U:
        st.violation('result:%s:%s:%s' % (pname, ctype, hdr), 'result %r, expected %r' % (got, want), pname)
    via = [(s.server_url, s.local_id, tuple(s.type_uris)) for s in OpenIDServiceEndpoint.fromDiscoveryResult(r)] if (used or is_x(ctype)) and (used or page.xrds is not None) else None
    if via is not None:
        wantv = [(a, b, d) for a, b, c, d, e in (PAGES['xrds'] if used else page).yadis(U)]
        if via != wantv:
            st.violation('result:%s:%s:%s' % (pname, ctype, hdr), 'fromDiscoveryResult gave %r, expected %r' % (via, wantv), pname)
    st.outcome('result')
    st.state((pname, ctype, hdr))


def check(ctx):
    q = ctx.quick
    ctypes = CTYPES
    hdrs = [None, '', 'self', X, 'http://gone.example/']
    ctx.bounds = {'size of pages and locations': 'up to %d characters' % (70000 if q else 300000), 'tags, attributes and rel values': max(sizes.counts(q)), 'pages': len(PAGES), 'content types': len(ctypes), 'location header': hdrs, 'located answers': len(LOCATED), 'page forms': len(FORMS),
                  'identifiers': len(IDENTS) + len(NOIDENT), 'redirects': 3}

    def cases():
        for p in PAGES:
            for c in ctypes:
                for h in hdrs:
                    yield ('yadis', p, c, h)
                    if h in (None, '', X):
                        yield ('results', p, c, h)
        for code in [200, 206, 201, 204, 203, 301, 302, 304, 400, 401, 404, 500, 503, 0, None, HTTPFetchingError('x'), ValueError('x'), OSError('x'), KeyError('x')]:
            for p in ('xrds', 'html-2', 'html-meta', 'junk'):
                yield ('status', code, p)
        for i in range(len(FORMS)):
            yield ('form', i)
        for n, p in enumerate(DAMAGED if q else DAMAGED + FORMS):
            for i in range(len(p.body)):
                yield ('damage', n, i)
        for n in sizes.lengths(q):
            if n <= (70000 if q else 300000):
                for w in ('before', 'after', 'location', 'href'):
                    yield ('size', w, n)
        for n in sizes.counts(q):
            for w in ('tags', 'rel', 'attrs'):
                yield ('size', w, n)
        for label, codec in ENCODED:
            yield ('encoded', label, codec)
        for i, s in IDENTS:
            yield ('idents', i, s)
        for i in NOIDENT:
            yield ('idents', i, None)
    fns = {'size': size, 'yadis': yadis, 'status': status, 'form': form, 'damage': damage, 'idents': idents, 'results': results, 'encoded': encoded}
    ctx.run(cases, lambda c, st: fns[c[0]](c, st))
