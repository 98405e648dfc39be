"""C22: return URL verification over the product of realms, web answers, published addresses and return URLs."""
import itertools
from lib import sizes, env, world
from lib.urlmodel import U
from checks.c13 import mk, realm_model, covers, H
from openid.fetchers import HTTPResponse, HTTPFetchingError
from openid.server import trustroot
from openid.server.server import Server, ProtocolError
from openid.store.memstore import MemoryStore
from openid.yadis.discover import DiscoveryFailure

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of realm x web answer (documents, indirections, redirects, failures at either fetch) x published addresses x return URL, '
             'executed on the real code against a structural model of coverage and of the one address that may be asked')
NOTE = 'the model decides from the enumerated components; every combination is executed on the real discovery and matching code'
RULE = 'one execution = one verification; compared: result or kind of failure and the URLs fetched'
ASSUMPTIONS = ['fetchers report the final URL truthfully (C21)', 'user information in a URL is not part of the comparison']
RT = 'http://specs.openid.net/auth/2.0/return_to'
N = H('', None)
R = lambda s, h, p, path: mk(s, H(*h) if isinstance(h, tuple) else H(h, h.lower()), p, path)
P81 = H(':81', 81)
P80 = H(':80', 80)
REALMS = [R('http', 'rp.example', N, '/'), R('http', 'rp.example', N, '/app'), R('http', '*.rp.example', N, '/'), R('https', '*.rp.example', P81, '/app'), R('http', 'RP.example', P80, ''),
          R('http', 'rp.example', N, '/a/../app?x=y'), R('http', '*', N, '/'), R('http', 'rp.example', N, '/#f'), R('http', 'a.*.example', N, '/'), R('https', 'rp.example', N, '/app/'),
          R('http', '*.rp.example', P80, '/%61pp'), R('http', '*.rp.example', N, '/app?x=y'), R('http', '*.rp.example', P81, '/?x=y&z='), R('ftp', 'rp.example', N, '/'), R('http', ('*.\u03c0.example', '*.xn--1xa.example'), N, '/')]
ADDR = [R('http', 'rp.example', N, '/return'), R('http', 'rp.example', N, '/'), R('http', 'rp.example', N, '/ret'), R('http', 'rp.example', N, '/return/'), R('http', 'rp.example', N, '/return?a=b'), R('http', '*.rp.example', N, '/'),
        R('http', '*', N, '/'), R('https', 'rp.example', N, '/return'), R('http', 'rp.example', P81, '/return'), R('http', 'www.rp.example', N, '/return'), R('http', 'rp.example', N, '/return#f'), R('http', 'RP.Example', P80, '/x/../return'),
        R('http', 'evil.example', N, '/'), R('http', ('', None), N, '/return'), R('javascript', 'rp.example', N, '/'), R('http', 'rp.example', N, ''), R('http', '*.example', N, '/return'),
        R('http', 'p.example', N, '/'), R('http', 'rp.example', N, '/return?'), R('https', 'rp.example', P81, '/'), R('http', 'rp.example', N, '/%72eturn')]
RETS = [R('http', 'rp.example', N, '/return'), R('http', 'rp.example', N, '/return?a=b'), R('http', 'rp.example', N, '/return?a=bc'), R('http', 'rp.example', N, '/return?a=b&c=d'), R('http', 'rp.example', N, '/return/x'), R('http', 'rp.example', N, '/returnx'),
        R('https', 'rp.example', N, '/return'), R('http', 'rp.example', P81, '/return'), R('http', 'www.rp.example', N, '/return'), R('http', 'evil.example', N, '/return'), R('http', 'rp.example.evil.example', N, '/return'),
        R('http', 'RP.example', P80, '/return'), R('http', 'rp.example', N, '/../return'), R('http', 'rp.example', N, ''), R('http', '*.rp.example', N, '/return'), R('http', 'rp.example', N, '/return/../evil'), R('http', 'rp.example', N, '/return#x'), R('javascript', 'rp.example', N, '/return'),
        R('http', 'p.example', N, '/return')]
LOC = 'http://docs.example/xrds'


class Bad(Exception):
    pass


def doc(svcs, form='plain'):
    body = world.xrds(*[world.service(t, u, priority=p) for t, u, p in svcs])
    if form == 'two':       # another descriptor first: only the last one counts
        body = body.replace(b'<XRD>', b'<XRD>' + world.service([RT], ['http://rp.example/']).encode() + b'</XRD><XRD>', 1)
    return body


def publish(form, addrs):
    """Service list publishing the addresses in one of several forms: [(types, uris, priority)]; and the addresses that count."""
    t = [a.text() for a in addrs]
    if form == 'one':
        return [([RT], t, None)], addrs
    if form == 'each':
        return [([RT], [x], str(9 - i)) for i, x in enumerate(t)], addrs
    if form == 'mixed':
        return [([world.T_SERVER], ['http://rp.example/'], '0'), ([world.T_SIGNON, RT, 'urn:x'], t, '-')], addrs
    if form == 'other':     # not return URL services
        return [([world.T_SERVER], t, None), ([RT + '/'], t, None), (['http://specs.openid.net/auth/2.0/RETURN_TO'], t, None)], []
    if form == 'untyped':
        return [([], t, None), ([''], t, None), (['http://specs.openid.net/auth/2.0/return_t'], t, None)], []
    if form == 'none':
        return [], []
    raise KeyError(form)


ANSWERS = ['direct', 'direct-ct', 'two', 'header', 'meta', 'text', 'same-port', 'same-host', 'redirect-path', 'redirect-https', 'redirect-sub', 'redirect-evil', 'redirect-slash', 'redirect-query', 'header-redirected', 'header-moved',
           '404', '500', '204', 'fetch', 'broken', 'empty', 'html', 'noxrd', 'doc-404', 'doc-fetch', 'doc-broken', 'doc-html', 'loc-bad', 'notxrds']


def answer(kind, asked, body):
    """What the realm's URL and the document URL say: {url: response}, the expected class ('list', 'redirect', 'fail', 'fetch')."""
    ok = lambda b, ct=world.XRDS_CT, final=asked, st=200, h=None: HTTPResponse(final, st, dict({'content-type': ct}, **(h or {})), b)
    here = {'x-xrds-location': LOC}
    locdoc = HTTPResponse(LOC, 200, {'content-type': world.XRDS_CT}, body)
    scheme, rest = asked.split('://', 1)
    host, slash, path = rest.partition('/')
    if kind == 'direct':
        return {asked: ok(body)}, 'list'
    if kind == 'direct-ct':
        return {asked: ok(body, 'Application/XRDS+xml; charset=utf-8')}, 'list'
    if kind == 'two':
        return {asked: ok(body)}, 'list'
    if kind == 'header':
        return {asked: ok(b'<html>', 'text/html', h=here), LOC: locdoc}, 'list'
    if kind == 'meta':
        return {asked: ok(('<html><head><meta http-equiv="X-XRDS-Location" content="%s"></head></html>' % LOC).encode(), 'text/html'), LOC: locdoc}, 'list'
    if kind == 'text':
        return {asked: ok(body, 'text/plain')}, 'list?'
    if kind == 'same-port':
        h = host if ':' in host else host + ':' + ('443' if scheme == 'https' else '80')
        return {asked: ok(body, final='%s://%s/%s' % (scheme, h, path))}, 'list'
    if kind == 'same-host':
        return {asked: ok(body, final='%s://%s%s%s' % (scheme.upper(), host.upper(), slash, path))}, 'list'
    finals = {'redirect-path': '%s://%s/other' % (scheme, host), 'redirect-https': '%s://%s/%s' % ('http' if scheme == 'https' else 'https', host, path), 'redirect-sub': '%s://sub.%s/%s' % (scheme, host, path),
              'redirect-evil': 'http://evil.example/', 'redirect-slash': '%s://%s/%s//' % (scheme, host, path.split('?')[0]), 'redirect-query': asked + ('&' if '?' in asked else '?') + 'z=1'}
    if kind in finals:
        return {asked: ok(body, final=finals[kind])}, 'redirect'
    if kind == 'header-redirected':
        return {asked: ok(b'<html>', 'text/html', h=here, final='http://evil.example/'), LOC: locdoc}, 'redirect'
    if kind == 'header-moved':  # the document itself may be elsewhere
        return {asked: ok(b'<html>', 'text/html', h=here), LOC: HTTPResponse('http://moved.example/x', 200, {'content-type': world.XRDS_CT}, body)}, 'list'
    if kind in ('404', '500', '204'):
        return {asked: ok(body, st=int(kind))}, 'fail'
    if kind == 'fetch':
        return {asked: HTTPFetchingError('x')}, 'fetch'
    if kind == 'broken':
        return {asked: ok(body[:-9])}, 'fail'
    if kind == 'empty':
        return {asked: ok(b'')}, 'fail'
    if kind == 'html':
        return {asked: ok(b'<html><head></head><body>x</body></html>', 'text/html')}, 'fail'
    if kind == 'notxrds':
        return {asked: ok(b'<?xml version="1.0"?><a><b/></a>')}, 'fail'
    if kind == 'noxrd':
        return {asked: ok(b'<xrds:XRDS xmlns:xrds="xri://$xrds"></xrds:XRDS>')}, 'fail'
    if kind == 'doc-404':
        return {asked: ok(body, 'text/html', h=here), LOC: HTTPResponse(LOC, 404, {}, body)}, 'fail'
    if kind == 'doc-fetch':
        return {asked: ok(body, 'text/html', h=here), LOC: HTTPFetchingError('x')}, 'fetch'
    if kind == 'doc-broken':
        return {asked: ok(body, 'text/html', h=here), LOC: HTTPResponse(LOC, 200, {'content-type': world.XRDS_CT}, body[:-9])}, 'fail'
    if kind == 'doc-html':
        return {asked: ok(body, 'text/html', h=here), LOC: HTTPResponse(LOC, 200, {'content-type': 'text/html'}, b'<html></html>')}, 'fail'
    if kind == 'loc-bad':
        return {asked: ok(body, 'text/html', h={'x-xrds-location': 'http://[::1'}), 'http://[::1': HTTPFetchingError('bad url')}, 'fetch'
    raise KeyError(kind)


def asked_for(realm):
    """(canonical form of the one URL that may be asked about the realm) or None."""
    m = realm_model(realm)
    if m is None:
        return None
    sch, wild, host, port, path = m
    if wild and not host:
        return None
    return (sch, '', ('www.' if wild else '') + host, port, path)


def text_of(c):
    return '%s://%s%s%s' % (c[0], c[2], '' if c[3] is None else ':%d' % c[3], c[4])


def covered(addrs, ret):
    for a in addrs:
        m = realm_model(a)
        if m is not None and not m[1] and covers(m, ret.canon()):
            return True
    return False


def pick(table, i):
    """An entry of the table, or ('n', k): address number k, or ('long', n, k): an address of n characters, changed at k."""
    if isinstance(i, int):
        return table[i]
    if i[0] == 'n':
        return R('http', 'rp.example', N, '/p%dx' % i[1])
    return R('http', 'rp.example', N, '/' + sizes.text(i[1], i[2]).replace('~', 'Z'))


def big(quick):
    for n in sizes.counts(quick):
        if n < 2:
            continue
        for form in ('one', 'each', 'mixed'):
            yield (0, 'direct' if form == 'one' else 'header', form, tuple(('n', k) for k in range(n)), tuple(('n', k) for k in sizes.places(n) + [n, n * 10]))
    for n in sizes.lengths(quick):
        if not 2 < n <= (20000 if quick else 70000):
            continue
        yield (0, 'direct', 'one', (('long', n, None), 4), tuple(('long', n, k) for k in [None] + sizes.places(n)) + (('long', n - 1, None), ('long', n + 1, None)))


def one(case, st):
    ri, kind, form, ais, rets = case
    st.sample(repr(case)[:300])
    realm = REALMS[ri]
    svcs, count = publish(form, [pick(ADDR, i) for i in ais])
    body = doc(svcs, 'two' if kind == 'two' else 'plain')
    c = asked_for(realm)
    for qi in rets:
        ret = pick(RETS, qi)
        env.reset()
        net = world.Net().install()
        asked = []
        cls = 'false'
        if c is not None:
            # the URL asked may be spelled in any way: the script is keyed by what it means
            base = text_of(c)
            script, cls = answer(kind, base, body)

            def serve(url, b, headers, script=script, base=base, first=[True]):
                asked.append(url)
                if url in script and url != base:
                    return script[url]
                if same_url(url, realm, c):
                    return script[base]
                raise Bad('fetched %r, the realm is %r' % (url, realm.text()))
            net.default = serve
        else:
            def serve(url, b, headers):
                raise Bad('fetched %r for the realm %r, which has no address' % (url, realm.text()))
            net.default = serve
        want = False
        if cls in ('list', 'list?'):
            want = covered(count, ret)
        for via in ('function', 'request'):
            del asked[:]
            if via == 'function':
                f = lambda: trustroot.verifyReturnTo(realm.text(), ret.text())
            else:
                try:
                    req = Server(MemoryStore(), 'http://op.example/').decodeRequest({
                        'openid.ns': world.NS2, 'openid.mode': 'checkid_setup', 'openid.identity': 'http://user.example/', 'openid.claimed_id': 'http://user.example/',
                        'openid.return_to': ret.text(), 'openid.realm': realm.text()})
                except ProtocolError:
                    continue
                f = req.returnToVerified
            st.executions += 1
            st.transitions += 1 + len(asked)
            try:
                try:
                    r = f()
                except DiscoveryFailure:
                    r = 'fail'
                except HTTPFetchingError as e:
                    if isinstance(e.why, Bad):
                        raise e.why
                    r = 'fetch'
                if cls == 'fail' or cls == 'fetch':
                    if r not in ('fail', 'fetch', False):
                        raise Bad('result %r although discovery failed (%s)' % (r, kind))
                elif cls == 'list?':
                    if r not in (want, 'fail'):
                        raise Bad('result %r, expected %r or failure' % (r, want))
                elif r is not want:
                    raise Bad('result %r, expected %r' % (r, want))
            except Bad as e:
                st.violation(repr((ri, kind, form, ais, qi, via)), '%s: realm %s, return URL %s, published %s, answer %s' % (e, realm.text(), ret.text()[:300], [pick(ADDR, i).text()[:90] for i in ais][:9], kind), repr(case))
                continue
            st.outcome('%s:%s' % (kind if cls != 'list' else 'list', r))
        st.state((ri, kind, form, ais, qi))


def same_url(url, realm, c):
    """Does url denote the canonical address c?  Spellings allowed: the realm's own, and the canonical one."""
    if url == text_of(c):
        return True
    m = realm_model(realm)
    if m is not None and not m[1]:
        return url == realm.text() or url == realm.normal()
    # wildcard: same components
    from six.moves.urllib.parse import urlsplit
    try:
        p = urlsplit(url)
        port = p.port
    except ValueError:
        return False
    port = None if port == {'http': 80, 'https': 443}.get(p.scheme) else port
    path = p.path or '/'
    return (p.scheme, p.hostname, port) == (c[0], c[2], c[3]) and U('http', '', H('x', 'x'), N, path, p.query or None).canon()[4] == c[4]


def check(ctx):
    q = ctx.quick
    allrets = tuple(range(len(RETS)))

    def cases():
        singles = [(i,) for i in range(len(ADDR))]
        pairs = list(itertools.combinations(range(len(ADDR)), 2)) + [(12, 0), (6, 0), (13, 0), (5, 1)]
        for ri in range(len(REALMS)):
            for kind in ANSWERS:
                deep = kind in ('direct', 'header') if q else True
                for form in ('one', 'each', 'mixed', 'other', 'untyped'):
                    if not deep and form not in ('one', 'other') or form == 'untyped' and kind != 'direct':
                        continue
                    for a in singles:
                        yield (ri, kind, form, a, allrets)
                    if (deep and ri in (0, 2) and form in ('each', 'one')) if q else form not in ('other', 'untyped'):
                        for a in pairs:
                            yield (ri, kind, form, a, allrets)
                yield (ri, kind, 'none', (), allrets)
        for c in big(q):
            yield c

    ctx.bounds = {'published addresses, one by one': max(sizes.counts(q)), 'length of addresses': 20000 if q else 70000, 'realms': len(REALMS), 'web answers': len(ANSWERS), 'published addresses': '1-2 of %d' % len(ADDR), 'return urls': len(RETS)}
    ctx.run(cases, one)
