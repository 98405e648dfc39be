"""C26: an XRI is claimed only as the canonical identifier along an authoritative chain.

chain    every chain of XRDs up to the bound, the CanonicalID of each being any of the enumerated relations to its
         parent (direct child, case changed, prefixed, grandchild, sibling, no '!', other root, empty, missing), for
         every kind of i-name; run through the real discovery with a proxy resolver answering with that chain
answers  every combination of answers to the four service-type queries the resolver makes
forms    every short XRI over an alphabet of special characters: normal form and query URL against a character-wise model
"""
import itertools
from lib import sizes, env, world
from lib.world import T_SERVER, T_SIGNON, T_11, T_10, XRDS_CT, service
from openid.consumer.consumer import Consumer
from openid.consumer.discover import discover, DiscoveryFailure
from openid.fetchers import HTTPResponse, HTTPFetchingError
from openid.yadis import xri, xrires
from six.moves.urllib.parse import unquote, urlsplit, parse_qs

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of XRD chains, resolver answer combinations and XRI strings, each executed on the real '
             'discovery against an independent model of the authority chain')
NOTE = 'every enumerated chain, answer combination and string executed on the real code; results compared with the model'
RULE = ('exhaustive: every i-name x every chain of XRDs (1..n) over the CanonicalID relations; every combination of '
        'the four answers of the proxy resolver; every XRI string up to the length bound over the alphabet. Each '
        'executed on the real discovery with a scripted fetcher and compared with an independent walk of the chain')
ASSUMPTIONS = ['the proxy resolver is reached over a faithful network; its answers are the adversary',
               'nested cross-references and fragments in XRIs are outside the checked forms']
PROXY = 'http://proxy.xri.net/'
TYPES = (T_SERVER, T_SIGNON, T_11, T_10)
HEAD = ('<?xml version="1.0" encoding="UTF-8"?>\n<xrds:XRDS xmlns:xrds="xri://$xrds" xmlns="xri://$xrd*($v*2.0)" '
        'xmlns:openid="http://openid.net/xmlns/1.0">')


def doc(cids, *services):
    out = [HEAD]
    for n, c in enumerate(cids):
        out.append('<XRD>')
        if c is not None:
            out.append('<CanonicalID>%s</CanonicalID>' % world.esc(c))
        if n == len(cids) - 1:
            out.extend(services)
        else:
            out.append(service([T_SIGNON], ['http://parent%d.example/op' % n]))
        out.append('</XRD>')
    out.append('</xrds:XRDS>')
    return ''.join(out).encode('utf-8')


# ---------------------------------------------------------------- the model
def strip(x):
    return x[6:] if x.startswith('xri://') else x


def root_of(iname):
    """Root authority of an XRI, or None when it has none."""
    s = strip(iname)
    if not s or s[0] == '/':
        return None
    if s[0] == '(':
        return s[:s.index(')') + 1] if ')' in s else None
    if s[0] in '=@+$!':
        return s[0]
    a = s.split('/')[0]
    for ch in '!*':
        a = a.split(ch)[0]
    return a


def verdict(iname, cids):
    """The canonical identifier the chain proves, or None."""
    parent = root_of(iname)
    if parent is None:
        return None
    for c in cids:
        if not c:
            return None
        k = strip(c).lower()
        head, bang, seg = k.rpartition('!')
        if not bang or head != parent.lower():
            return None
        parent = k
    return 'xri://' + strip(cids[-1])


INAMES = ['=a', '@a*b', 'xri://@a', '=a/p', 'xri://=a*b*c', '!!1', '+a', '$a', '(x.com)*a', '(X.Com)*a',
          'xri://(http://x.com/p)*a', 'xri://example.com/p', '=a?q', '@!1!2', '(a', 'xri://', '(', 'xri:///a', '=', 'xri://(', '(=a)*(b)', '(=a)/(+b)', '@a*(b)', '=a!(x)',
          'xri://example.com*bob', 'xri://example.com!7/p', 'xri://Ex.com*b*c!d?q', 'xri://example.com']
KINDS = ('child', 'CHILD', 'xri', 'grand', 'nobang', 'self', 'otherroot', 'stranger', 'prefix', 'star', 'empty', 'missing', 'whole')


def cid(kind, parent, root, n, iname=''):
    """A CanonicalID in the given relation to its parent."""
    return {'child': parent + '!a%d' % n, 'CHILD': (parent + '!a%d' % n).upper(), 'xri': 'xri://' + parent + '!a%d' % n,
            'grand': parent + '!a%d!b' % n, 'nobang': parent.replace('!', '*') + 'a', 'self': parent,
            'otherroot': ('@' if root != '@' else '=') + parent[len(root):] + '!a%d' % n,
            'stranger': root + '!zz!a%d' % n, 'prefix': parent + 'x!a%d' % n, 'star': parent + '*x!a%d' % n,
            'empty': '', 'missing': None, 'whole': strip(iname).split('/')[0].split('?')[0] + '!a%d' % n}[kind]


class Proxy(object):
    """answer(type) -> HTTPResponse, exception or None (404)."""

    def __init__(self, answer):
        self.net = world.Net()
        self.net.default = self.handle
        self.answer = answer
        self.net.install()
        self.queries = []

    def handle(self, url, body, headers):
        if not url.startswith(PROXY):
            return None
        q = parse_qs(urlsplit(url).query)
        t = q.get('_xrd_t', [None])[0]
        self.queries.append((url, t))
        r = self.answer(t)
        if isinstance(r, bytes):
            r = HTTPResponse(url, 200, {'content-type': XRDS_CT}, r)
        if isinstance(r, tuple):
            r = HTTPResponse(url, r[0], {'content-type': XRDS_CT}, r[1])
        if isinstance(r, Exception):
            raise r
        return r


def chain_case(case, st):
    iname, kinds = case[1], case[2]
    if case[0] == 'long':       # (iname, length, place of the odd one, its kind)
        kinds = ['child'] * kinds
        if case[3] is not None:
            kinds[case[3]] = case[4]
    root = root_of(iname) or '='
    parent, cids = root, []
    for n, k in enumerate(kinds):
        c = cid(k, parent, root, n, iname)
        cids.append(c)
        parent = strip(c) if c else parent + '!a%d' % n
    want = verdict(iname, cids)
    body = doc(cids, service([T_SIGNON, T_11], ['http://op.example/op']))
    env.reset()
    Proxy(lambda t: body)
    st.executions += 1
    st.transitions += len(kinds)
    st.state(case)
    try:
        _, eps = discover(iname)
    except DiscoveryFailure:
        eps = []
    except Exception as e:
        st.violation(repr(case), 'discovery of %r with CanonicalIDs %r raised %s: %s' % (iname, cids, type(e).__name__, e), None)
        return
    got = sorted(set((e.claimed_id, e.canonicalID) for e in eps))
    if want is None and eps:
        st.violation(repr(case), 'i-name %r, CanonicalIDs %r: the chain proves nothing, but claimed %r' % (iname, cids, got), None)
    elif want is not None and (got != [(want, want)] or set(e.server_url for e in eps) != {'http://op.example/op'}):
        st.violation(repr(case), 'i-name %r, CanonicalIDs %r: expected %r, got %r at %r' % (
            iname, cids, want, got, [e.server_url for e in eps]), None)
    st.outcome('chain proves' if want else 'chain refused')
    # the same through the consumer: only DiscoveryFailure
    env.reset()
    Proxy(lambda t: body)
    try:
        req = Consumer({}, None).begin(iname)
        c = req.endpoint.claimed_id
    except DiscoveryFailure:
        c = None
    except Exception as e:
        st.violation(repr(case), 'begin(%r) with CanonicalIDs %r raised %s: %s' % (iname, cids, type(e).__name__, e), None)
        return
    if c != want:
        st.violation(repr(case), 'begin(%r) with CanonicalIDs %r claims %r, expected %r' % (iname, cids, c, want), None)
    st.sample({'iname': iname, 'cids': cids, 'claimed': c})


ANS = ('d1', 'd2', '404', 'empty1', 'empty2', 'nocanon', 'fraud', 'broken', 'fail', '206', 'd1long', '500')
CANON = {'d1': '=!1', 'd2': '=!2', '206': '=!1', 'd1long': '=!1'}


def answer(kind, t):
    svc = service([t], ['http://%s.example/%d' % (kind, TYPES.index(t))])
    if kind in ('d1', 'd2', '206'):
        d = doc([CANON[kind]], svc)
        return (206, d) if kind == '206' else d
    if kind == 'd1long':
        # no service endpoint selection: the document also lists the services of the other types
        return doc(['=!1'], *[service([x], ['http://d1long.example/%d' % TYPES.index(x)]) for x in TYPES])
    if kind == '404':
        return (404, b'no')
    if kind == '500':
        return (500, doc(['=!1'], svc))
    if kind == 'empty1':
        return doc(['=!1'])
    if kind == 'empty2':
        return doc(['=!2'])
    if kind == 'nocanon':
        return doc([None], svc)
    if kind == 'fraud':
        return doc(['@!1'], svc)
    if kind == 'broken':
        return b'<xrds'
    return HTTPFetchingError('down')


def answers_case(case, st):
    kinds = case[1]
    env.reset()
    p = Proxy(lambda t: answer(kinds[TYPES.index(t)], t) if t in TYPES else (404, b'no'))
    st.executions += 1
    st.transitions += 4
    st.state(case)
    try:
        _, eps = discover('=user')
    except (DiscoveryFailure, HTTPFetchingError):
        eps = []
    except Exception as e:
        st.violation(repr(case), 'answers %r: %s: %s' % (kinds, type(e).__name__, e), None)
        return
    for url, t in p.queries:
        u = urlsplit(url)
        if u.scheme + '://' + u.netloc + '/' != PROXY or unquote(u.path) != '/=user':
            st.violation(repr(case), 'query %r' % url, None)
    for e in eps:
        kind = urlsplit(e.server_url).netloc.split('.')[0]
        if e.claimed_id != 'xri://' + CANON.get(kind, '?') or e.canonicalID != e.claimed_id:
            st.violation(repr(case), 'answers %r: service %s, whose document names %r, is attributed to %r' % (
                kinds, e.server_url, CANON.get(kind), e.claimed_id), None)
    if set(kinds) <= {'d1', '206', '404', '500', 'empty1', 'd1long'}:
        want = set()
        for n, k in enumerate(kinds):
            if k in ('d1', '206'):
                want.add((k, n))
            elif k == 'd1long':
                want |= set((k, x) for x in range(4))
        got = set((urlsplit(e.server_url).netloc.split('.')[0], int(e.server_url.rsplit('/', 1)[1])) for e in eps)
        if got != want:
            st.violation(repr(case), 'answers %r: found %r, published %r' % (kinds, sorted(got), sorted(want)), None)
        # the most capable protocol version first
        order = [int(e.server_url.rsplit('/', 1)[1]) for e in eps]
        if order != sorted(order):
            st.violation(repr(case), 'answers %r: order of services %r' % (kinds, order), None)
    st.outcome('answers: %d services' % min(len(eps), 3))


# ---------------------------------------------------------------- forms
ALPHA = ['=', 'a', '/', '?', '%', '(', ')', '\xe9', '*', '@', ' ', '&', '!', '+', '\U00010000']


def model_form(s):
    out, depth = [], 0
    for ch in s:
        if ch == '(':
            depth += 1
        elif ch == ')':
            depth -= 1
        if ch == '%':
            out.append('%25')
        elif depth and ch in '/?#':
            out.append('%%%02X' % ord(ch))
        elif ord(ch) > 126 or ch in ' "<>\\^`{|}':
            out.append(''.join('%%%02X' % b for b in ch.encode('utf-8')))
        else:
            out.append(ch)
    return ''.join(out)


def simple(s):
    """Balanced, non-nested parentheses."""
    d = 0
    for ch in s:
        d += (ch == '(') - (ch == ')')
        if d not in (0, 1):
            return False
    return d == 0


def forms_case(case, st):
    pre = case[1]
    for n in range(0, case[2] + 1):
        for t in itertools.product(ALPHA, repeat=n):
            s = pre + ''.join(t)
            if not simple(s):
                continue
            st.executions += 1
            st.transitions += 1
            st.state(s)
            want = model_form(s)
            for x in (s, 'xri://' + s):
                if xri.toURINormal(x) != 'xri://' + want:
                    st.violation(repr(case), 'normal form of %r is %r, expected %r' % (x, xri.toURINormal(x), 'xri://' + want), None)
                for ty in (None, T_SIGNON, 'xri://+i-service*(+f)*($v*1.0)&x=y#z'):
                    url = xrires.ProxyResolver().queryURL(x, ty)
                    base = PROXY + want
                    sep = '&' if '?' in want.rstrip('?') else '?'
                    if not url.startswith(base + sep):
                        st.violation(repr(case), 'query for %r: %r does not start with %r' % (x, url, base + sep), None)
                        continue
                    args = parse_qs(url[len(base) + 1:], strict_parsing=True)
                    exp = {'_xrd_r': ['application/xrds+xml']}
                    if ty is None:
                        exp['_xrd_r'] = ['application/xrds+xml;sep=false']
                    else:
                        exp['_xrd_t'] = [ty]
                    if args != exp or '#' in url:
                        st.violation(repr(case), 'query for %r: %r carries %r, expected %r' % (x, url, args, exp), None)
    st.outcome('forms')


def check(ctx):
    depth = 3 if ctx.quick else 4
    flen = 3 if ctx.quick else 4
    ctx.bounds = {'long chains and i-names': '%d descriptors, %d characters' % (max(sizes.counts(ctx.quick)), 5000), 'inames': len(INAMES), 'canonical id relations': len(KINDS), 'chain length': depth,
                  'answers': '%d kinds, 4 queries' % len(ANS), 'xri length': flen + 1}

    def cases():
        for iname in INAMES:
            for n in range(1, depth + 1):
                for ks in itertools.product(KINDS, repeat=n):
                    yield ('chain', iname, ks)
        for n in sizes.counts(ctx.quick):
            for iname in ('=a', '(x.com)*a', 'xri://example.com*bob') + (('=' + '*'.join('s%d' % i for i in range(n)),) if n else ()):
                if n:
                    yield ('long', iname, n, None)
                for i in sizes.places(n):
                    for k in ('xri', 'stranger', 'grand', 'otherroot', 'missing', 'self'):
                        yield ('long', iname, n, i, k)
        for n in sizes.lengths(ctx.quick):
            if 0 < n < 5000:
                for iname in ('=' + sizes.text(n), '@a*' + sizes.text(n), '(' + sizes.text(n) + ')*a', 'xri://' + sizes.text(n) + '.example*b', '=a/' + sizes.text(n), '=a?' + sizes.text(n)):
                    for ks in (('child',), ('child', 'child'), ('stranger', 'child'), ('otherroot',)):
                        yield ('chain', iname, ks)
        for ks in itertools.product(ANS, repeat=4):
            yield ('answers', ks)
        for pre in ('=', '@', '(a)', '=a?', '+', '=a/(', '=(/)', '=a*', '$', '!'):
            yield ('forms', pre, flen)

    def one(case, st):
        {'chain': chain_case, 'long': chain_case, 'answers': answers_case, 'forms': forms_case}[case[0]](case, st)
    ctx.run(cases, one)
