"""C16: services read from discovery documents, over a bounded grammar of documents, against an independent reader."""
import itertools, os, tempfile, shutil
import xml.etree.ElementTree as ET
from lib import sizes, env, world
from lib.world import T_SERVER, T_SIGNON, T_11, T_10, NS1, NS2, esc
from openid.consumer.discover import OpenIDServiceEndpoint, discover, DiscoveryFailure
from openid.yadis.etxrd import XRDSError
from openid.yadis.services import getServiceEndpoints, applyFilter

LEVEL = 'model_checking'
TECHNIQUE = ('bounded-exhaustive enumeration of discovery documents (services, types, priorities, URIs, local identifiers, descriptors, damage) read by the '
             'real code, each result compared with an independent reader (document model and a second XML parser)')
NOTE = 'equal priorities may come in any order; damaged documents are judged with the Python standard library parser'
RULE = 'one execution = one document read through one entry point; distinct = distinct (document, result)'
ASSUMPTIONS = ['element contents are enumerated without surrounding white space or embedded comments']
U = 'http://user.example/'
OTHER = 'http://example.com/other/1.0'
TYPES = [T_SERVER, T_SIGNON, T_11, T_10]
HEAD = ('<?xml version="1.0" encoding="UTF-8"?>\n<xrds:XRDS xmlns:xrds="xri://$xrds" xmlns="xri://$xrd*($v*2.0)" '
        'xmlns:openid="http://openid.net/xmlns/1.0">')
TAIL = '</xrds:XRDS>'


class Sv(object):
    """types: tuple; uris: tuple of (text or '', priority or None); local/deleg: tuples of texts; prio: attribute text or None"""

    def __init__(self, types, uris, prio=None, local=(), deleg=(), odd=''):
        self.types, self.uris, self.prio, self.local, self.deleg, self.odd = types, uris, prio, local, deleg, odd

    def xml(self):
        p = lambda x: '' if x is None else ' priority="%s"' % x
        out = ['<Service%s>' % p(self.prio), self.odd]
        out += ['<Type>%s</Type>' % esc(t) if t else '<Type/>' for t in self.types]
        out += ['<openid:Delegate>%s</openid:Delegate>' % esc(t) for t in self.deleg]
        out += ['<URI%s>%s</URI>' % (p(pr), esc(t)) if t else '<URI%s/>' % p(pr) for t, pr in self.uris]
        out += ['<LocalID>%s</LocalID>' % esc(t) for t in self.local]
        return ''.join(out) + '</Service>'


def prio(text):
    """Sort key: valid non-negative integers ascending, everything else last."""
    if text is not None and text.isdigit():
        return int(text)
    return float('inf')


class Bad(Exception):
    pass


def read(svcs):
    """Expected endpoints as a list of tie groups, or raises Bad for ambiguous local identifiers."""
    rows = []
    for s in svcs:
        known = [t for t in s.types if t in TYPES]
        if not known:
            continue
        local = None
        op = T_SERVER in s.types
        usable = [u for u in s.uris if u[0]]
        if not op and usable:
            cand = []
            if T_11 in s.types or T_10 in s.types:
                cand += s.deleg
            if T_SIGNON in s.types:
                cand += s.local
            if len(set(cand)) > 1:
                raise Bad()
            local = cand[0] if cand else None
        best = min(TYPES.index(t) for t in known)
        for u, p in usable:
            rows.append(((best, prio(s.prio), prio(p)), (u, tuple(s.types), local, op)))
    return rows


def groups_match(rows, got, by_type=True):
    """Is `got` an arrangement of rows in order of (type preference, service priority, URI priority)?  The URIs of one service stay
    together in URI order unless another service has the same priority."""
    key = (lambda k: k) if by_type else (lambda k: k[1:])
    if sorted(map(repr, (r[1] for r in rows))) != sorted(map(repr, got)):
        return False
    # the first two components (type preference, service priority) must not decrease
    pool = list(rows)
    want = [k for k, _ in sorted(pool, key=lambda r: key(r[0]))]
    seq = []
    for g in got:
        ks = [r for r in pool if r[1] == g]
        # several identical rows: take the smallest key
        r = min(ks, key=lambda r: key(r[0]))
        pool.remove(r)
        seq.append(r[0])
    n = 2 if by_type else 1
    heads = [key(k)[:n] for k in seq]
    return heads == sorted(heads)


def uris_in_order(svcs, got):
    """Within one service, URIs come in priority order."""
    for s in svcs:
        pos = []
        for u, p in s.uris:
            hit = [i for i, g in enumerate(got) if g[0] == u and g[1] == tuple(s.types)]
            if len(hit) == 1:
                pos.append((prio(p), hit[0]))
        for a, b in itertools.combinations(pos, 2):
            if (a[0] < b[0]) != (a[1] < b[1]) and a[0] != b[0]:
                return False
    return True


def flat(services):
    return [(s.server_url, tuple(s.type_uris), s.local_id, s.isOPIdentifier()) for s in services]


_NET = {}


def net():
    if 'n' not in _NET:
        _NET['n'] = world.Net()
    return _NET['n'].install()


def consistent(s, url):
    """The endpoint's derived answers follow from its types, URI and local identifier."""
    op = T_SERVER in s.type_uris
    two = op or T_SIGNON in s.type_uris
    claimed = None if op else url
    checks = [('claimed_id', s.claimed_id, claimed), ('getLocalID', s.getLocalID(), s.local_id or claimed),
              ('preferredNamespace', s.preferredNamespace(), NS2 if two else NS1), ('compatibilityMode', s.compatibilityMode(), not two),
              ('isOPIdentifier', s.isOPIdentifier(), op), ('used_yadis', s.used_yadis, True)]
    for t in TYPES + [OTHER]:
        checks.append(('supportsType ' + t, bool(s.supportsType(t)), t in s.type_uris or (t == T_SIGNON and op)))
        checks.append(('usesExtension ' + t, bool(s.usesExtension(t)), t in s.type_uris))
    for n, got, want in checks:
        if got != want:
            return '%s is %r, expected %r' % (n, got, want)
    return None


def doc(*xrds):
    return (HEAD + ''.join('<XRD>%s</XRD>' % ''.join(s.xml() for s in x) for x in xrds) + TAIL).encode('utf-8')


def judge(st, key, body, svcs, case):
    """Reads one document through fromXRDS and discover."""
    n = net()
    st.executions += 1
    st.transitions += 2
    try:
        rows = read(svcs)
    except Bad:
        rows = None
    try:
        got = OpenIDServiceEndpoint.fromXRDS(U, body)
        err = None
    except DiscoveryFailure:
        got, err = None, 'failure'
    if (rows is None) != (got is None):
        st.violation(key, 'fromXRDS of %s gave %s, expected %s' % (case, err or flat(got), 'failure' if rows is None else rows), body.decode())
        return
    n.routes.clear()
    n.page(U, body, ctype=world.XRDS_CT)
    try:
        claimed, found = discover(U)
    except DiscoveryFailure:
        found = None
    if (rows is None) != (found is None):
        st.violation(key, 'discover of %s gave %s, expected %s' % (case, found and flat(found), rows), body.decode())
        return
    if rows is None:
        st.outcome('ambiguous')
        st.state((key, None))
        return
    f1, f2 = flat(got), flat(found)
    if not groups_match(rows, f1, by_type=False) or not uris_in_order(svcs, f1):
        st.violation(key, 'fromXRDS order or content: %s from %s, rows %s' % (f1, case, rows), body.decode())
    if not groups_match(rows, f2) or not uris_in_order(svcs, f2):
        st.violation(key, 'discovered services: %s from %s, rows %s' % (f2, case, rows), body.decode())
    if claimed != U:
        st.violation(key, 'claimed identifier %r' % claimed, body.decode())
    for s in found:
        bad = consistent(s, U)
        if bad:
            st.violation(key, 'endpoint %r of %s: %s' % (s.server_url, case, bad), body.decode())
    st.outcome('services:%d' % len(f2))
    st.state((key, f2))
    st.sample({'document': case, 'services': f2})


L1, L2 = 'http://op.example/~1', 'http://op.example/~2?a=b&c=d'


def single(case, st):
    """One service in full detail."""
    _, types, pr = case
    for order in ((types, tuple(reversed(types))) if len(types) > 1 else (types,)):
        for uris in URISETS:
            for local in ((), (L1,), (L1, L1), (L1, L2)):
                for deleg in ((), (L1,), (L2,), (L2, L2)):
                    s = Sv(order, uris, pr, local, deleg)
                    k = 'single:%r:%r:%r:%r:%r' % (order, uris, pr, local, deleg)
                    judge(st, k, doc([s]), [s], k)


def uri(n):
    return 'http://op%d.example/server?x=1&y=%d' % (n, n)


URISETS = [(), ((uri(1), None),), ((uri(1), None), (uri(2), None)), ((uri(1), '5'), (uri(2), None)), ((uri(1), '5'), (uri(2), '1')),
           ((uri(1), 'x'), (uri(2), '7')), ((uri(1), '0'), (uri(2), '10')), ((uri(1), '9'), (uri(2), '10')), (('', None),),
           (('', '0'), (uri(2), '1')), ((uri(1), '-1'), (uri(2), '3')), ((uri(1), None), (uri(2), '3'), (uri(3), '0')),
           ((uri(1), '2'), (uri(2), '2'), (uri(3), '0')), tuple((uri(i), str(1000 - 100 * i)) for i in range(1, 10)), ((uri(1), '1000'), (uri(2), '999'), (uri(3), '10000000000')),
           tuple((uri(i), None) for i in range(1, 12))]
KINDS = [(T_SERVER,), (T_SIGNON,), (T_11,), (T_10,), (OTHER,), (T_11, T_SIGNON), (T_10, OTHER), (T_SIGNON, T_SERVER)]
PRIOS = [None, '0', '1', '9', '10', 'x', '-5']


def several(case, st):
    """Several services: order and filtering."""
    _, combo, shape = case
    svcs = []
    for i, (types, pr) in enumerate(combo):
        us = ((uri(i), None),) if shape == 0 else ((uri(i), '7'), (uri(i + 10), '2')) if shape == 1 else ((uri(i), None), (uri(i + 10), '4'))
        svcs.append(Sv(types, us, pr, local=('http://op.example/~%d' % i,) if T_SIGNON in types else (),
                       deleg=('http://op.example/~%d' % i,) if (T_11 in types or T_10 in types) else ()))
    k = 'several:%r:%d' % (combo, shape)
    judge(st, k, doc(svcs), svcs, k)


def size(case, st):
    """Documents of every size: many services, URIs, types or descriptors, long texts; the one that matters at the front, in the middle or at the end."""
    _, what, n = case
    for at in sorted(set((0, n // 2, max(n - 1, 0)))):
        k = 'size:%s:%d:%d' % (what, n, at)
        extra = ()
        if what == 'services':
            svcs = [Sv((T_SIGNON,) if i % 3 else (T_10, OTHER), ((uri(i), None),), str((i * 37) % max(n, 1)) if i != at else None) for i in range(n)]
        elif what == 'others':
            svcs = [Sv((T_11,) if i == at else (OTHER,), ((uri(i), None),), str(i)) for i in range(n)]
        elif what == 'uris':
            svcs = [Sv((T_SIGNON,), tuple((uri(i), str(1000 - i) if i != at else '0') for i in range(n)))]
        elif what == 'types':
            svcs = [Sv(tuple(T_SIGNON if i == at else 'http://example.com/t%d' % i for i in range(n)), ((uri(1), None),), None, (L1,))]
        elif what == 'locals':
            svcs = [Sv((T_SIGNON,), ((uri(1), None),), None, tuple(L1 if i != at or n % 2 else L2 for i in range(n)))]
        elif what == 'xrds':
            svcs = [Sv((T_SIGNON,), ((uri(n), None),))]
            extra = [[Sv((T_11,), ((uri(i), None),))] for i in range(n)]
        elif what == 'uri':
            svcs = [Sv((T_SIGNON,), ((uri(1) + sizes.text(n), '3'), (uri(2), '4')), '2'), Sv((T_SIGNON,), ((uri(3), None),), '3')]
        elif what == 'local':
            svcs = [Sv((T_11,), ((uri(1), None),), None, (), (L1 + sizes.text(n),))]
        elif what == 'local2':
            svcs = [Sv((T_SIGNON,), ((uri(1), None),), None, (L1 + sizes.text(n), L1 + sizes.text(n, n - 1)) if n else (L1, L1))]
        elif what == 'type':
            svcs = [Sv((T_SIGNON + sizes.text(n), T_SIGNON), ((uri(1), None),), None), Sv((T_SIGNON + sizes.text(n + 1),), ((uri(2), None),), None)]
        elif what == 'digits':
            svcs = [Sv((T_SIGNON,), ((uri(1), None),), '1' + '0' * n), Sv((T_SIGNON,), ((uri(2), None),), '0' * n + '7'), Sv((T_SIGNON,), ((uri(3), None),), '9' * n)]
        elif what == 'comment':
            svcs = [Sv((T_SIGNON,), ((uri(1), None),), None, odd='<!-- %s -->' % sizes.text(n)), Sv((T_SIGNON,), ((uri(2), None),), '1')]
        judge(st, k, doc(*(list(extra) + [svcs])), svcs, k)


# -- descriptors and roots ---------------------------------------------------
def structure(case, st):
    _, name, body, expect = case
    st.executions += 1
    st.transitions += 3
    key = 'doc:' + name
    try:
        got = flat(OpenIDServiceEndpoint.fromXRDS(U, body))
    except XRDSError:
        got = 'error'
    if got != expect:
        st.violation(key, 'fromXRDS gave %r, expected %r' % (got, expect), repr(body))
    n = net()
    n.routes.clear()
    n.page(U, body, ctype=world.XRDS_CT)
    try:
        got2 = flat(discover(U)[1])
    except DiscoveryFailure:
        got2 = 'failure'
    if got2 != ([] if expect == 'error' else expect):
        st.violation(key, 'discover gave %r, expected %r' % (got2, expect), repr(body))
    try:
        got3 = [e.uri for e in getServiceEndpoints(U)[1]]
    except DiscoveryFailure:
        got3 = 'error'
    if (got3 == 'error') != (expect == 'error'):
        st.violation(key, 'getServiceEndpoints gave %r, expected %r' % (got3, expect), repr(body))
    st.outcome('error' if expect == 'error' else 'document')
    st.state((name, got))


def structures():
    s1, s2 = Sv((T_SIGNON,), ((uri(1), None),)), Sv((T_11,), ((uri(2), None),))
    row = lambda s: (s.uris[0][0], s.types, None, False)
    for n in range(4):
        for lists in itertools.product([(), (s1,), (s2,)], repeat=n):
            exp = 'error' if n == 0 else [row(s) for s in lists[-1]]
            yield 'xrds-%s' % '-'.join(str(len(l) and (1 if l[0] is s1 else 2)) for l in lists), doc(*lists), exp
    inner = s1.xml()
    xrd = '<XRD>%s</XRD>' % inner
    yield 'no-declaration', (HEAD.split('\n', 1)[1] + xrd + TAIL).encode(), [row(s1)]
    yield 'utf-16', (HEAD.replace('UTF-8', 'UTF-16') + xrd + TAIL).encode('utf-16'), [row(s1)]
    yield 'latin-1', (HEAD.replace('UTF-8', 'ISO-8859-1') + '<!-- \xe9 -->' + xrd + TAIL).encode('latin-1'), [row(s1)]
    yield 'root-other-name', (HEAD + xrd + TAIL).replace('xrds:XRDS', 'xrds:XRDX').encode(), 'error'
    yield 'root-other-ns', (HEAD + xrd + TAIL).replace('"xri://$xrds"', '"xri://$xrdz"').encode(), 'error'
    yield 'root-no-ns', ('<XRDS>' + xrd + '</XRDS>').encode(), 'error'
    yield 'xrd-as-root', ('<XRD xmlns="xri://$xrd*($v*2.0)">%s</XRD>' % inner).encode(), 'error'
    yield 'xrd-other-ns', (HEAD + xrd + TAIL).replace('v*2.0', 'v*1.0').encode(), 'error'
    yield 'xrd-nested', (HEAD + '<xrds:XRDS>%s</xrds:XRDS>' % xrd + TAIL).encode(), 'error'
    yield 'service-outside-xrd', (HEAD + inner + '<XRD/>' + TAIL).encode(), []
    yield 'service-nested', (HEAD + '<XRD><Status>%s</Status></XRD>' % inner + TAIL).encode(), []
    yield 'service-other-ns', (HEAD + '<XRD>%s</XRD>' % inner.replace('<Service', '<openid:Service').replace('</Service', '</openid:Service') + TAIL).encode(), []
    yield 'prefixed', ('<a:XRDS xmlns:a="xri://$xrds" xmlns:b="xri://$xrd*($v*2.0)"><b:XRD><b:Service><b:Type>%s</b:Type><b:URI>%s</b:URI></b:Service></b:XRD></a:XRDS>'
                       % (T_SIGNON, esc(uri(1)))).encode(), [row(s1)]
    yield 'cdata', (HEAD + xrd.replace(esc(uri(1)), '<![CDATA[%s]]>' % uri(1)) + TAIL).encode(), [row(s1)]
    yield 'char-refs', (HEAD + xrd.replace(esc(uri(1)), ''.join('&#%d;' % ord(c) for c in uri(1))) + TAIL).encode(), [row(s1)]
    yield 'comments-pis', (HEAD + '<!-- <XRD> --><?x y?>' + xrd + '<!-- end -->' + TAIL + '<!-- after -->').encode(), [row(s1)]
    yield 'type-empty', (HEAD + xrd.replace('<Type>', '<Type/><Type>') + TAIL).encode(), [(uri(1), ('', T_SIGNON), None, False)]
    yield 'type-only-empty', (HEAD + '<XRD><Service><Type/><URI>http://x/</URI></Service></XRD>' + TAIL).encode(), []
    yield 'uri-without-type', (HEAD + '<XRD><Service><URI>http://x/</URI></Service></XRD>' + TAIL).encode(), []
    yield 'uri-other-ns', (HEAD + xrd.replace('<URI>', '<openid:URI>').replace('</URI>', '</openid:URI>') + TAIL).encode(), []
    yield 'type-other-ns', (HEAD + xrd.replace('<Type>', '<openid:Type>').replace('</Type>', '</openid:Type>') + TAIL).encode(), []
    for i, t in enumerate(['', ' ', '\n', 'not xml', '<', '<a>', '<a/>', '<html><head></head><body></body></html>', '\x00', '{}',
                           '<?xml version="1.0"?>', '<!DOCTYPE html>', '&amp;', '\xef\xbb\xbf']):
        yield 'junk-%d' % i, t.encode('latin-1'), 'error'


def std_rows(body):
    """The document through the standard library parser: rows in the sense of read(), 'error' or Bad."""
    try:
        root = ET.fromstring(body)
    except (ET.ParseError, LookupError, ValueError):
        return 'error'
    X = '{xri://$xrd*($v*2.0)}'
    if root.tag != '{xri://$xrds}XRDS':
        return 'error'
    xs = [c for c in root if c.tag == X + 'XRD']
    if not xs:
        return 'error'
    out = []
    for s in xs[-1]:
        if s.tag != X + 'Service':
            continue
        t = lambda tag: [(c.text or '') for c in s if c.tag == tag]
        out.append(Sv(tuple(t(X + 'Type')), tuple(((c.text or ''), c.get('priority')) for c in s if c.tag == X + 'URI'), s.get('priority'),
                      tuple(t(X + 'LocalID')), tuple(t('{http://openid.net/xmlns/1.0}Delegate'))))
    return out


BASE = None


def base_doc():
    a = Sv((T_SIGNON, T_11), ((uri(1), '5'), (uri(2), '1')), '10', (L1,), (L1,))
    b = Sv((T_SERVER,), ((uri(3), None),), '0')
    return doc([b], [a, Sv((OTHER,), ((uri(4), None),))])


def damage(case, st):
    """Truncation or one changed byte at every position of a document."""
    _, kind, pos, byte = case
    body = base_doc()
    if kind == 'cut':
        body = body[:pos]
    elif kind == 'del':
        body = body[:pos] + body[pos + 1:]
    elif kind == 'set':
        body = body[:pos] + byte + body[pos + 1:]
    elif kind == 'dup':
        body = body[:pos] + body[pos:pos + 1] + body[pos:]
    st.executions += 1
    st.transitions += 1
    svcs = std_rows(body)
    rows = svcs
    if svcs != 'error':
        try:
            rows = read(svcs)
        except Bad:
            rows = 'failure'
    try:
        got = OpenIDServiceEndpoint.fromXRDS(U, body)
    except XRDSError:
        got = 'error'
    except DiscoveryFailure:
        got = 'failure'
    key = 'damage:%s:%d:%r' % (kind, pos, byte)
    ok = got == rows if isinstance(rows, str) or isinstance(got, str) else groups_match(rows, flat(got), by_type=False)
    if not ok and got == 'error' and pos < len(HEAD):
        ok = True       # parsers differ in how strictly they take the declaration and namespace names
    if not ok:
        st.violation(key, 'gave %r, expected %r' % (got if isinstance(got, str) else flat(got), rows), body.decode('latin-1'))
    st.outcome('damage:' + (rows if isinstance(rows, str) else 'read'))
    st.state((key, got if isinstance(got, str) else flat(got)))


def entities(case, st):
    """Entities: external ones are never resolved, internal expansion stays bounded."""
    _, name = case
    d = tempfile.mkdtemp(prefix='c16-')
    try:
        secret = os.path.join(d, 'secret')
        with open(secret, 'w') as f:
            f.write('http://secret.example/')
        # the same service as a well-formed external fragment
        frag = os.path.join(d, 'frag')
        with open(frag, 'w') as f:
            f.write('<Service xmlns="xri://$xrd*($v*2.0)"><Type>%s</Type><URI>http://secret.example/</URI></Service>' % T_SIGNON)
        dtd = os.path.join(d, 'x.dtd')
        with open(dtd, 'w') as f:
            f.write('<!ENTITY e "http://secret.example/">')
        svc = '<XRD><Service><Type>%s</Type><URI>%s</URI></Service></XRD>'
        plain = HEAD.split('\n', 1)[1]
        if name == 'external-text':
            b = '<!DOCTYPE x [<!ENTITY e SYSTEM "file://%s">]>' % secret + plain + svc % (T_SIGNON, '&e;') + TAIL
        elif name == 'external-path':
            b = '<!DOCTYPE x [<!ENTITY e SYSTEM "%s">]>' % secret + plain + svc % (T_SIGNON, 'http://a/?&e;') + TAIL
        elif name == 'external-element':
            b = '<!DOCTYPE x [<!ENTITY e SYSTEM "file://%s">]>' % frag + plain + '<XRD>&e;</XRD>' + TAIL
        elif name == 'external-dtd':
            b = '<!DOCTYPE x SYSTEM "file://%s">' % dtd + plain + svc % (T_SIGNON, '&e;') + TAIL
        elif name == 'parameter':
            b = '<!DOCTYPE x [<!ENTITY %% p SYSTEM "file://%s"> %%p;]>' % dtd + plain + svc % (T_SIGNON, '&e;') + TAIL
        else:
            ents = '<!ENTITY e0 "http://big.example/">' + ''.join('<!ENTITY e%d "%s">' % (i, ('&e%d;' % (i - 1)) * 10) for i in range(1, 9))
            b = '<!DOCTYPE x [%s]>' % ents + plain + svc % (T_SIGNON, '&e8;') + TAIL
        st.executions += 1
        st.transitions += 1
        try:
            got = flat(OpenIDServiceEndpoint.fromXRDS(U, b.encode()))
        except XRDSError:
            got = 'error'
        if 'secret' in repr(got) or len(repr(got)) > 10000:
            st.violation('entity:' + name, 'entity %s was resolved: %s' % (name, repr(got)[:300]), b[:500])
        st.outcome('entity')
        st.state((name, repr(got).replace(d, '')))
    finally:
        shutil.rmtree(d)


# -- filters -------------------------------------------------------------------
class Own(object):
    """An endpoint class of an application."""

    def __init__(self, e):
        self.tag = ('own', e.uri)

    @classmethod
    def fromBasicServiceEndpoint(cls, e):
        return cls(e) if e.matchTypes([OTHER]) else None


class Full(object):
    def getServiceEndpoints(self, yadis_url, service_element):
        return [('full', yadis_url)]


def f_signon(e):
    return ('signon', e.uri) if e.matchTypes([T_SIGNON]) else None


def f_any(e):
    return ('any', e.uri)


def f_none(e):
    return None


ATOMS = {'signon': f_signon, 'any': f_any, 'none': f_none, 'own': Own, 'full': Full()}


def tagof(x):
    return x.tag if isinstance(x, Own) else x if isinstance(x, tuple) else ('basic', x.uri)


def filter_model(f, url, svcs):
    """Expected output per service, from the documentation of mkFilter: full filters and nested lists each contribute, simple ones
    are tried in turn per (service, URI) until one answers."""
    def one(parts, s):
        out, simple = [], []
        for p in parts:
            if isinstance(p, list):
                out.append(one(p, s))
            elif p == 'full':
                out.append([('full', url)])
            else:
                simple.append(p)
        if simple:
            l = []
            for u in sorted(s.uris, key=lambda u: prio(u[1])) or [(None, None)]:
                u = u[0]
                for p in simple:
                    if p == 'signon' and T_SIGNON in s.types:
                        l.append(('signon', u))
                    elif p == 'any':
                        l.append(('any', u))
                    elif p == 'own' and OTHER in s.types:
                        l.append(('own', u))
                    elif p == 'basic':
                        l.append(('basic', u))
                    else:
                        continue
                    break
            out.append(l)
        return [x for l in out for x in l]
    parts = ['basic'] if f is None else f if isinstance(f, list) else [f]
    return [one(parts, s) for s in svcs]


def build(f):
    if isinstance(f, list):
        return [build(x) for x in f]
    return ATOMS[f]


def filtering(case, st):
    _, f, which = case
    pool = [Sv((T_SIGNON,), ((uri(1), '2'), (uri(2), '1')), '1'), Sv((OTHER,), ((uri(3), None),), '2'), Sv((T_SIGNON, OTHER), ((uri(4), None),), '3'),
            Sv((T_11,), (), '4')]
    svcs = [s for i, s in enumerate(pool) if which >> i & 1]
    st.executions += 1
    st.transitions += 1
    want = sum(filter_model(f, U, svcs), [])
    body = doc(list(reversed(svcs)))
    n = net()
    n.routes.clear()
    n.page(U, body, ctype=world.XRDS_CT)
    for got in (applyFilter(U, body, None if f is None else build(f)), getServiceEndpoints(U, None if f is None else build(f))[1]):
        got = [tagof(x) for x in got]
        if got != want:
            st.violation('filter:%r:%d' % (f, which), 'filter %r gave %r, expected %r' % (f, got, want), body.decode())
    st.outcome('filter')
    st.state((repr(f), which, want))


def filters_():
    atoms = ['signon', 'any', 'none', 'own', 'full']
    yield None
    for a in atoms:
        yield a
    for n in (1, 2, 3):
        for c in itertools.product(atoms, repeat=n):
            if n < 3 or 'full' not in c:
                yield list(c)
    for a in atoms:
        for b in atoms:
            yield [[a], [b]]
            yield [[a, b], 'any']
            yield ['any', [a, [b]]]


def check(ctx):
    q = ctx.quick
    kinds, prios = KINDS, PRIOS
    ctx.bounds = {'counts': max(sizes.counts(q)), 'text lengths': max(sizes.lengths(q)), 'services': 3 if q else 4, 'type sets': len(kinds), 'priorities': prios, 'uri sets': len(URISETS), 'damage': 'every position: cut, delete, duplicate, replace'}
    alltypes = [t for n in range(0, 6) for t in itertools.combinations(TYPES + [OTHER], n)]
    L = len(base_doc())
    repl = [b'<', b'>', b' ', b'x', b'"', b'&', b'0'] if q else [bytes([i]) for i in range(32, 127)] + [b'\x00', b'\n', b'\xe9', b'\xff']

    def cases():
        for t in alltypes:
            for p in ((None, '3') if not q else (None,)):
                yield ('single', t, p)
        opts = list(itertools.product(kinds, prios))
        for c in itertools.product(opts, repeat=2):
            for sh in (0, 1, 2):
                yield ('several', c, sh)
        for c in itertools.product(opts, repeat=3):
            yield ('several', c, 0 if c[0][1] != c[1][1] else 1)
        for c in itertools.product(itertools.product([(T_SIGNON,), (T_11, T_10)], ['9', '99', '100', '101', '1000', '65536', '10000000000', '007', None]), repeat=2):
            yield ('several', c, 0)
        for n in sizes.counts(q):
            for w in ('services', 'others', 'uris', 'types', 'locals', 'xrds'):
                yield ('size', w, n)
        for n in sizes.lengths(q):
            for w in ('uri', 'local', 'local2', 'type', 'comment'):
                yield ('size', w, n)
            if 0 < n < 4000:
                yield ('size', 'digits', n)
        for n in (5, 8, 12, 20):
            for k in ((T_SIGNON,), (T_11,), (T_SERVER,)):
                yield ('several', tuple((k if i % 3 else (T_10, OTHER), str((n - i) * 50) if i != 2 else None) for i in range(n)), 0)
                yield ('several', tuple((k, str((i * 7) % n)) for i in range(n)), 1)
        if not q:
            four = list(itertools.product([(T_SERVER,), (T_SIGNON,), (T_11,), (T_10,), (OTHER,)], [None, '0', '10', '9']))
            for c in itertools.product(four, repeat=4):
                yield ('several', c, 0)
        for name, body, exp in structures():
            yield ('structure', name, body, exp)
        for i in range(L):
            yield ('damage', 'cut', i, None)
            yield ('damage', 'del', i, None)
            yield ('damage', 'dup', i, None)
            for b in repl:
                yield ('damage', 'set', i, b)
        for n in ('external-text', 'external-path', 'external-element', 'external-dtd', 'parameter', 'expansion'):
            yield ('entities', n)
        for f in filters_():
            for w in range(16):
                yield ('filtering', f, w)
    fns = {'size': size, 'single': single, 'several': several, 'structure': structure, 'damage': damage, 'entities': entities, 'filtering': filtering}
    ctx.run(cases, lambda c, st: fns[c[0]](c, st))
