"""C13: realm matching and realm sanity over the product of bounded realm and URL grammars, against a structural model."""
import itertools
from lib import env, sizes
from lib.urlmodel import U
from openid.server.trustroot import TrustRoot

LEVEL = 'model_checking'
TECHNIQUE = 'bounded-exhaustive enumeration of realm x URL pairs on the real code against a structural model of coverage'
NOTE = ('Every realm of the bounded grammar is matched against every URL of the bounded grammar by the real code and compared '
        'with an independent model; every host of up to four labels is judged for sanity.')
RULE = 'all (realm, URL) pairs and all realm hosts of the grammar; non-trivial = distinct pair; verdict compared with the model'
ASSUMPTIONS = ['user information in a URL is not part of the comparison', 'tab, line feed and carriage return do not occur']
H = lambda raw, canon: (raw, canon)
RHOSTS = [H('foo.com', 'foo.com'), H('*.foo.com', '*.foo.com'), H('*', '*'), H('Foo.coM', 'foo.com'), H('b.foo.com', 'b.foo.com'), H('*.b.foo.com', '*.b.foo.com'),
          H('xfoo.com', 'xfoo.com'), H('foo.com.', 'foo.com.'), H('*foo.com', '*foo.com'), H('b.*.com', 'b.*.com'), H('foo.*', 'foo.*'), H('*.*.com', '*.*.com'),
          H('[::1]', '[::1]'), H('%66oo.com', 'foo.com'), H('', None), H('*.\u03c0.com', '*.xn--1xa.com'), H('*.com', '*.com'), H('**.foo.com', '**.foo.com'), H('a%2Ffoo.com', None), H('*m', '*m'), H('*.c.b.foo.com', '*.c.b.foo.com')]
UHOSTS = [H('foo.com', 'foo.com'), H('b.foo.com', 'b.foo.com'), H('a.b.foo.com', 'a.b.foo.com'), H('xfoo.com', 'xfoo.com'), H('FOO.com', 'foo.com'), H('foo.com.', 'foo.com.'),
          H('*.foo.com', '*.foo.com'), H('com', 'com'), H('[::1]', '[::1]'), H('\u03c0.com', 'xn--1xa.com'), H('x.\u03c0.com', 'x.xn--1xa.com'),
          H('foo.com.evil.org', 'foo.com.evil.org'), H('evil%2F.foo.com', None), H('oo.com', 'oo.com'), H('', None), H('evil.org', 'evil.org'), H('b%2Efoo.com', 'b.foo.com'), H('e.d.c.b.foo.com', 'e.d.c.b.foo.com'), H('e.d.c.b.xfoo.com', 'e.d.c.b.xfoo.com'), H('b-foo.com', 'b-foo.com'), H('b_foo.com', 'b_foo.com'), H('foo.com-', 'foo.com-')]
PORTS = [H('', None), H(':80', 80), H(':443', 443), H(':81', 81), H(':8', 8)]
PORTS_T = PORTS + [H(':0', 0), H(':', None), H(':x', 'bad')]
RPATHS = ['', '/', '/a', '/a/', '/ab', '/a/b', '/a?x=y', '/a?x=y&z=w', '/?x=y', '/a#f', '/A', '/%61', '/b/../a', '/*', '/a?', '/a%2Fb', '/a/?x=y', '/a?x', '/a%3Fx=y', '?x=y', '/a#', '/.', '/a&', '/a=', '/a;', '/a.', '/a-', '/a?x=y&', '/a?x=y&z', '/a/b/', '/a?x=', '/%C3%BF', '/a//']
UPATHS = ['', '/', '/a', '/a/', '/ab', '/a/b', '/a/b/c', '/abc', '/a?x=y', '/a?x=y&z=w', '/a?x=y&z=w&v', '/a?x=yz', '/a?z=w&x=y', '/?x=y', '/?x=y&a=b', '/?x', '/a#f', '/#f', '/A/b', '/%61/b',
          '/a/../b', '/a/..', '/a/%2e%2e/b', '/*', '/x', '/a%2Fb', '/a/?x=y', '/a/?q', '/a?', '/a.b', '/a-', '/a?x=y#f', '/a%3Fx=y', '//a', '/a//b', '?x=y', '/a;b', '/a%26', '/a?x=y%26z', '/a&', '/a&b', '/a=b', '/a;b/c', '/a-b', '/a?x=y&z', '/a?x=y&zz', '/a?x=y&&z', '/a/b/c/d?x=y&z=w', '/a?x=&b', '/a?x=y;z', '/%c3%bf/b', '/%C3%BFb', '/a//b']

# quick tier: every path with a few hosts and ports, every host and port with a few paths
FEW = ('', '/', '/a', '/a/b', '/a?x=y')
FEWH = ('foo.com', '*.foo.com', 'b.foo.com', '*', 'xfoo.com')


def split_path(p):
    q = f = None
    if '#' in p:
        p, f = p.split('#', 1)
    if '?' in p:
        p, q = p.split('?', 1)
    return p, q, f


def mk(s, h, port, path, user=''):
    return U(s, user, h, port, *split_path(path))


def realm_model(u):
    """None: not a realm; else (scheme, wildcard, host, port, path)."""
    c = u.canon()
    if c is None or not c[2]:
        return None
    sch, _, host, port, path = c
    if '#' in path:
        return None
    wild = False
    if host.startswith('*'):
        rest = host[1:]
        if rest and not rest.startswith('.'):
            return None
        wild, host = True, rest[1:]
    if '*' in host:
        return None
    return (sch, wild, host, port, path)


def covers(r, c):
    if r is None or c is None or not c[2]:
        return False
    sch, wild, host, port, path = r
    if sch != c[0] or port != c[3] or '*' in c[2]:
        return False
    if not wild:
        if c[2] != host:
            return False
    elif host and c[2] != host and not c[2].endswith('.' + host):
        return False
    if c[4] == path:
        return True
    if not c[4].startswith(path):
        return False
    bound = '&' if '?' in path else '/?'
    return path[-1] in bound or c[4][len(path)] in bound


def urls(tier):
    users = ['', 'foo.com@'] if tier == 'thorough' else ['']
    ports = PORTS_T if tier == 'thorough' else PORTS
    out = []
    for s in ('http', 'https', 'HTTP', 'ftp'):
        for h in UHOSTS:
            for p in ports:
                if s in ('HTTP', 'ftp') and (p[0] not in ('', ':81')):
                    continue
                if h[0] == '' and p[0]:
                    continue
                for pa in UPATHS:
                    if tier != 'thorough' and pa not in FEW and (p[0] not in ('', ':81') or h[0] not in FEWH):
                        continue
                    for us in users:
                        if us and (not h[0] or pa not in ('/', '/a')):
                            continue
                        u = mk(s, h, p, pa, us)
                        out.append((u.text(), u.canon()))
    out += [('', None), ('foo.com', None), ('//foo.com/', None), ('/a', None), ('javascript:alert(1)', None), ('http:', None), ('http://', None), ('http:///a', None),
            ('http://:81/', None), ('http://user@/', None)]
    return out


_URLS = {}


def one_realm(case, st):
    tier, u = case
    us = _URLS.get(tier)
    if us is None:
        us = _URLS[tier] = urls(tier)
    text = u.text()
    want = realm_model(u)
    key = 'r:%s' % text
    tr = TrustRoot.parse(text)
    if (tr is None) != (want is None):
        st.violation(key, 'TrustRoot.parse(%r) = %r but the model says %r' % (text, tr, want), text)
        return
    for ut, c in us:
        st.executions += 1
        st.transitions += 1
        exp = covers(want, c)
        got = tr.validateURL(ut) if tr is not None else TrustRoot.checkURL(text, ut) if len(ut) % 16 == 0 else False
        if bool(got) != exp:
            st.violation(key, 'realm %r, URL %r: got %r, expected %r' % (text, ut, got, exp), [text, ut])
            if len(st.violations) > 20:
                return
        st.outcome('covered' if exp else 'refused')
    for ut, c in us[::37]:
        if bool(TrustRoot.checkURL(text, ut)) != covers(want, c):
            st.violation(key, 'checkURL(%r, %r) differs from the model' % (text, ut), [text, ut])
    st.state(text)
    st.notes['urls'] = len(us)
    st.sample({'realm': text, 'model': want})


KNOWN_TLD = ['com', 'org', 'museum', 'uk', 'au', 'it', 'co']
LABELS = ['com', 'org', 'uk', 'co', 'it', 'museum', 'au', 'foo', 'ab', 'abc', 'abcd', 'notatld', 'localhost', 'www', 'schtuffcom']


def sane_model(wild, labels, dot):
    if not wild and not dot and labels == ('localhost',):
        return True
    if labels[-1] not in KNOWN_TLD:
        return False
    if len(labels) == 1:
        return False
    if wild and len(labels[-1]) == 2 and len(labels[-2]) <= 3:
        return len(labels) > 2
    return True


def one_sane(case, st):
    wild, labels, dot = case
    host = ('*.' if wild else '') + '.'.join(labels) + ('.' if dot else '')
    for realm in ('http://%s/' % host, 'https://%s:8080/x?y=z' % host, 'HTTP://%s' % host.upper()):
        st.executions += 1
        st.transitions += 1
        want = sane_model(wild, labels, dot)
        got = TrustRoot.checkSanity(realm)
        if bool(got) != want:
            st.violation('s:%s' % host, 'checkSanity(%r) = %r, expected %r' % (realm, got, want), realm)
        tr = TrustRoot.parse(realm)
        if tr is None or bool(tr.isSane()) != want:
            st.violation('s:%s' % host, 'isSane of %r differs' % realm, realm)
    st.state(case)
    st.outcome('sane' if want else 'insane')


def one_unsane(realm, st):
    st.executions += 1
    st.transitions += 1
    if TrustRoot.checkSanity(realm):
        st.violation('x:%s' % realm, 'checkSanity(%r) is true' % realm, realm)
    st.outcome('insane')


def near_port(p):
    return sorted(set(x for x in (p, p - 1, p + 1, p // 10, p * 10, p * 10 + 1, p + 10, p - 10, p ^ 256, p ^ 1, p % 256, p % 10000, 80, 443, 8080) if 0 <= x <= 65535))


def one_size(case, st):
    """Ports near each other, deep hosts and paths, long paths."""
    kind, n = case
    h = H('foo.com', 'foo.com')
    np = H('', None)
    if kind == 'port':
        realms = [mk(s, h, H(':%d' % n, n), '/') for s in ('http', 'https')]
        us = [mk(s, h, H(':%d' % x, x), '/a') for s in ('http', 'https') for x in near_port(n)] + [mk(s, h, np, '/a') for s in ('http', 'https')]
    elif kind == 'labels':
        pre = ''.join('x%d.' % i for i in range(n))
        hosts = [H(w + pre + 'foo.com', w + pre + 'foo.com') for w in ('', '*.')] + [H('*.foo.com', '*.foo.com')]
        realms = [mk('http', x, np, '/') for x in hosts]
        us = [mk('http', H(y, y), np, '/') for y in (pre + 'foo.com', 'b.' + pre + 'foo.com', pre + 'xfoo.com', pre + 'foo.com.evil.org', 'foo.com', 'z' + pre + 'foo.com', 'a.b.' + pre + 'foo.com')]
    elif kind == 'segments':
        p = ''.join('/s%d' % i for i in range(n))
        realms = [mk('http', h, np, p + e) for e in ('', '/', '?a=b')]
        us = [mk('http', h, np, x) for x in (p, p + '/', p + 'x', p + '/x', p + '?a=b', p + '?a=b&c=d', p + '/..', p + '/x/y?q', '/', p[:-1], ''.join('/s%d' % i for i in range(n - 1)))]
    elif kind == 'args':
        q = '&'.join('k%d=v' % i for i in range(n))
        realms = [mk('http', h, np, '/p?' + q)]
        us = [mk('http', h, np, '/p?' + x) for x in (q, q + '&z=1', q + 'z', q[:-1], '', 'k0=v', '&'.join('k%d=v' % i for i in range(n - 1)), 'z=1&' + q)]
    else:
        t = sizes.text(n)
        realms = [mk('http', h, np, '/' + t)]
        us = [mk('http', h, np, '/' + x) for x in [t, t + '/', t + 'z', t + '/z', t[:-1], t[:-1] + '/'] + [sizes.text(n, i) + e for i in sizes.places(n) for e in ('', '/x')]]
    for r in realms:
        want = realm_model(r)
        for u in us:
            st.executions += 1
            st.transitions += 1
            if bool(TrustRoot.checkURL(r.text(), u.text())) != covers(want, u.canon()):
                st.violation('z:%s:%d' % case, 'realm %r, URL %r: expected %r' % (r.text()[:200], u.text()[:200], covers(want, u.canon())), case)
    st.state(case)
    st.outcome('size')


def check(ctx):
    ports = PORTS if ctx.quick else PORTS_T

    def realms():
        for s in ('http', 'https', 'HTTP', 'ftp'):
            for h in RHOSTS:
                for p in ports:
                    if s in ('HTTP', 'ftp') and p[0] not in ('', ':81'):
                        continue
                    if h[0] == '' and p[0]:
                        continue
                    for pa in RPATHS:
                        if ctx.quick and pa not in FEW and (p[0] not in ('', ':81') or h[0] not in FEWH):
                            continue
                        yield (ctx.tier, mk(s, h, p, pa))
    ctx.run(realms, one_realm, key=lambda c: 'r:%s' % c[1].text())
    n = 3 if ctx.quick else 4
    ctx.run(lambda: ((w, t, d) for k in range(1, n + 1) for t in itertools.product(LABELS, repeat=k) for w in (False, True) for d in (False, True)),
            one_sane, key=lambda c: 's:%s' % (('*.' if c[0] else '') + '.'.join(c[1]) + ('.' if c[2] else '')))
    ctx.run(lambda: ['http://*/', 'https://*/', 'http://*:80/', 'http://*./', '', 'foo.com', 'ftp://foo.com/', 'http://foo.com/#f', 'http://user@/', 'http://[::1]/',
                     'http://1.2.3.4/', 'http://*.1.2.3.4/', 'http://f..com/', 'http://*..com/'], one_unsane, shards=1, key=lambda r: 'x:%s' % r)
    prange = sorted(set(x for p in sizes.counts(True) + [2 ** k for k in range(8, 17)] + [10 ** k for k in range(1, 5)] + [8000, 8080, 8443, 6000, 60001, 50000, 65535] for x in near_port(min(p, 65535)))) \
        if ctx.quick else range(65536)
    ctx.run(lambda: itertools.chain((('port', p) for p in prange), ((k, n) for k in ('labels', 'segments', 'args') for n in sizes.counts(ctx.quick) if n), (('path', n) for n in sizes.lengths(ctx.quick))),
            one_size, key=lambda c: 'z:%s:%d' % c)
    ctx.bounds = {'realm_hosts': len(RHOSTS), 'url_hosts': len(UHOSTS), 'realm_paths': len(RPATHS), 'url_paths': len(UPATHS), 'ports': len(ports), 'sanity_labels': n}
