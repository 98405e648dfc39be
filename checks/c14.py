"""C14: URL normalisation over a bounded grammar, against an independent structural model."""
import itertools
from lib import env, sizes
from lib.urlmodel import U
from openid.urinorm import urinorm

LEVEL = 'model_checking'
TECHNIQUE = 'bounded-exhaustive enumeration of the URL grammar on the real code against an independent structural model'
NOTE = ('Every URL of the bounded grammar (component products, all path-segment sequences) is normalised by the real code and '
        'compared with a model that normalises meaning, not text; idempotence checked by a second application.')
RULE = 'all URLs of the grammar; non-trivial = distinct URL text; result compared with the model, then normalised again'
ASSUMPTIONS = ['tab, line feed and carriage return do not occur (urllib removes them while splitting)',
               'IDNA encoding of host labels is the standard library\'s']
H = lambda raw, canon: (raw, canon)
HOSTS = [H('a.com', 'a.com'), H('A.cOm', 'a.com'), H('%61.com', 'a.com'), H('%41.cOM', 'a.com'), H('xn--1xa.com', 'xn--1xa.com'),
         H('\u03c0.com', 'xn--1xa.com'), H('\u03a0.COM', 'xn--1xa.com'), H('%CF%80.com', 'xn--1xa.com'), H('*.a.com', '*.a.com'), H('*', '*'),
         H('1.2.3.4', '1.2.3.4'), H('[::1]', '[::1]'), H('[::AB]', '[::ab]'), H('a.com.', 'a.com.'), H('a-b_c~d', 'a-b_c~d'),
         H('\uff21.com', 'a.com'), H('%EF%BC%A1.com', 'a.com'), H('a!b', 'a!b'), H('%2A.a', '*.a'),
         H('a%2Fb.com', None), H('a%40b.com', None), H('a%3A80', None), H('a%23b', None), H('a%25b', None), H('a%2541', None),
         H('a%3fb', None), H('a%5Bb', None), H('a%5D', None), H('a%EF%BC%8Fb', None), H('a\uff0541', None), H('a%', None), H('a%zz', None),
         H('.a', None), H('a..b', None), H('a b', None), H('a<b', None), H('x' * 64, None), H('%FF', None), H('', None), H('a%00', None), H('a\\b', None),
         H('a"b', None), H('{a}', None), H('[::1', None), H('[zz]', None), H('a%20b', None)]
PORTS = [H('', None), H(':', None), H(':80', 80), H(':443', 443), H(':8080', 8080), H(':0', 0), H(':080', 80), H(':65535', 65535), H(':8', 8),
         H(':65536', 'bad'), H(':a', 'bad'), H(':-1', 'bad'), H(':8_0', 'bad'), H(':+80', 'bad'), H(':80a', 'bad'), H(':8.0', 'bad')]
SCHEMES = ['http', 'HTTP', 'https', 'hTTpS', 'ftp', 'httpx', 'file', 'javascript']
USERS = ['', 'u@', 'U:P@', 'u%40x:@']
SEGS = ['a', 'b', '', '.', '..', '%2e', '%2E%2e', '.%2E', '%61', 'a%2Fb', '%2f', '%3a', ':', '@', '%2B', '+', '%25', '%', '%zz', '\u00e9', '%C3%A9',
        '%c3%a9', '%FF', '%fe', ' ', '~', '%7e', '...', '..a', '.a', "!$&'()*,;=", '%252e', '*', '%00', '|', '%5B', 'A', '%4', 'x%2', '%2e.', '%2F..', '..%2F']
SMALL = ['a', 'b', '', '.', '..', '%2e%2E', '%2F', '..a', 'x%2f..']
QUERIES = [None, '', 'a=b', 'a=b&c=d', 'c=d&a=b', 'a', 'b', 'a=', '=x', '%61=b', 'a=%62', 'a=%2B', 'a=+', 'a=%20', 'a= ', 'a=\u00e9', 'a=%c3%a9', 'a=%FF', 'a=%fe',
           'a=b=c', 'a=b%3Dc', 'a=b%26c', 'a=/?:@', '&a=b&', 'a=b&&c=d', '%', 'a=%zz', 'a=1;b=2', 'A=b', '?', 'a?b=c', 'a=1&a=2', 'a=2&a=1', '%26', 'a%3Db', 'a=%2525', "a=!$'()*,", 'a=~', '\u00e9=\u00fc', 'a=[]']
FRAGS = [None, '', 'f', '%66', 'F', 'a%23b', 'a#b', '%2525', '%25', '\u00e9', 'a:b@/?', '%3A', '[', '%ff', ' ', 'a%2Fb', '%', '?x']


def one(u, st):
    st.executions += 1
    text = u.text()
    want = u.normal()
    got = call(text)
    st.transitions += 1
    if want is None:
        if got != ('ValueError', None):
            st.violation('u:%s' % text, 'urinorm(%r) = %r, expected ValueError' % (text, got), text)
        st.outcome('refused')
    else:
        if got != ('ok', want):
            st.violation('u:%s' % text, 'urinorm(%r) = %r, expected %r' % (text, got, want), text)
        else:
            again = call(want)
            st.transitions += 1
            if again != ('ok', want):
                st.violation('u:%s' % text, 'urinorm is not stable: %r -> %r -> %r' % (text, want, again), text)
        st.outcome('normalised')
    st.state(text)
    st.sample({'url': text, 'normal': want})


def call(t):
    try:
        return ('ok', urinorm(t))
    except ValueError:
        return ('ValueError', None)
    except Exception as e:
        return (type(e).__name__, str(e)[:100])


def check(ctx):
    depth = 3 if ctx.quick else 4
    sdepth = 6 if ctx.quick else 7
    ctx.bounds = {'segments_full_alphabet': depth, 'segments_small_alphabet': sdepth, 'hosts': len(HOSTS), 'queries': len(QUERIES)}
    a, np = HOSTS[0], PORTS[0]
    tails = [('', None, None), ('/', None, None), ('/a/../b', 'x=y', 'f')]
    if not ctx.quick:
        tails += [('', 'q', None), ('', None, 'f'), ('/%2e%2E/%41', 'a=%62&', '%66')]

    def auth():
        for s, us, h, p in itertools.product(SCHEMES, USERS, HOSTS, PORTS):
            if h[0] == '' and (us or p[0]):
                continue
            for pa, q, f in tails:
                yield U(s, us, h, p, pa, q, f)

    def paths():
        for n in range(1, (4 if ctx.quick else 5)):
            for t in itertools.product(SEGS, repeat=n):
                yield U('http', '', a, np, '/' + '/'.join(t))
        for n in range(1, sdepth + 1):
            for t in itertools.product(SMALL if n < 6 else SMALL[:6] if n < 8 else SMALL[:5], repeat=n):
                yield U('https', '', a, np, '/' + '/'.join(t), 'k=v' if n % 2 else None)

    def tailsq():
        for q in QUERIES:
            for f in FRAGS:
                for pa in ('', '/', '/a/', '/a/..', '/a'):
                    yield U('http', '', a, np, pa, q, f)
        for q1, q2 in itertools.product(QUERIES[2:], repeat=2):
            yield U('http', '', a, np, '/', q1 + '&' + q2)
    def large():
        for n in sizes.counts(ctx.quick):
            for seg in ('a', '..', 'a%2f', '.', '', 'a/..', '%7Eb'):
                yield U('http', '', a, np, '/' + '/'.join('%s%s' % (seg, i if 'a' in seg[-3:] else '') for i in range(n)) + '/Z%c3')
                yield U('http', '', a, np, '/' + '/'.join(['x'] * n + [seg] * (n // 2)))
            yield U('http', '', a, np, '/', '&'.join('k%d=%%7e%d' % (i, i) for i in range(n)))
            yield U('http', '', a, np, '/', '&'.join('k=' for i in range(n)), 'f')
            yield U('http', '', H('.'.join(['A'] * (n + 1) + ['com']), '.'.join(['a'] * (n + 1) + ['com'])), PORTS[4], '/')
        for n in sizes.lengths(ctx.quick):
            t = sizes.text(n)
            yield U('http', '', a, np, '/' + t + '%7e')
            yield U('http', '', a, np, '/', t + '=%7e&b=' + t + '+')
            yield U('http', '', a, np, '/', None, t + '%7e')
            yield U('http', t + ':x@', a, np, '/')
            yield U('http', '', a, np, '/' + '\u00e9%41' * n)
    for gen in (auth, paths, tailsq, large):
        ctx.run(gen, one, key=lambda u: 'u:%s' % u.text())
    # raw pair separation: texts of one meaning collapse, others do not (follows from the comparisons; counted here)
