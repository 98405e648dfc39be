"""C25: Accept header negotiation, all small headers x all offered lists against a specification oracle."""
import itertools
from lib import env, sizes
from openid.yadis import accept

LEVEL = 'model_checking'
TECHNIQUE = 'bounded-exhaustive enumeration of headers and offers on the real code against a specification oracle'
NOTE = ('Every header of up to three entries over the alphabet with every offered list up to three types is negotiated by the '
        'real code and compared with an independent oracle of most-specific-match and quality order.')
RULE = 'all (header, offered list) pairs over the alphabet; non-trivial = distinct (header, offer, result)'
ASSUMPTIONS = ['several entries for the same type count with their highest quality, and media-type parameters other than q are '
               'ignored (both documented in the repository\'s acceptance data)']
TYPES = ['text/html', 'text/plain', 'image/png', 'text/*', 'image/*', '*/*']
QS = [None, '0', '0.3', '0.9', '1.0']
OFFER = ['text/html', 'text/plain', 'image/png', 'application/xrds+xml']
BAD = [None, '', 'html', ';q=0.5', 'text', 'q=1']


def entries(quick):
    """(text, None or (main, sub, q))"""
    out = []
    for t in TYPES:
        main, sub = t.split('/')
        for q in QS:
            out.append((t if q is None else '%s; q=%s' % (t, q), (main, sub, 1.0 if q is None else float(q))))
    for t in ('text/html', '*/*'):
        main, sub = t.split('/')
        out.append((t + ';level=1', (main, sub, 1.0)))
        out.append((t + ';q=0.5;level=1', (main, sub, 0.5)))
        out.append((t + ' ; level=1;q=0.5', (main, sub, 0.5)))
        out.append((t + ';q=x', (main, sub, 1.0)))
        out.append((t + ';q', (main, sub, 1.0)))
        out.append((t + ';qs=0.2', (main, sub, 1.0)))
        out.append((t + ';xq=0.2;q=0.6;q=0.1', (main, sub, 0.6)))
    out.append(('application/xrds+xml;q=0.9', ('application', 'xrds+xml', 0.9)))
    out.append(('application/xml', ('application', 'xml', 1.0)))
    for b in BAD[1:]:
        out.append((b, None))
    return out


def quality(parsed, mtype):
    main, sub = mtype.split('/')
    best = {}
    for (m, s, q) in parsed:
        spec = 2 if (m, s) == (main, sub) else 1 if (m == main and s == '*') else 0 if m == '*' else None
        if spec is not None:
            best[spec] = max(best.get(spec, 0.0), q)
    if not parsed:
        return 1.0
    return best[max(best)] if best else 0.0


def oracle(parsed, offer):
    quals = [(quality(parsed, t), i, t) for i, t in enumerate(offer)]
    return [(t, q) for (q, i, t) in sorted((x for x in quals if x[0] > 0), key=lambda x: (-x[0], x[1]))]


def offers(quick):
    out = [()]
    for n in (1, 2, 3) if quick else (1, 2, 3, 4):
        out += list(itertools.permutations(OFFER, n))
    return out


_OFF = {}


def one_header(case, st):
    quick, ents = case
    header = ', '.join(e[0] for e in ents)
    parsed = [e[1] for e in ents if e[1] is not None]
    got = accept.parseAcceptHeader(header)
    if sorted(got) != sorted(parsed):
        st.violation('h:%s' % header, 'parseAcceptHeader(%r) = %r, expected %r in some order' % (header, got, parsed), header)
    qs = [g[2] for g in got]
    if qs != sorted(qs, reverse=True):
        st.violation('h:%s' % header, 'parseAcceptHeader(%r) not ordered by quality: %r' % (header, got), header)
    offs = _OFF.setdefault(quick, offers(quick))
    for off in offs:
        st.executions += 1
        st.transitions += 1
        want = oracle(parsed, off)
        res = accept.getAcceptable(header, list(off))
        if res != [t for t, q in want]:
            st.violation('h:%s' % header, 'getAcceptable(%r, %r) = %r, expected %r' % (header, off, res, want), [header, off])
        m = [(t, float(q)) for t, q in accept.matchTypes(list(got), list(off))]
        if m != want:
            st.violation('h:%s' % header, 'matchTypes(%r, %r) = %r, expected %r' % (header, off, m, want), [header, off])
        st.state((header, off, tuple(res)))
    st.outcome('%d entries' % len(parsed))
    st.sample({'header': header, 'offer': offs[-1], 'result': want})


def compare(key, header, parsed, off, st):
    st.executions += 1
    st.transitions += 2
    st.state((key, header[:200], len(off)))
    want = oracle(parsed, off)
    res = accept.getAcceptable(header, list(off))
    if res != [t for t, q in want]:
        st.violation(key, 'getAcceptable(%r, %r) = %r, expected %r' % (header[:300], off[:9], res[:9], want[:9]), [header[:1000], off[:50]])
    got = accept.parseAcceptHeader(header)
    if sorted(got) != sorted(parsed):
        st.violation(key, 'parseAcceptHeader(%r) = %r' % (header[:300], got[:9]), header[:1000])
    if [(t, float(q)) for t, q in accept.matchTypes(got, list(off))] != want:
        st.violation(key, 'matchTypes of %r differs' % (header[:300],), header[:1000])
    st.outcome('size')


def fine(case, st):
    """Qualities down to a thousandth, two at a time."""
    a, b = case
    for x, y, z in (('text/a', 'text/b', None), ('text/*', 'text/b', None), ('*/*', 'text/a', None), ('text/a', 'text/b', '*/*;q=0.0005')):
        ents = [(x, a), (y, b)]
        header = ', '.join('%s;q=%s' % e for e in ents) + (',' + z if z else '')
        parsed = [tuple(t.split('/')) + (float(q),) for t, q in ents] + ([('*', '*', 0.0005)] if z else [])
        compare('f:%s:%s' % case, header, parsed, ['text/a', 'text/b', 'image/c'], st)


def many(case, st):
    """Many entries, many offered types, long names."""
    kind, n = case
    if kind == 'long':
        t = sizes.text(n) or 'x'
        types = ['text/' + t, 'text/' + t + 'x', t + '/plain', 'text/' + t[:-1] + '~']
    else:
        types = ['t%d/s%d' % (i % 7, i) for i in range(n)]
    qs = ['%.3f' % (((i * 37) % 1000 + 1) / 1000.0) for i in range(len(types))]
    ents = list(zip(types, qs))
    if kind == 'entries':
        off = types[-3:] + types[:3]
    elif kind == 'offers':
        ents = ents[-1:] + [('t3/*', '0.5')]
        off = types
    else:
        off = types
    off = list(dict.fromkeys(off))
    compare('m:%s:%d' % case, ', '.join('%s; q=%s' % e for e in ents), [tuple(t.split('/')) + (float(q),) for t, q in ents], off, st)


def gen_case(els, st):
    st.executions += 1
    st.transitions += 1
    want = []
    for e in els:
        t, q = (e, 1.0) if isinstance(e, str) else e
        want.append(tuple(t.split('/')) + (q,))
    header = accept.generateAcceptHeader(*els)
    got = accept.parseAcceptHeader(header)
    near = len(got) == len(want) and all(g[:2] == w[:2] and abs(g[2] - w[2]) < 0.0501 for g, w in zip(sorted(got), sorted(want)))
    if not near:
        st.violation('g:%r' % (els,), 'generateAcceptHeader%r = %r parses to %r' % (els, header, got), els)
    st.state(('gen', els))
    st.outcome('generated')


def gen_bad(q, st):
    st.executions += 1
    st.transitions += 1
    try:
        h = accept.generateAcceptHeader(('text/html', q))
        st.violation('gb:%r' % q, 'quality %r accepted: %r' % (q, h), q)
    except ValueError:
        st.outcome('refused')


def check(ctx):
    ctx.bounds = {'entries': 3, 'offered': 3 if ctx.quick else 4}
    ents = entries(ctx.quick)
    core = [e for e in ents if e[1] is None and e[0] in ('', 'html') or e[1] is not None and e[1][0] in ('text', '*') and
            e[0] in ('text/html', 'text/html; q=0', 'text/html; q=0.9', 'text/*; q=0.3', 'text/*', 'text/*; q=0', '*/*', '*/*; q=0', '*/*; q=0.9')]

    def headers():
        yield (ctx.quick, ())
        for n in (1, 2):
            for c in itertools.product(ents, repeat=n):
                yield (ctx.quick, c)
        for c in itertools.product(ents, repeat=3):
            yield (ctx.quick, c)
    ctx.run(headers, one_header, key=lambda c: 'h:%s' % ', '.join(e[0] for e in c[1]))

    qs = ['0', '0.000', '0.001', '0.002', '0.01', '0.011', '0.04', '0.049', '0.05', '0.051', '0.099', '0.1', '0.100', '0.101', '0.11', '0.14', '0.15', '0.149', '0.151', '0.25', '0.333', '0.334',
          '0.49', '0.499', '0.5', '0.501', '0.549', '0.55', '0.849', '0.85', '0.95', '0.99', '0.994', '0.995', '0.999', '1', '1.0', '1.000', '.5', '1.', '0.5000000001']
    ctx.run(lambda: itertools.product(qs, repeat=2), fine, key=lambda c: 'f:%s:%s' % c)
    ctx.run(lambda: ((k, n) for k in ('entries', 'offers', 'long') for n in (sizes.lengths(ctx.quick) if k == 'long' else sizes.counts(ctx.quick))), many, key=lambda c: 'm:%s:%d' % c)
    els = ['text/html', 'application/xrds+xml'] + [('text/plain', q / 10.0) for q in range(1, 11)] + [('image/png', 0.3), ('*/*', 0.1), ('text/x', 0.29), ('text/y', 0.96), ('text/z', 0.06)]
    ctx.run(lambda: (c for n in (1, 2, 3) for c in itertools.product(els, repeat=n)), gen_case, key=lambda e: 'g:%r' % (e,))
    ctx.run(lambda: [0, -0.1, 1.1, 2, -1], gen_bad, shards=1, key=lambda q: 'gb:%r' % q)
