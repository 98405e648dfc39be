"""C11: key-value form codec, every text and every pair sequence up to the bound against a line-based oracle."""
import itertools
from lib import env, sizes
from openid import kvform

LEVEL = 'model_checking'
TECHNIQUE = 'bounded-exhaustive enumeration of the codec input space on the real code against a specification oracle'
NOTE = ('Every text and pair sequence up to the length bound over an alphabet of separators, line breaks, white space and '
        'non-ASCII is encoded/decoded by the real code and compared with an independent line oracle.')
RULE = ('all texts up to the length bound and all pair sequences over the alphabet; non-trivial = distinct '
        '(input, result) pair; every result compared with the oracle')
ASSUMPTIONS = ['characters outside the alphabet behave like one of its classes (letter, separator, line feed, '
               'carriage return, ASCII space, Unicode line/space separators, non-ASCII letter)']
ALPHA = ['a', ':', '\n', '\r', ' ', '\x85', '\u00e9']
WIDE = ALPHA + ['\u2028', '\x0b', '\x1c', '\t', '=', '\U0001f600', '\x00', '%']


def lines_of(text):
    out, cur = [], ''
    for ch in text:
        if ch == '\n':
            out.append((cur, True))
            cur = ''
        else:
            cur += ch
    if cur:
        out.append((cur, False))
    return out


def oracle_decode(text):
    """(pairs, strict_ok)"""
    pairs, ok = [], True
    for line, ended in lines_of(text):
        if not ended:
            ok = False
        if not line.strip():
            continue
        pos = line.find(':')
        if pos < 0:
            ok = False
            continue
        k, v = line[:pos], line[pos + 1:]
        if k != k.strip() or v != v.strip() or not k.strip():
            ok = False
        pairs.append((k.strip(), v.strip()))
    return pairs, ok


def run(f, *a, **k):
    try:
        return ('ok', f(*a, **k))
    except ValueError:
        return ('ValueError', None)
    except Exception as e:
        return ('%s' % type(e).__name__, str(e)[:80])


def check_text(text, st):
    st.executions += 1
    want, ok = oracle_decode(text)
    got = run(kvform.kvToSeq, text)
    if got != ('ok', want):
        st.violation('decode:%r' % text, 'kvToSeq(%r) = %r, expected %r' % (text, got, want), text)
    got = run(kvform.kvToSeq, text.encode('utf-8'))
    if got != ('ok', want):
        st.violation('decode:%r' % text, 'kvToSeq(utf-8 bytes of %r) = %r, expected %r' % (text, got, want), text)
    got = run(kvform.kvToSeq, text, strict=True)
    if got != (('ok', want) if ok else ('ValueError', None)):
        st.violation('decode:%r' % text, 'strict kvToSeq(%r) = %r, expected %s' % (text, got, want if ok else 'an error'), text)
    got = run(kvform.kvToDict, text)
    if got != ('ok', dict(want)):
        st.violation('decode:%r' % text, 'kvToDict(%r) = %r, expected %r' % (text, got, dict(want)), text)
    # after one parse, encoding and decoding are inverse
    if all('\n' not in v for k, v in want):
        re = run(kvform.seqToKV, want)
        if re[0] != 'ok' or run(kvform.kvToSeq, re[1]) != ('ok', want):
            st.violation('decode:%r' % text, 'pairs of %r do not survive re-encoding: %r' % (text, re), text)
    st.transitions += 5
    st.state((text, want))
    st.outcome('strict-ok' if ok else 'malformed')
    st.sample({'text': text, 'pairs': want, 'strict_ok': ok})


def check_seq(seq, st):
    st.executions += 1
    seq = list(seq)
    bad = any('\n' in k or ':' in k or '\n' in v for k, v in seq)
    spaced = any(k != k.strip() or v != v.strip() for k, v in seq)
    want = ''.join('%s:%s\n' % kv for kv in seq)
    for strict in (False, True):
        exp = ('ValueError', None) if bad or (strict and spaced) else ('ok', want)
        got = run(kvform.seqToKV, list(seq), strict=strict)
        if got != exp:
            st.violation('encode:%r' % seq, 'seqToKV(%r, strict=%r) = %r, expected %r' % (seq, strict, got, exp), seq)
    bseq = [(k.encode('utf-8'), v.encode('utf-8')) for k, v in seq]
    exp = ('ValueError', None) if bad else ('ok', want)
    got = run(kvform.seqToKV, bseq)
    if got != exp:
        st.violation('encode:%r' % seq, 'seqToKV(bytes %r) = %r, expected %r' % (seq, got, exp), seq)
    d = dict(seq)
    exp = (('ValueError', None) if any('\n' in k or ':' in k or '\n' in v for k, v in d.items())
           else ('ok', ''.join('%s:%s\n' % kv for kv in sorted(d.items()))))
    got = run(kvform.dictToKV, d)
    if got != exp:
        st.violation('encode:%r' % seq, 'dictToKV(%r) = %r, expected %r' % (d, got, exp), seq)
    if not bad and not spaced:
        back = run(kvform.kvToSeq, want)
        if back != ('ok', seq):
            st.violation('encode:%r' % seq, 'kvToSeq(seqToKV(%r)) = %r' % (seq, back), seq)
        if exp[0] == 'ok' and run(kvform.kvToDict, exp[1]) != ('ok', d):
            st.violation('encode:%r' % seq, 'kvToDict(dictToKV(%r)) differs' % d, seq)
    st.transitions += 5
    st.state(('seq', seq))
    st.outcome('refused' if bad else ('spaced' if spaced else 'encoded'))


def one_size(case, st):
    """Many lines and long lines, read and written."""
    kind, n, t = case
    if kind == 'many':
        seq = [('k%d%s' % (i, t), 'v%d%s' % (i, t)) for i in range(n)]
    elif kind == 'key':
        seq = [('a', 'b'), ('k' + sizes.text(n) + t, 'v'), ('k2', 'd')]
    else:
        seq = [('a', 'b'), ('k', sizes.text(n) + t), ('l', 'd')]
    st.executions += 1
    st.transitions += 4
    st.state(case)
    want = ''.join('%s:%s\n' % kv for kv in seq)
    for what, got, exp in (('seqToKV', run(kvform.seqToKV, list(seq)), want), ('kvToSeq', run(kvform.kvToSeq, want), seq),
                           ('dictToKV', run(kvform.dictToKV, dict(seq)), ''.join('%s:%s\n' % kv for kv in sorted(seq))), ('kvToDict', run(kvform.kvToDict, want), dict(seq)),
                           ('strict kvToSeq', run(kvform.kvToSeq, want, strict=True), seq)):
        if got != ('ok', exp):
            st.violation('size:%r' % (case,), '%s of %s size %d: %s' % (what, kind, n, str(got)[:100]), case)
    st.outcome('size')


def strings(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield ''.join(t)


def check(ctx):
    n = 7 if ctx.quick else 8
    ctx.bounds = {'text_length': n, 'alphabet': [repr(c) for c in ALPHA], 'wide_alphabet_length': 4 if ctx.quick else 5}
    ctx.run(lambda: strings(ALPHA, n), check_text, key=lambda t: 'decode:%r' % t)
    ctx.run(lambda: strings(WIDE, 4 if ctx.quick else 5), check_text, key=lambda t: 'decode:%r' % t)

    def seqs():
        ks = list(strings(ALPHA, 2))
        for k in ks:
            for v in ks:
                yield ((k, v),)
        for s in itertools.product(list(strings(ALPHA, 1)), repeat=4):
            yield ((s[0], s[1]), (s[2], s[3]))
        for w in strings(WIDE, 2):
            yield ((w, 'v'),)
            yield (('k', w),)
            yield (('k', 'v' + w + 'v'),)
            yield (('k' + w + 'k', 'v'), ('b', 'c'))
        for s in itertools.product(['', 'a', ' ', ':', '\n'] if ctx.quick else ['', 'a', ' ', ':', '\n', '\r', '\u00e9'], repeat=6):
            yield ((s[0], s[1]), (s[2], s[3]), (s[4], s[5]))
        if not ctx.quick:
            k3 = list(strings(['a', ':', '\n', ' ', '\x85'], 2))
            for s in itertools.product(k3, repeat=4):
                yield ((s[0], s[1]), (s[2], s[3]))
        yield ()
    ctx.run(lambda: ((k, n, t) for k in ('many', 'key', 'value') for t in ('', '\u00e9') for n in (sizes.counts(ctx.quick) if k == 'many' else sizes.lengths(ctx.quick))), one_size, key=lambda c: 'size:%r' % (c,))
    ctx.run(seqs, check_seq, key=lambda s: 'encode:%r' % list(s))
