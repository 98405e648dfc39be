"""C23: number encodings and Diffie-Hellman secrets, enumerated around every length boundary, against integer arithmetic."""
import base64, hashlib, itertools
from lib import env
from openid import cryptutil, oidutil
from openid.dh import DiffieHellman, strxor
from openid.constants import DEFAULT_DH_MODULUS, DEFAULT_DH_GENERATOR
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric.dh import DHPrivateNumbers, DHPublicNumbers

LEVEL = 'model_checking'
TECHNIQUE = 'bounded-exhaustive enumeration of integers, byte strings and key pairs on the real code against integer arithmetic'
NOTE = ('All integers to a bound and around every byte/bit-length boundary, all short byte strings, and every shared-secret '
        'bit length in several groups are run through the real conversions and compared with exact arithmetic.')
RULE = 'non-trivial = distinct input value; every conversion compared with arithmetic and with the specification\'s btwoc form'
ASSUMPTIONS = ['OpenSSL computes modular exponentiation correctly (compared with Python integers anyway)',
               'base64 text is decoded leniently with respect to foreign characters, as the standard library does']

ALGS = {'sha1': (hashes.SHA1, hashlib.sha1, 20), 'sha256': (hashes.SHA256, hashlib.sha256, 32)}


def btwoc(n):
    if n == 0:
        return b'\x00'
    return n.to_bytes(n.bit_length() // 8 + 1, 'big')


def chk(st, key, cond, what):
    st.transitions += 1
    if not cond:
        st.violation(key, what, key)


def call(f, *a):
    try:
        return f(*a)
    except ValueError:
        return 'ValueError'
    except Exception as e:
        return 'raised ' + type(e).__name__ + ': ' + str(e)[:80]


def one_int(n, st):
    k = 'int:%d' % n
    st.executions += 1
    want = btwoc(n)
    chk(st, k, call(cryptutil.int_to_bytes, n) == want, 'int_to_bytes(%d) = %r, expected %r' % (n, call(cryptutil.int_to_bytes, n), want))
    chk(st, k, call(cryptutil.bytes_to_int, want) == n, 'bytes_to_int(%r) = %r' % (want, call(cryptutil.bytes_to_int, want)))
    b64 = base64.b64encode(want).decode()
    chk(st, k, call(cryptutil.longToBase64, n) == b64, 'longToBase64(%d) = %r' % (n, call(cryptutil.longToBase64, n)))
    chk(st, k, call(cryptutil.base64ToLong, b64) == n, 'base64ToLong(%r) = %r' % (b64, call(cryptutil.base64ToLong, b64)))
    chk(st, k, call(cryptutil.longToBinary, n) == want and call(cryptutil.binaryToLong, want) == n, 'deprecated conversions of %d' % n)
    if n:
        r = call(cryptutil.int_to_bytes, -n)
        chk(st, k, r == 'ValueError', 'int_to_bytes(-%d) = %r' % (n, r))
    st.state(('i', n))
    st.outcome('int')


def one_bytes(b, st):
    k = 'bytes:' + b.hex()
    st.executions += 1
    want = int.from_bytes(b, 'big') if b else 'ValueError'
    chk(st, k, call(cryptutil.bytes_to_int, b) == want, 'bytes_to_int(%r) = %r' % (b, call(cryptutil.bytes_to_int, b)))
    if b:
        for v in (bytes(b), bytearray(b)):
            f = call(cryptutil.fix_btwoc, v)
            exp = (b'\x00' + b) if b[0] > 127 else b
            chk(st, k, f == exp, 'fix_btwoc(%r) = %r' % (b, f))
    e = call(oidutil.toBase64, b)
    chk(st, k, e == base64.b64encode(b).decode(), 'toBase64(%r) = %r' % (b, e))
    d = call(oidutil.fromBase64, base64.b64encode(b).decode())
    chk(st, k, d == b, 'fromBase64(toBase64(%r)) = %r' % (b, d))
    # every truncation that breaks the padding is refused
    full = base64.b64encode(b).decode()
    for cut in range(1, min(4, len(full))):
        t = full[:-cut]
        if len(t) % 4:
            r = call(oidutil.fromBase64, t)
            chk(st, k, r == 'ValueError', 'fromBase64 of truncated %r = %r' % (t, r))
            r = call(cryptutil.base64ToLong, t)
            chk(st, k, r == 'ValueError', 'base64ToLong of truncated %r = %r' % (t, r))
    r = call(cryptutil.base64ToLong, full + '\u00e9')
    chk(st, k, r == 'ValueError', 'base64ToLong of non-ASCII text = %r' % (r,))
    st.state(('b', b))
    st.outcome('bytes')


P1024 = int.from_bytes(base64.b64decode(DEFAULT_DH_MODULUS), 'big')
GROUPS = {
    'default': (P1024, 2),
    'p512': (0x8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001a433, 2),
    'p513': (0x100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000046093, 2),
    'p516': (0x800000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000091e93, 2),
    'p521': (0x10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000211b43, 2),
}
_DH = {}


def dh_for(group, x):
    p, g = GROUPS[group]
    if group == 'default':
        d = _DH.get(group) or DiffieHellman.fromDefaults()
    else:
        d = _DH.get(group) or DiffieHellman(base64.b64encode(btwoc(p)).decode(), base64.b64encode(btwoc(g)).decode())
    _DH[group] = d
    pub = DHPublicNumbers(pow(g, x, p), d.parameter_numbers)
    d.private_key = DHPrivateNumbers(x, pub).private_key(default_backend())
    return d


def one_exchange(case, st):
    """x is this side's private key; y is the other side's public key."""
    group, x, y, alg = case
    k = 'dh:%s:%d:%d:%s' % (group, x, y, alg)
    p, g = GROUPS[group]
    st.executions += 1
    d = dh_for(group, x)
    A, H, size = ALGS[alg]
    chk(st, k, d.public_key == base64.b64encode(btwoc(pow(g, x, p))).decode(), 'public key of x=%d in %s is %r' % (x, group, d.public_key))
    chk(st, k, d.parameters == (base64.b64encode(btwoc(p)).decode(), base64.b64encode(btwoc(g)).decode()), 'parameters of %s' % group)
    chk(st, k, d.usingDefaultValues() == (group == 'default'), 'usingDefaultValues in %s' % group)
    secret = bytes((i * 37 + x + y) % 256 for i in range(size))
    yb = base64.b64encode(btwoc(y)).decode()
    s64 = base64.b64encode(secret).decode()
    want = base64.b64encode(bytes(a ^ b for a, b in zip(secret, H(btwoc(pow(y, x, p))).digest()))).decode()
    got = call(d.xor_secret, yb, s64, A())
    chk(st, k, got == want, 'xor_secret = %r, expected %r (shared secret of %d bits)' % (got, want, pow(y, x, p).bit_length()))
    if got != 'ValueError' and isinstance(got, str):
        back = call(d.xor_secret, yb, got, A())
        chk(st, k, back == s64, 'decrypting gives %r, expected %r' % (back, s64))
    old = call(d.xorSecret, y, secret, lambda v: H(v).digest())
    chk(st, k, old == base64.b64decode(want), 'xorSecret = %r' % (old,))
    for wrong in (secret[:-1], secret + b'\x00', b''):
        r = call(d.xor_secret, yb, base64.b64encode(wrong).decode(), A())
        chk(st, k, r == 'ValueError', 'a secret of %d bytes gives %r' % (len(wrong), r))
    st.state(case)
    st.outcome('exchange')
    st.sample({'group': group, 'x': x, 'y_bits': y.bit_length(), 'alg': alg})


def one_pair(case, st):
    """Both ends with private keys x1, x2: each decrypts what the other encrypted."""
    group, x1, x2, alg = case
    k = 'pair:%s:%d:%d:%s' % case
    st.executions += 1
    A, H, size = ALGS[alg]
    secret = base64.b64encode(bytes(range(size))).decode()
    pub1 = dh_for(group, x1).public_key
    d2 = dh_for(group, x2)
    pub2 = d2.public_key
    enc = d2.xor_secret(pub1, secret, A())
    dec = dh_for(group, x1).xor_secret(pub2, enc, A())
    chk(st, k, dec == secret, 'one side sends %r, the other gets %r' % (secret, dec))
    st.state(case)
    st.outcome('pair')


def one_strxor(case, st):
    a, b = case
    k = 'xor:%s:%s' % (a.hex(), b.hex())
    st.executions += 1
    want = bytes(i ^ j for i, j in zip(a, b)) if len(a) == len(b) else 'ValueError'
    r = call(strxor, a, b)
    chk(st, k, r == want, 'strxor(%r, %r) = %r' % (a, b, r))
    st.outcome('strxor')
    st.state(case)


def check(ctx):
    N = 70000 if ctx.quick else 3000000
    maxbytes = 140 if ctx.quick else 300

    def ints():
        for n in range(N):
            yield n
        for kb in range(2, maxbytes):
            for e in (8 * kb, 8 * kb - 1, 8 * kb - 4):
                for d in range(-4, 5):
                    yield (1 << e) + d
            yield (1 << (8 * kb)) // 3
            yield 0x80 << (8 * kb)
            yield 0x7f << (8 * kb)
            yield 0xff << (8 * kb)
    ctx.run(ints, one_int, key=lambda n: 'int:%d' % n)

    def bts():
        yield b''
        for n in range(256):
            yield bytes([n])
        for t in itertools.product(range(256) if not ctx.quick else (0, 1, 2, 61, 127, 128, 129, 200, 254, 255), repeat=2):
            yield bytes(t)
        sm = (0, 1, 127, 128, 255)
        for n in (3, 4, 5) if ctx.quick else (3, 4, 5, 6, 7):
            for t in itertools.product(sm, repeat=n):
                yield bytes(t)
        for n in range(5, maxbytes):
            for f in sm:
                for r in (0, 255, 0x5a):
                    yield bytes([f]) + bytes([r]) * n
    ctx.run(bts, one_bytes, key=lambda b: 'bytes:' + b.hex())

    def exch():
        for group, (p, g) in GROUPS.items():
            bits = p.bit_length()
            step = 1
            for e in range(1, bits - 1, step):          # the shared secret takes every bit length
                for alg in ALGS:
                    yield (group, 1, 1 << e, alg)
                    if not ctx.quick or e % 4 == 3:
                        yield (group, 1, (1 << e) - 1 if e > 1 else 3, alg)
                        yield (group, 1, (1 << e) + 1, alg)
            for x in (2, 3, 5, 17, 100, 509, bits - 2, 65537):
                for y in (2, 3, 4, 5, 255, 256, 65535, p - 2, p // 2, p // 3):
                    for alg in ALGS:
                        yield (group, x, y, alg)
    ctx.run(exch, one_exchange, key=lambda c: 'dh:%s:%d:%d:%s' % c)

    def pairs():
        for group, (p, g) in GROUPS.items():
            xs = [1, 2, 3, 7, 8, 15, 16, 100, 500, 509, p // 2 - 3, p // 3, p // 5, 2 ** 300 + 1]
            if not ctx.quick:
                xs += list(range(4, 60)) + [p // k for k in range(6, 40)]
            for a in xs:
                for b in xs:
                    for alg in ALGS:
                        yield (group, a, b, alg)
    ctx.run(pairs, one_pair, key=lambda c: 'pair:%s:%d:%d:%s' % c)
    sx = [bytes(t) for n in range(4) for t in itertools.product((0, 1, 128, 255), repeat=n)]
    ctx.run(lambda: itertools.product(sx, repeat=2), one_strxor, key=lambda c: 'xor:%s:%s' % (c[0].hex(), c[1].hex()))
    ctx.bounds = {'all_integers_below': N, 'boundary_bytes': maxbytes, 'groups': sorted(GROUPS), 'shared_secret_bit_lengths': 'every length in each group'}
