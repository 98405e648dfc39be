"""C12: signatures bind exactly the signed fields; accessors report as signed only what was signed."""
import itertools, hmac, base64
from lib import env, world, rp, sizes
from lib.world import NS1, NS2, SREG, HASH
from lib.env import T0
from openid.association import Association
from openid.message import Message, OPENID_NS, OPENID2_NS, BARE_NS
from openid.consumer.consumer import SuccessResponse
from openid.consumer.discover import OpenIDServiceEndpoint

LEVEL = 'model_checking'
TECHNIQUE = ('bounded-exhaustive enumeration of messages, ordered signed lists, keys and signature variants on the real '
             'Association, Message, SuccessResponse and Consumer against an independent HMAC and wire-name model')
NOTE = 'every message/list/key combination within the bound is signed and verified by the implementation and by the model'
RULE = ('state = (wire fields, signed list, algorithm, key); every state signed and verified; each signature tried on every '
        'message of a neighbourhood that differs in one respect')
ASSUMPTIONS = ['HMAC-SHA1/SHA256 do not collide', 'an absent signed field counts as the empty value',
               'a field counts as signed when its wire name is in the verified signed list; field names contain no comma']
X, Y, Z = 'http://x.example/', 'http://y.example/', 'http://z.example/'


def digest(key, alg, wire, signed):
    text = ''.join('%s:%s\n' % (f, wire.get('openid.' + f, '')) for f in signed)
    return base64.b64encode(hmac.new(key, text.encode('utf-8'), HASH[alg]).digest()).decode()


def refused(wire, signed):
    for f in signed:
        v = wire.get('openid.' + f, '')
        if '\n' in f or ':' in f or '\n' in v or any('\ud800' <= c <= '\udfff' for c in v):     # (a lone surrogate has no UTF-8 form)
            return True
    return False


def assoc(k, alg, handle='h'):
    return Association(handle, rp.secret(k, alg), T0, 1000, alg)


KEYS = [(1, 'HMAC-SHA1'), (2, 'HMAC-SHA1'), (1, 'HMAC-SHA256'), (2, 'HMAC-SHA256')]
# (base fields, names that may be signed)
SHAPES = {
    'v2': ({'openid.ns': NS2, 'openid.ns.x': X}, ['identity', 'x.k', 'ns.x', 'signed', 'gone', 'mode']),
    'v1': ({}, ['identity', 'sreg.k', 'mode', 'signed', 'gone', 'a.b']),
    'v2b': ({'openid.ns': NS2, 'openid.ns.x': X, 'openid.ns.y': Y}, ['x.k', 'y.k', 'ns.y', 'x.k.k', 'signed', 'ns']),
}
VALUES = [None, '', 'v', 'w', 'v\nidentity:w', 'é ', 'a:b', 'v\udc80']


def part_a(case, st, quick):
    """One signed list of one shape, all value assignments: the signature equals the independent HMAC,
    verifies with it and with no signature of a neighbour."""
    _, shape, signed = case
    basef, names = SHAPES[shape]
    var = [n for n in names if n not in ('signed', 'gone', 'ns', 'ns.x', 'ns.y')][:3]
    vals = VALUES if len(signed) < 3 or not quick else VALUES[:5]
    seen = {}
    for combo in itertools.product(vals, repeat=len(var)):
        wire = dict(basef)
        for n, v in zip(var, combo):
            if v is not None:
                wire['openid.' + n] = v
        wire['openid.signed'] = ','.join(signed)
        bad = refused(wire, signed)
        for (k, alg) in (KEYS if len(signed) < 3 else KEYS[::3]):
            a = assoc(k, alg)
            st.executions += 1
            st.transitions += 1
            m = Message.fromPostArgs(wire)
            try:
                got = a.getMessageSignature(m)
            except ValueError:
                got = None
            want = None if bad else digest(rp.secret(k, alg), alg, wire, signed)
            if got != want:
                st.violation(repr(case), 'signature %r, expected %r for %r' % (got, want, wire), {'wire': wire})
            st.outcome('refused' if want is None else 'signed')
            if want is None:
                continue
            st.state((shape, signed, tuple((s, wire.get('openid.' + s, '')) for s in signed), k, alg))
            seen[(tuple(wire.get('openid.' + s, '') for s in signed), k, alg)] = want
            m.setArg(OPENID_NS, 'sig', want)
            st.transitions += 1
            if not a.checkMessageSignature(m):
                st.violation(repr(case), 'own signature refused: %r' % (wire,), {'wire': wire})
            for name, forged in (('flip', ('A' if want[0] != 'A' else 'B') + want[1:]), ('last', want[:-2] + 'A='),
                                 ('short', want[:-1]), ('long', want + 'A'), ('case', want.swapcase()), ('nl', want + '\n'),
                                 ('half', want[:len(want) // 2]), ('é', 'é'), ('+é', want + 'é'), ('é+', 'é' + want), ('sp', ' ' + want),
                                 ('pad', want + '='), ('nul', want + '\0'), ('twice', want + want)):
                if forged == want:
                    continue
                m.setArg(OPENID_NS, 'sig', forged)
                st.transitions += 1
                if a.checkMessageSignature(m):
                    st.violation(repr(case), 'forged signature (%s) accepted for %r' % (name, wire), {'wire': wire, 'sig': forged})
    # every signature of the neighbourhood against every message of it: equal exactly when the signed data is
    items = list(seen.items())
    if len(items) > 60:
        items = items[:: len(items) // 60 + 1]
    for (v1, k1, a1), s1 in items:
        for (v2, k2, a2), s2 in items:
            wire = dict(basef)
            wire['openid.signed'] = ','.join(signed)
            for s, v in zip(signed, v2):
                if s not in ('signed', 'gone') and not s.startswith('ns'):
                    wire['openid.' + s] = v
            if any(wire.get('openid.' + s, '') != v for s, v in zip(signed, v2)):
                continue
            wire['openid.sig'] = s1
            st.transitions += 1
            got = assoc(k2, a2).checkMessageSignature(Message.fromPostArgs(wire))
            if got != ((v1, k1, a1) == (v2, k2, a2)):
                st.violation(repr(case), 'signature over %r with key %r checks as %r on %r with key %r' % (
                    v1, (k1, a1), got, v2, (k2, a2)), {'wire': wire})


def part_lists(case, st):
    """One signature against all other signed lists (permutations, subsets, supersets)."""
    _, shape, wire_i = case
    basef, names = SHAPES[shape]
    wire0 = dict(basef)
    for n, v in zip([n for n in names if n not in ('signed', 'gone') and not n.startswith('ns')], wire_i):
        if v is not None:
            wire0['openid.' + n] = v
    lists = [p for r in range(1, 4) for p in itertools.permutations(names, r)] + \
            [(a, a) for a in names] + [(a + ' ',) for a in names[:2]] + [('',), ('', names[0]), (names[0], '')]
    k, alg = 1, 'HMAC-SHA1'
    a = assoc(k, alg)
    sigs = {}
    for L in lists:
        sigs[L] = digest(rp.secret(k, alg), alg, dict(wire0, **{'openid.signed': ','.join(L)}), L)
    some = lists[:: max(1, len(lists) // 40)]
    for L in some:
        for M in lists:
            wire = dict(wire0)
            wire['openid.signed'] = ','.join(M)
            wire['openid.sig'] = sigs[L]
            st.executions += 1
            st.transitions += 1
            try:
                got = a.checkMessageSignature(Message.fromPostArgs(wire))
            except ValueError:
                got = False if not wire['openid.signed'] else 'raised'
            if got != (sigs[L] == sigs[M] and bool(wire['openid.signed'])):
                st.violation(repr(case), 'signature for list %r checks as %r under list %r' % (L, got, M), {'wire': wire})
            st.state((shape, wire_i, L, M))


def part_b(case, st):
    """signMessage signs everything of the message, leaves the original alone."""
    _, ns, vals, handle = case
    keys = [(OPENID_NS, 'identity'), (OPENID_NS, 'return_to'), (X, 'k'), (Y, 'a.b'), (BARE_NS, 'bare'), (OPENID_NS, 'foo:bar')]
    m = Message(ns)
    for (n, k), v in zip(keys, vals):
        if v is not None:
            m.setArg(n, k, v)
    if handle is not None:
        m.setArg(OPENID_NS, 'assoc_handle', handle)
    before = dict(m.toPostArgs())
    st.executions += 1
    st.state(case)
    for (k, alg) in KEYS[::3]:
        a = assoc(k, alg)
        st.transitions += 1
        bad = handle not in (None, '', 'h') or any('\n' in v for v in vals[:4] if v) or vals[5] is not None
        try:
            s = a.signMessage(m)
        except ValueError:
            st.outcome('sign refused')
            if not bad:
                st.violation(repr(case), 'refused to sign %r' % (before,), {'wire': before})
            continue
        if bad:
            st.violation(repr(case), 'signed unsignable %r' % (before,), {'wire': before})
            continue
        st.outcome('message signed')
        wire = dict(s.toPostArgs())
        if dict(m.toPostArgs()) != before:
            st.violation(repr(case), 'signing changed the original', {'wire': before})
        rest = {k2: v for k2, v in wire.items() if k2 not in ('openid.sig', 'openid.signed')}
        if rest != dict(before, **{'openid.assoc_handle': 'h'}):
            st.violation(repr(case), 'signing changed the content: %r' % (wire,), {'wire': before})
        L = wire['openid.signed'].split(',')
        if sorted(L) != sorted([k2[7:] for k2 in wire if k2.startswith('openid.') and k2 != 'openid.sig']):
            st.violation(repr(case), 'signed list %r does not cover %r' % (L, sorted(wire)), {'wire': wire})
        if wire['openid.sig'] != digest(rp.secret(k, alg), alg, wire, L):
            st.violation(repr(case), 'wrong signature', {'wire': wire})
        if not a.checkMessageSignature(Message.fromPostArgs(wire)):
            st.violation(repr(case), 'own signed message does not verify', {'wire': wire})
        for extra in ('openid.sig', 'openid.signed'):
            st.transitions += 1
            m2 = Message.fromPostArgs(dict(before, **{extra: 'x'}))
            try:
                a.signMessage(m2)
                st.violation(repr(case), 'signed a message that has %s' % extra, {'wire': before})
            except ValueError:
                pass


def accessors(resp, wire, signed_wire, aliases, where, st, case, v2=True):
    """Compare every accessor with the wire-name model. aliases: namespace -> alias (None for OpenID itself)."""
    for nsuri, alias in aliases.items():
        pre = 'openid.' + (alias + '.' if alias is not None else '')
        own = {}
        if alias is not None:
            own = {k[len(pre):]: v for k, v in wire.items() if k.startswith(pre)}
        else:
            used = [a for a in aliases.values() if a is not None] + ['ns']
            own = {k[7:]: v for k, v in wire.items() if k.startswith('openid.') and k[7:].split('.')[0] not in used}
        allsigned = all(pre + k in signed_wire for k in own)
        st.transitions += 3
        got = resp.getSignedNS(nsuri)
        if got != (own if allsigned else None):
            st.violation(case, '%s getSignedNS(%r) = %r; fields %r signed %r' % (where, nsuri, got, own, signed_wire), {'wire': wire})
        got = resp.extensionResponse(nsuri, True)
        if got != (own if allsigned else None):
            st.violation(case, '%s extensionResponse(%r, True) = %r' % (where, nsuri, got), {'wire': wire})
        got = resp.extensionResponse(nsuri, False)
        if got != own:
            st.violation(case, '%s extensionResponse(%r, False) = %r' % (where, nsuri, got), {'wire': wire})
        for k in list(own) + ['absent']:
            st.transitions += 2
            want = pre + k in signed_wire
            if bool(resp.isSigned(nsuri, k)) != want:
                st.violation(case, '%s isSigned(%r, %r) is %r, wire list %r' % (where, nsuri, k, not want, signed_wire), {'wire': wire})
            got = resp.getSigned(nsuri, k, 'dflt')
            if got != (own.get(k, 'dflt') if want else 'dflt'):
                st.violation(case, '%s getSigned(%r, %r) = %r, wire list %r' % (where, nsuri, k, got, signed_wire), {'wire': wire})
    got = resp.getReturnTo()
    want = wire.get('openid.return_to') if 'openid.return_to' in signed_wire else None
    if got != want:
        st.violation(case, '%s getReturnTo() = %r, expected %r' % (where, got, want), {'wire': wire})


ALIASES = [{X: 'x', Y: 'y'}, {X: 'y', Y: 'x'}, {X: 'sreg', Y: 'ext1'}, {X: 'x', Y: 'xx'}]


def part_c(case, st):
    _, ai, present, lures = case[:4]
    blank = case[4:]
    al = ALIASES[ai]
    ax, ay = al[X], al[Y]
    wire = {'openid.ns': NS2, 'openid.ns.' + ax: X, 'openid.ns.' + ay: Y, 'bare': '1',
            'openid.mode': 'id_res', 'openid.return_to': 'http://rp.example/'}
    pool = ['openid.%s.k' % ax, 'openid.%s.l' % ax, 'openid.%s.k' % ay, 'openid.k', 'openid.%s.k.l' % ay]
    for n, p in enumerate(pool):
        if present >> n & 1:
            wire[p] = 'v%d' % n if not blank else ''
    m = Message.fromPostArgs(wire)
    ep = OpenIDServiceEndpoint()
    ep.claimed_id = 'http://u.example/'
    names = pool + ['openid.return_to', 'openid.mode']
    for bits in range(1 << len(names)):
        signed = [p for n, p in enumerate(names) if bits >> n & 1]
        if lures:
            signed = signed + ['openid.z.k', '%s.k' % ax, 'k', 'bare', 'openid.ns.' + ax, 'openid.', '', X + 'k', 'openid.bare']
        st.executions += 1
        resp = SuccessResponse(ep, m, signed)
        accessors(resp, wire, signed, {OPENID_NS: None, X: ax, Y: ay, Z: 'zz'}, 'accessor', st, repr((case, bits)))
        st.state((ai, present, lures, bits, blank))
    resp = SuccessResponse(ep, m)
    accessors(resp, wire, [], {OPENID_NS: None, X: ax, Y: ay, Z: 'zz'}, 'no list', st, repr(case))


ODD = {'space': lambda s: ' ' + s, 'after': lambda s: s + ' ', 'case': lambda s: s.upper(), 'full': lambda s: 'openid.' + s, 'cut': lambda s: s[:-1]}


def part_d(case, st):
    """The same through a real login: only what the signature covered is reported as signed."""
    _, version, mode, ai, bits, form = case
    w = rp.World(version, mode)
    al = ALIASES[ai]
    q = w.fields()
    q.pop('openid.ns.sreg', None)
    q.pop('openid.sreg.nickname', None)
    if version != 2:
        q.pop('openid.ns', None)
    for u, a in al.items():
        q['openid.ns.' + a] = u
    opt = ['%s.k' % al[X], '%s.l' % al[X], '%s.k' % al[Y], 'ns.' + al[X], 'extra']
    for o in opt:
        if not o.startswith('ns'):
            q['openid.' + o] = 'val-' + o if form != 'blank' else ''
    signed = [s for s in w.signed() if 'sreg' not in s] + [o for n, o in enumerate(opt) if bits >> n & 1]
    signed = [s for s in signed if 'openid.' + s in q]
    wrap = ODD.get(form)
    if wrap:              # an odd spelling names another field
        signed = [s if s not in opt else wrap(s) for s in signed]
    k = w.private[w.handle]
    q = world.sign(q, signed, *k)
    q.update(w.bare())
    resp = w.complete(q, rp.RETURN)
    st.executions += 1
    st.state(case)
    st.outcome('login ' + resp.status)
    if wrap and any(wrap(o) in signed for o in opt) and mode != 'assoc':
        if resp.status == 'success':        # a signed field is missing
            st.violation(repr(case), 'login with a signed field missing', {'query': q})
        return
    if resp.status != 'success':
        st.violation(repr(case), 'login failed: %s' % (getattr(resp, 'message', ''),), {'query': q})
        return
    accessors(resp, q, ['openid.' + s for s in signed], {OPENID_NS: None, X: al[X], Y: al[Y]}, 'login', st, repr(case))


def part_size(case, st):
    """Many signed fields and long values: the signature covers each of them, to the last character."""
    _, kind, n, alg = case
    a = assoc(1, alg)
    key = rp.secret(1, alg)
    wire = {'openid.ns': NS2, 'openid.ns.x': X}
    if kind == 'fields':
        names = ['x.f%d' % i for i in range(n)]
        wire.update(('openid.' + f, 'v%d' % i) for i, f in enumerate(names))
    elif kind == 'name':
        names = ['x.' + sizes.text(n), 'x.b']
        wire.update(('openid.' + f, 'v') for f in names)
    else:
        names = ['x.a', 'x.b']
        wire.update({'openid.x.a': sizes.text(n), 'openid.x.b': 'v'})
    signed = ['ns', 'ns.x'] + names
    wire['openid.signed'] = ','.join(signed)
    st.executions += 1
    st.state(case)
    want = digest(key, alg, wire, signed)

    def check_is(w, good, what):
        st.transitions += 1
        got = a.checkMessageSignature(Message.fromPostArgs(dict(w, **{'openid.sig': want})))
        if got != good:
            st.violation(repr(case), '%s: signature checks as %r' % (what, got), {'size': n})
    if a.getMessageSignature(Message.fromPostArgs(wire)) != want:
        st.violation(repr(case), 'wrong signature', {'size': n})
    check_is(wire, True, 'the signed message')
    if kind == 'fields':
        for i in sizes.places(n):
            check_is(dict(wire, **{'openid.' + names[i]: 'w'}), False, 'field %d changed' % i)
            check_is(dict((k, v) for k, v in wire.items() if k != 'openid.' + names[i]), False, 'field %d removed' % i)
            check_is(dict(wire, **{'openid.signed': ','.join(signed[:i + 2] + signed[i + 3:])}), False, 'field %d unlisted' % i)
            resp = SuccessResponse(OpenIDServiceEndpoint(), Message.fromPostArgs(wire), ['openid.' + s for j, s in enumerate(signed) if j != i + 2])
            if resp.getSignedNS(X) is not None or resp.isSigned(X, 'f%d' % i) or resp.getSigned(X, 'f%d' % i) is not None:
                st.violation(repr(case), 'unsigned field %d reported as signed' % i, {'size': n})
        resp = SuccessResponse(OpenIDServiceEndpoint(), Message.fromPostArgs(wire), ['openid.' + s for s in signed])
        if resp.getSignedNS(X) != dict(('f%d' % i, 'v%d' % i) for i in range(n)):
            st.violation(repr(case), 'signed fields read back: %r' % (resp.getSignedNS(X),), {'size': n})
    elif kind == 'value':
        for i in sizes.places(n):
            check_is(dict(wire, **{'openid.x.a': sizes.text(n, i)}), False, 'character %d changed' % i)
        for d in (1, 2, n // 2):
            if 0 < d <= n:
                check_is(dict(wire, **{'openid.x.a': sizes.text(n)[:n - d]}), False, '%d characters cut' % d)
        check_is(dict(wire, **{'openid.x.a': sizes.text(n) + 'z'}), False, 'a character added')
    else:
        check_is(dict(wire, **{'openid.' + names[0]: 'w'}), False, 'value of the long name changed')
        for d in (1, n // 2):
            if 0 < d < n:
                w = dict(wire)
                w['openid.' + names[0][:-d]] = w.pop('openid.' + names[0])
                check_is(w, False, 'name cut by %d' % d)
    m = Message(NS2)
    m.namespaces.addAlias(X, 'x')
    for k, v in wire.items():
        if k.startswith('openid.x.'):
            m.setArg(X, k[9:], v)
    s = a.signMessage(m)
    out = s.toPostArgs()
    if not set(names) <= set(out['openid.signed'].split(',')) or not a.checkMessageSignature(Message.fromPostArgs(out)):
        st.violation(repr(case), 'signMessage of a large message', {'size': n})
    st.outcome('size')


def check(ctx):
    quick = ctx.quick
    maxlen = 3 if quick else 4

    def cases():
        for shape, (b, names) in SHAPES.items():
            for r in range(1, maxlen + 1):
                for L in itertools.permutations(names, r):
                    yield ('A', shape, L)
            yield ('A', shape, (names[0], names[0]))
            yield ('A', shape, (names[0] + ':',))
            yield ('A', shape, ('a\nb', names[0]))
            n = len([x for x in names if x not in ('signed', 'gone') and not x.startswith('ns')])
            for vals in itertools.product([None, '', 'v'], repeat=n):
                yield ('L', shape, vals)
        V = [None, '', 'v', 'a\nb'] if quick else [None, '', 'v', 'a\nb', 'é=&,:']
        for ns in (NS1, NS2):
            for vals in itertools.product(V, V, V, V, [None, '1'], [None, 'v']):
                for h in (None, 'h', 'other', ''):
                    yield ('B', ns, vals, h)
        for ai in range(len(ALIASES)):
            for present in range(32):
                for lures in (False, True):
                    yield ('C', ai, present, lures)
                    if ai < 2:
                        yield ('C', ai, present, lures, 'blank')
        for version in (2, 1):
            for mode in ('assoc', 'stateless', 'lost'):
                for ai in range(len(ALIASES)):
                    for bits in range(32):
                        for form in [None, 'blank'] + list(ODD):
                            if form is None or ai < 2:
                                yield ('D', version, mode, ai, bits, form)

        for alg in ('HMAC-SHA1', 'HMAC-SHA256'):
            for n in sizes.counts(quick):
                yield ('S', 'fields', n, alg)
            for kind in ('value', 'name'):
                for n in sizes.lengths(quick):
                    yield ('S', kind, n, alg)

    def one(case, st):
        if case[0] == 'A':
            part_a(case, st, quick)
        else:
            {'L': part_lists, 'B': part_b, 'C': part_c, 'D': part_d, 'S': part_size}[case[0]](case, st)
        st.sample(case)

    ctx.bounds = {'signed list length': maxlen, 'field names': 6, 'values': len(VALUES), 'keys': len(KEYS),
                  'accessor message subsets': 32, 'signed subsets': 128}
    ctx.run(cases, one)
