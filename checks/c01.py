"""C01: completion of a login, all single and pairwise deviations from an honest assertion."""
import itertools
from lib import env, base, world, rp, sizes
from lib.rp import World, USER, OTHER, LOCAL, OP, EVIL, REALM, judge
from lib.world import NS1, NS11, NS2
from lib.env import CLOCK, T0
from six.moves.urllib.parse import urlencode
import openid.extensions.sreg  # registers the implicit alias for OpenID 1

LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of adversary strategies (every single and every pair of deviations in signer, signed '
             'list, fields, arrival URL and direct-verification answer) executed on the real Consumer and compared with an '
             'independent acceptance model in both directions')
NOTE = 'every deviation set up to the bound is executed on the implementation; model verdict compared per execution'
RULE = ('state = (relying-party configuration, set of deviations applied to the honest assertion); transition = one '
        'delivery to Consumer.complete; SUCCESS must agree with the independent acceptance predicate')
ASSUMPTIONS = ['the adversary controls the query, the order and the OPs\' answers, but not the store or discovery of honest hosts',
               'HMAC keys are unknown to the adversary unless it is the OP that owns them',
               'expired association with a blindly affirmative OP: either outcome is allowed']

CUR = 'http://rp.example/return?a=1&b='


def configs(quick):
    for version in (2, 1, 11):
        for mode in ('assoc', 'stateless', 'lost'):
            for session in (True, False):
                yield (version, mode, session, False, 'HMAC-SHA1')
    yield (2, 'assoc', True, True, 'HMAC-SHA256')
    yield (1, 'assoc', True, True, 'HMAC-SHA1')
    if not quick:
        for version in (2, 1, 11):
            for mode in ('assoc', 'stateless', 'lost'):
                for session in (True, False):
                    yield (version, mode, session, True, 'HMAC-SHA256')


def deviations(w):
    """All single deviations: ((slot, phase), name, payload). Two deviations of one slot are not combined."""
    out = []
    f = w.fields()
    vals = {
        'openid.identity': [USER, LOCAL, OTHER, USER + '#frag', 'http://USER.example/'],
        'openid.claimed_id': [OTHER, USER + '#frag', 'http://user.example', USER + 'x', LOCAL],
        'openid.op_endpoint': [EVIL, OP + '/', OP + '#', 'http://nowhere.example/'],
        'openid.return_to': ['http://rp.example/return', w.return_to + '&c=3', 'http://evil.example/return?a=1&b=',
                             w.return_to.replace('a=1', 'a=2'), w.return_to.replace('&b=', ''),
                             w.return_to.replace('http:', 'https:'), w.return_to.replace('rp.example', 'rp.example:80'),
                             w.return_to.replace('rp.example', 'rp.example:8080'), w.return_to + '#x',
                             w.return_to.replace('/return', '/return/'), w.return_to.replace('/return', '/x/../return'),
                             w.return_to.replace('rp.example', 'RP.example'), w.return_to + '&openid.mode=id_res',
                             w.return_to + '&openid.mode=cancel', w.return_to + '&a=9', 'javascript:x', '/return?a=1&b='],
        'openid.mode': ['cancel', 'error', 'setup_needed', 'check_authentication', 'ID_RES', 'id_res ', '_id_res', 'Invalid'],
        'openid.ns': [NS1, NS11, NS2, 'http://specs.openid.net/auth/2.1', NS2 + '/'],
        'openid.response_nonce': [world.nonce_at(T0 - 6 * 3600), world.nonce_at(T0 + 6 * 3600), 'junk',
                                  world.nonce_at(T0 - rp.SKEW), world.nonce_at(T0 + rp.SKEW),
                                  world.nonce_at(T0 - rp.SKEW - 1), world.nonce_at(T0, ''), '2017-02-30T00:00:00Zab'],
        'openid.assoc_handle': ['h-evil', 'h-good2', 'h-old', 'h-256', 'h-private', 'nonesuch'],
        'openid.ns.sreg': ['http://example.com/other', NS2],
        'openid.sreg.nickname': ['Evil'],
        'openid.user_setup_url': ['http://op.example/setup'],
        'openid.sreg.email': ['a@b.c'],
        'openid.invalidate_handle': ['h-good', 'h-256'],
        'openid.foo': ['x'],
    }
    for k, vs in vals.items():
        for phase in ('pre', 'post'):
            if k in f:
                out.append(((k, phase), 'del', ('del', k)))
            for v in ['', f.get(k, 'x') + 'x'] + vs:
                if f.get(k) == v:
                    continue
                out.append(((k, phase), 'set ' + v, ('set', k, v)))
    for k in ('openid.sig', 'openid.signed'):
        out.append(((k, 'post'), 'del', ('del', k)))
        out.append(((k, 'post'), 'empty', ('set', k, '')))
    out.append((('openid.sig', 'post'), 'flip', ('sigflip',)))
    out.append((('openid.sig', 'post'), 'trunc', ('sigtrunc',)))
    out.append((('openid.sig', 'post'), 'junk', ('set', 'openid.sig', 'AAAA')))
    signed = w.signed()
    for phase in ('pre', 'post'):
        for s in signed:
            out.append((('signed', phase), 'drop ' + s, ('drop', s)))
        out.append((('signed', phase), 'absent', ('append', 'absent')))
        out.append((('signed', phase), 'dup', ('append', signed[0])))
        out.append((('signed', phase), 'rev', ('rev',)))
        out.append((('signed', phase), 'space', ('space',)))
        out.append((('signed', phase), 'signed', ('append', 'signed')))
    for s in ('wrong', 'evil', 'evil2', 'old', '256', 'private', 'otheralg', 'unknown', 'evilkey'):
        out.append((('signer', 'pre'), s, ('signer', s)))
    for s in ('x=1', 'a=2', 'del a', 'del b', 'b=1', 'openid=1', 'del nonce', 'nonce', 'del cid', 'cid', 'bad nonce'):
        out.append((('bare', 'post'), s, ('bare', s)))
    for u in ('https://rp.example/return?a=1&b=', 'http://rp.example:8080/return?a=1&b=', 'http://evil.example/return',
              'http://rp.example/other', 'http://rp.example/return/', 'http://rp.example/', 'http://RP.EXAMPLE:80/return',
              'http://rp.example/x/../return', 'http://rp.example/Return', 'http://rp.example/return#frag',
              'http://u@rp.example/return', 'http://rp.example.evil.example/return', 'http://rp.example/%72eturn',
              'http://rp.example/return;p', 'http://rp.example/return;', 'http://rp.example//return', 'http://rp.example/return%2F', 'http://rp.example/return%3Fa=1&b=',
              'http://rp.example:443/return', 'http://rp.example./return', 'http://rp.example/return%20', 'http://rp.example/;/return', 'http://rp.example/a/return',
              'junk', ''):
        out.append((('cur', 'post'), u, ('cur', u)))
    # an assertion for a return URL without arguments (as for an unsolicited assertion), delivered without them
    for u in ('http://rp.example/return', 'http://rp.example/other', 'http://rp.example/', 'http://evil.example/return',
              'https://rp.example/return', 'http://rp.example:8080/return', 'http://rp.example', 'http://rp.example/return;p', 'http://rp.example/return/;p'):
        out.append((('openid.return_to', 'pre'), 'noargs ' + u, ('rtx', u)))
    for r in sorted(rp.REPLIES):
        out.append((('reply', 'post'), r, ('reply', r)))
    return out


def apply(w, devs):
    """Build the delivered query from the honest assertion and the deviations. Returns (query, current url)."""
    q = w.fields()
    signed = w.signed()
    cur = CUR
    atype = w.atype
    key = (w.private[w.handle][0], w.private[w.handle][1])
    bare = None
    pre = [d for d in devs if d[0][1] == 'pre']
    post = [d for d in devs if d[0][1] == 'post']
    for slot, name, d in pre:
        if d[0] == 'signer':
            s = d[1]
            if s == 'wrong':
                key = (rp.secret(9, key[1]), key[1])
            elif s == 'otheralg':
                key = (key[0], 'HMAC-SHA256' if key[1] == 'HMAC-SHA1' else 'HMAC-SHA1')
            elif s == 'evilkey':
                key = (rp.secret(2, 'HMAC-SHA1'), 'HMAC-SHA1')
            else:
                h, key = {'evil': ('h-evil', (rp.secret(2, 'HMAC-SHA1'), 'HMAC-SHA1')),
                          'evil2': ('h-good2', (rp.secret(3, 'HMAC-SHA1'), 'HMAC-SHA1')),
                          'old': ('h-old', (rp.secret(4, 'HMAC-SHA1'), 'HMAC-SHA1')),
                          '256': ('h-256', (rp.secret(5, 'HMAC-SHA256'), 'HMAC-SHA256')),
                          'private': ('h-private', (rp.secret(7, 'HMAC-SHA1'), 'HMAC-SHA1')),
                          'unknown': ('nonesuch', (rp.secret(8, 'HMAC-SHA1'), 'HMAC-SHA1'))}[s]
                q['openid.assoc_handle'] = h
    for slot, name, d in pre:
        edit(w, q, signed, d)
    ext = [k[7:] for k in q if k not in w.fields() and k.startswith('openid.')]
    q = world.sign(q, signed + ext, *key)
    post_signed = q['openid.signed'].split(',')
    bare = {} if any(d[2][0] == 'rtx' for d in pre) else w.bare()
    for slot, name, d in post:
        if d[0] == 'bare':
            s = d[1]
            if s == 'x=1':
                bare['x'] = '1'
            elif s == 'openid=1':
                bare['openid'] = '1'
            elif s == 'a=2':
                bare['a'] = '2'
            elif s == 'b=1':
                bare['b'] = '1'
            elif s in ('del a', 'del b'):
                bare.pop(s[4:], None)
            elif s == 'del nonce':
                bare.pop('janrain_nonce', None)
            elif s == 'nonce':
                bare['janrain_nonce'] = world.nonce_at(T0, 'zzzzzz')
            elif s == 'bad nonce':
                bare['janrain_nonce'] = 'junk'
            elif s == 'del cid':
                bare.pop('openid1_claimed_id', None)
            elif s == 'cid':
                bare['openid1_claimed_id'] = OTHER
        elif d[0] == 'cur':
            cur = d[1]
        elif d[0] == 'reply':
            w.reply = d[1]
        elif d[0] in ('drop', 'append', 'rev', 'space'):
            if 'openid.signed' in q:
                edit(w, q, post_signed, d)
                q['openid.signed'] = ','.join(post_signed)
        elif d[0] == 'sigflip':
            if q.get('openid.sig'):
                s = q['openid.sig']
                q['openid.sig'] = ('B' if s[0] == 'A' else 'A') + s[1:]
        elif d[0] == 'sigtrunc':
            q['openid.sig'] = q.get('openid.sig', '')[:-4]
        else:
            edit(w, q, post_signed, d)
    q.update(bare)
    return q, cur


def edit(w, q, signed, d):
    if d[0] == 'del':
        q.pop(d[1], None)
        # an OP that leaves a field out also leaves it out of the signed list only when it says so (drop)
    elif d[0] == 'set':
        q[d[1]] = d[2]
    elif d[0] == 'rtx':
        q['openid.return_to'] = d[1]
    elif d[0] == 'drop':
        if d[1] in signed:
            signed.remove(d[1])
    elif d[0] == 'append':
        signed.append(d[1])
    elif d[0] == 'rev':
        signed.reverse()
    elif d[0] == 'space':
        signed[0] = ' ' + signed[0]


def reduced(devs):
    """Up to two representatives per slot, for the three-deviation enumeration."""
    seen, out = {}, []
    for i, d in enumerate(devs):
        if d[1] in ('set ', 'empty') or (d[0][0] in ('reply', 'signer') and d[1] not in (
                'blind', 'inv', 'wrong', 'evil', '256', 'old')):
            continue
        if seen.get(d[0], 0) < (4 if d[0][0] == 'signer' else 2):
            seen[d[0]] = seen.get(d[0], 0) + 1
            out.append(i)
    return out


def run_case(w, cfg, devs, st):
    w.fresh()
    q, cur = apply(w, devs)
    run_query(w, cfg, [(d[0], d[1]) for d in devs], q, cur, st)


def run_query(w, cfg, devs, q, cur, st):
    v = judge(w, q, cur)
    before = {k: x for k, x in w.assocs.items()}
    resp = w.complete(q, cur)
    st.executions += 1
    st.transitions += 1
    key = repr((cfg, devs))
    st.state((sorted(q.items()), cur, cfg, w.reply))
    ok = resp.status == 'success'
    case = {'config': cfg, 'query': q, 'current_url': cur, 'op_reply': w.reply, 'model': v.why}
    if v.ok is not None and ok != v.ok:
        st.violation(key, 'status %s (%s), acceptance model says %s (%s)' % (
            resp.status, getattr(resp, 'message', ''), v.ok, v.why), case)
    st.outcome('success/' + str(v.path) if ok else 'refused: ' + v.why.split(' ')[0])
    if ok:
        want = v.claimed
        if resp.identity_url != want:
            st.violation(key, 'identity %r reported, %r asserted' % (resp.identity_url, want), case)
        if sorted(resp.signed_fields) != sorted('openid.' + s for s in q['openid.signed'].split(',')):
            st.violation(key, 'signed fields %r' % (resp.signed_fields,), case)
        sreg = q.get('openid.sreg.nickname')
        got = resp.getSigned(q.get('openid.ns.sreg', world.SREG), 'nickname')
        if got != (sreg if 'sreg.nickname' in q['openid.signed'].split(',') else None) and \
                (q.get('openid.ns.sreg') or 'openid.ns' not in q):
            st.violation(key, 'signed nickname %r' % (got,), case)
        if v.path == 'check_auth':
            st.transitions += 1
            # the OP confirmed this very content
            want = {k: x for k, x in q.items() if k.startswith('openid.')}
            want['openid.mode'] = 'check_authentication'
            if len(w.asked) != 1 or w.asked[0][0] != v.server or \
                    {k: x for k, x in w.asked[0][1].items() if k.startswith('openid.')} != want:
                st.violation(key, 'direct verification asked %r' % (w.asked,), case)
        elif v.path == 'assoc' and w.asked:
            st.violation(key, 'unexpected direct verification', case)
    # associations are touched only at the OP's request
    if w.store is not None:
        for (srv, h), (k, t, exp) in before.items():
            if exp <= CLOCK.now:
                continue
            a = w.store.getAssociation(srv, h)
            gone = w.reply in ('inv', 'invf') and h == 'h-256' and any(u == srv for u, _ in w.asked)
            if gone:
                if a is not None:
                    st.violation(key, 'invalidated association kept', case)
            elif a is None or a.secret != k or a.handle != h:
                st.violation(key, 'association %s %s lost or changed' % (srv, h), case)
    st.sample({'config': cfg, 'deviations': devs, 'status': resp.status})


EXT = 'http://ext.example/ns'


def one_size(cfg, what, n, st):
    """Assertions with n return URL arguments, one long argument or n signed fields: honest, and with one change at each place."""
    version, mode = cfg[:2]
    base_url = 'http://rp.example/return'
    if what == 'args':
        args = [('k%d' % i, 'v%d' % (i * 7)) for i in range(n)]
    elif what == 'value':
        args = [('a', '1'), ('long', sizes.text(n)), ('z', '2')]
    elif what == 'ovalue':
        args = [('a', '1'), ('openid.extra', sizes.text(n)), ('z', '2')]
    elif what == 'key':
        args = [('a', '1'), ('k' + sizes.text(n), '3'), ('z', '2')]
    elif what == 'char':
        args = [('a', 'x' + chr(n) + 'y'), ('openid.extra', 'x' + chr(n) + 'y')]
    elif what == 'path':
        base_url = 'http://rp.example/' + sizes.text(n)
        args = [('a', '1')]
    else:
        args = [('a', '1')]
    url = base_url + '?' + urlencode(args) if args else base_url
    w = World(*cfg, return_to=url)

    def query(extra=()):
        q = w.fields()
        signed = w.signed()
        if what in ('fields', 'field'):
            q['openid.ns.ext'] = EXT
            for k, v in extra:
                q['openid.ext.' + k] = v
                signed.append('ext.' + k)
        q = world.sign(q, signed, *(w.private[w.handle][0], w.private[w.handle][1]))
        q.update(w.bare())
        return q

    def go(name, q, cur=url):
        run_query(w, cfg, (what, n) + name, q, cur, st)
        w.fresh()
    w.fresh()
    if what == 'fields':
        extra = [('f%d' % i, 'v%d' % (i * 7)) for i in range(n)]
    elif what == 'field':
        extra = [('f', sizes.text(n))]
    else:
        extra = []
    honest = query(extra)
    go(('honest',), honest)
    if what == 'args':
        for i in sizes.places(n):
            for name, v in (('changed', 'other'), ('removed', None), ('emptied', '')):
                q = dict(honest)
                if v is None:
                    del q['k%d' % i]
                else:
                    q['k%d' % i] = v
                go((name, i), q)
        # the other way around: arguments the return URL does not have
        w2 = World(*cfg, return_to=base_url + '?a=1')
        w2.fresh()
        q = world.sign(w2.fields(), w2.signed(), *(w2.private[w2.handle][0], w2.private[w2.handle][1]))
        q.update(w2.bare())
        if n:
            for q2 in (dict(q, **dict(args)), dict(args, **q)):
                run_query(w2, cfg, (what, n, 'extra'), q2, base_url + '?a=1', st)
                w2.fresh()
    elif what in ('value', 'key', 'ovalue'):
        k = args[1][0]
        for i in sizes.places(n):
            q = dict(honest)
            if what != 'key':
                q[k] = sizes.text(n, i)
            else:
                q['k' + sizes.text(n, i)] = q.pop(k)
            go(('changed', i), q)
        if n:
            q = dict(honest)
            if what != 'key':
                q[k] = q[k][:-1]
            else:
                q[k[:-1]] = q.pop(k)
            go(('cut',), q)
    elif what == 'char':
        for c in '?e\ufffd' + chr(n + 1):
            if c != chr(n):
                for k in ('a', 'openid.extra'):
                    go(('changed', k, c), dict(honest, **{k: 'x' + c + 'y'}))
        go(('changed', ''), dict(honest, a='xy'))
    elif what == 'path':
        for i in sizes.places(n):
            go(('changed', i), honest, 'http://rp.example/' + sizes.text(n, i) + '?a=1')
        if n:
            go(('cut',), honest, url.replace('?', 'x?'))
    elif what == 'fields':
        for i in sizes.places(n):
            k = 'openid.ext.f%d' % i
            for name, v in (('changed', 'other'), ('removed', None), ('emptied', '')):
                q = dict(honest)
                if v is None:
                    del q[k]
                else:
                    q[k] = v
                go((name, i), q)
            q = dict(honest)
            q['openid.signed'] = ','.join(f for f in q['openid.signed'].split(',') if f != 'ext.f%d' % i)
            go(('unsigned', i), q)
    elif what == 'field':
        for i in sizes.places(n):
            go(('changed', i), dict(honest, **{'openid.ext.f': sizes.text(n, i)}))
        if n:
            go(('cut',), dict(honest, **{'openid.ext.f': sizes.text(n - 1)}))


CHARS = (0x20, 0x25, 0x26, 0x2b, 0x3d, 0x7e, 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x17f, 0x7ff, 0x800, 0x20ac, 0x212a, 0xfffd, 0xfffc, 0x10000, 0x1f600)


def size_cases(quick):
    for cfg in [(2, 'assoc', True, False, 'HMAC-SHA1'), (1, 'stateless', True, False, 'HMAC-SHA1')] + (
            [] if quick else [(11, 'assoc', True, False, 'HMAC-SHA1'), (2, 'lost', True, False, 'HMAC-SHA1')]):
        for n in sizes.counts(quick):
            yield ('S', cfg, 'args', n)
            yield ('S', cfg, 'fields', n)
        for n in sizes.lengths(quick):
            if n <= (20000 if quick else 300000):
                for what in ('value', 'field', 'key', 'path', 'ovalue'):
                    yield ('S', cfg, what, n)
        for c in CHARS:
            yield ('S', cfg, 'char', c)


def cases(quick):
    for c in size_cases(quick):
        yield c
    for cfg in configs(quick):
        w = World(*cfg)
        n = len(deviations(w))
        yield (cfg, None)
        for i in range(n):
            yield (cfg, i)


def check(ctx):
    quick = ctx.quick
    cache = {}

    def one(case, st):
        if case[0] == 'S':
            return one_size(*case[1:], st=st)
        cfg, i = case
        if cfg not in cache:
            cache.clear()
            w = World(*cfg)
            cache[cfg] = (w, deviations(w))
        w, devs = cache[cfg]
        if i is None:
            run_case(w, cfg, [], st)
            # the honest assertion under every answer
            return
        run_case(w, cfg, [devs[i]], st)
        for j in range(i + 1, len(devs)):
            if devs[j][0] == devs[i][0]:
                continue
            run_case(w, cfg, [devs[i], devs[j]], st)
        if not quick and i in reduced(devs):
            red = [j for j in reduced(devs) if j > i]
            for j, k in itertools.combinations(red, 2):
                if len({devs[i][0], devs[j][0], devs[k][0]}) == 3:
                    run_case(w, cfg, [devs[i], devs[j], devs[k]], st)

    ctx.bounds = {'return URL arguments and signed fields': 'up to %d' % max(sizes.counts(quick)), 'long values': 'up to %d characters' % (20000 if quick else 300000),
                  'configurations': len(list(configs(quick))), 'deviations': len(deviations(World())),
                  'simultaneous deviations': 2 if quick else '2, and 3 over representatives of every slot'}
    ctx.run(lambda: cases(quick), one)
