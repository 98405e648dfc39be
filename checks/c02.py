"""C02: single use of assertions over histories of presentations, clean-ups and clock steps."""
import re
from lib import env, rp, world
from lib.env import CLOCK, T0
from lib.multi import Multi, RET
from lib.stores import Harness, KINDS, SERVED
from openid.store import nonce as nonce_mod

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state breadth-first exploration of all histories of presentations, clean-ups and clock steps of the '
             'real Consumer over each real store (state snapshots, duplicate states merged) against a used-nonce set model, '
             'plus exhaustive enumeration of nonce pairs and one-character nonce mutations')
NOTE = 'every history up to the bound executed on the real consumer and stores; result of every step compared with the model'
RULE = ('state = (used nonces of the model, clock, fingerprint of the real store); transition = one operation; SUCCESS exactly '
        'for a genuine, in-window nonce not used before at that endpoint')
ASSUMPTIONS = ['one process; concurrent presentation is C05 (store level)',
               'timestamps with lower-case letters or unpadded numbers may be accepted or refused']
SKEW = 5 * 3600
EP = ['http://op.example/server', 'http://op2.example/server', 'https://op.example/server']


def stamp(t, salt):
    return world.nonce_at(t, salt)


ASSERTIONS = [(0, T0, 'aaaaaa'), (0, T0, 'bbbbbb'), (1, T0, 'aaaaaa'), (0, T0 + 1, 'aaaaaa'),
              (0, T0 + SKEW + 1, 'cccccc'), (0, T0 - SKEW, 'dddddd'), (0, T0 + SKEW, 'eeeeee')]
STEPS = [1, SKEW, SKEW + 1, 2 * SKEW]


def ops(version, quick):
    out = [('show', n) for n in range(len(ASSERTIONS))]
    out += [('forge', 0, 'sig'), ('forge', 0, 'field')]
    out += [('clean',), ('cleanall',)] + [('tick', s) for s in STEPS]
    return out


def explore(kind, version, direct, depth, limit, st):
    env.reset()
    h = Harness(kind)
    try:
        w = Multi(EP, h.store, version, direct)
        qs = [w.assertion(i, stamp(t, s)) for i, t, s in ASSERTIONS]
        name = '%s/v%d/%s' % (kind, version, 'direct' if direct else 'assoc')
        frontier = [((frozenset(), T0), h.snapshot(), ())]
        seen = {(frontier[0][0], h.fingerprint())}
        for d in range(depth):
            nxt = []
            for (used, now), snap, path in frontier:
                for op in ops(version, True):
                    h.restore(snap)
                    w.store = h.store
                    CLOCK.reset(now)
                    used2, now2 = used, now
                    p2 = path + (op,)
                    st.transitions += 1
                    if op[0] == 'tick':
                        now2 = now + op[1]
                        if now2 > T0 + 5 * SKEW:
                            continue
                    elif op[0] == 'clean':
                        h.store.cleanupNonces()
                    elif op[0] == 'cleanall':
                        h.store.cleanup()
                    elif op[0] == 'forge':
                        q = dict(qs[op[1]])
                        if op[2] == 'sig':
                            q['openid.sig'] = q['openid.sig'][::-1]
                        else:
                            q['openid.identity'] += 'x'
                        resp = w.present(q)
                        st.executions += 1
                        if resp.status == 'success':
                            st.violation('%s:%r' % (name, p2), 'a forged assertion was accepted', {'history': p2})
                            continue
                        st.outcome('forgery refused')
                    else:
                        i, t, s = ASSERTIONS[op[1]]
                        key = (i if version == 2 else 0, t, s)
                        want = key not in used and abs(t - now) <= SKEW
                        resp = w.present(qs[op[1]])
                        st.executions += 1
                        got = resp.status == 'success'
                        if got != want:
                            st.violation('%s:%r' % (name, p2), 'presentation gave %s (%s), expected %s' % (
                                resp.status, getattr(resp, 'message', ''), 'success' if want else 'failure'),
                                {'store': kind, 'version': version, 'history': p2})
                            continue
                        st.outcome('accepted' if got else ('replay refused' if key in used else 'outside window'))
                        if want:
                            used2 = used | {key}
                    k = ((used2, now2), h.fingerprint())
                    if k in seen:
                        continue
                    seen.add(k)
                    st.state((name, sorted(used2), now2, k[1]))
                    st.sample({'history': [list(o) for o in p2], 'config': name})
                    nxt.append(((used2, now2), h.snapshot(), p2))
                    if len(st.violations) > 20:
                        return
            frontier = nxt
            st.notes[name] = 'all histories to depth %d, %d states' % (d + 1, len(seen))
            if len(seen) > limit:
                break
    finally:
        h.close()


SALTS = ['', 'a', 'A', 'b', 'aa', 'a-b', 'a/b', '/', '.', '..', ' ', 'a ', '\u00e9', 'e\u0301', '0', '00', '%61', 'x' * 255,
         'x' * 254 + 'y', "'", '"', '*', ':', 'a:b', '|', '\\', '+', '&', '=', '\t', 'Z', '2', 'http://op.example/', 'x' * 60, 'x' * 40,
         'x' * 41]
ENDPOINTS = ['http://op.example/server', 'http://op.example/server/', 'http://op.example/Server', 'https://op.example/server',
             'http://op.example:8080/server', 'http://op.example/server?x=1', 'http://op.example/server?x=2',
             'http://op-example/server', 'http://op.example/', 'http://op.example', 'http://opexample/server',
             'http://op.example/server-', 'http://sub.op.example/server']
TIMES = [T0, T0 + 1, T0 - 1, T0 + 16, T0 + 256, T0 - 86400 // 5, T0 + 10, T0 - 16]


def pairs(kind, version, st):
    """Distinct nonces never interfere, equal ones always do."""
    env.reset()
    h = Harness(kind)
    try:
        w = Multi(ENDPOINTS if version == 2 else ENDPOINTS[:3], h.store, version)
        snap = h.snapshot()
        keys = [(0, T0, s) for s in SALTS] + [(0, t, s) for t in TIMES[1:] for s in ('a', '')]
        keys += [(i, T0, s) for i in range(1, len(w.endpoints)) for s in ('a', '')]
        qs = {k: w.assertion(k[0], stamp(k[1], k[2])) for k in keys}
        ident = lambda k: k if version == 2 else k[1:]
        for k1 in keys:
            h.restore(snap)
            w.store = h.store
            r = w.present(qs[k1])
            st.executions += 1
            st.transitions += 1
            if r.status != 'success':
                st.violation('%s:pair:%r' % (kind, k1), 'genuine fresh assertion refused: %s' % getattr(r, 'message', ''),
                             {'nonce': k1, 'store': kind})
                continue
            after = h.snapshot()
            for k2 in keys:
                h.restore(after)
                w.store = h.store
                r = w.present(qs[k2])
                st.executions += 1
                st.transitions += 1
                want = ident(k1) != ident(k2)
                if (r.status == 'success') != want:
                    st.violation('%s:pair:%r' % (kind, (k1, k2)), 'after %r, %r gave %s (%s)' % (
                        k1, k2, r.status, getattr(r, 'message', '')), {'first': k1, 'second': k2, 'store': kind})
                st.outcome('pair accepted' if want else 'pair refused')
                st.state((kind, version, k1, k2))
    finally:
        h.close()


def many(kind, version, n, st):
    """A long history of logins: however many others were accepted in between, none is accepted again."""
    env.reset()
    h = Harness(kind)
    try:
        w = Multi(ENDPOINTS[:3], h.store, version)
        w.store = h.store
        qs = [w.assertion(i % 2, stamp(T0 - i % 300, 's%d' % i)) for i in range(n)]
        for rnd, want in (('first', True), ('second', False), ('third', False)):
            for i, q in enumerate(qs):
                r = w.present(q)
                st.executions += 1
                st.transitions += 1
                if (r.status == 'success') != want:
                    st.violation('%s:many:%s:%d' % (kind, rnd, i), '%s presentation of assertion %d of %d gave %s (%s)' % (
                        rnd, i, n, r.status, getattr(r, 'message', '')), {'store': kind})
                    return
            env.CLOCK.advance(1000)
        st.state((kind, version, 'many', n))
    finally:
        h.close()


_LENIENT = re.compile(r'^\d{4}-\d{1,2}-\d{1,2}[Tt]\s*\d{1,2}:\s*\d{1,2}:\s*\d{1,2}[Zz]$')


def mutate(version, st, quick):
    """Every one-character substitution, deletion and insertion in a nonce, and a list of malformed ones."""
    env.reset()
    h = Harness('memory')
    try:
        w = Multi(EP, h.store, version)
        snap = h.snapshot()
        base = stamp(T0, 'abcdef')
        alpha = '0129- :TtZzx/\u0661\u00e9' + ('' if quick else '345678.+,')
        cands = [None, '', base, 'x', 'Z', base[:19], base[:20], base[:10], ' ' + base, '2017-02-29T00:00:00Zx',
                 '1969-12-31T23:59:59Zx', '1970-01-01T00:00:00Zx', '0001-01-01T00:00:00Zx', '9999-12-31T23:59:59Zx',
                 stamp(T0 + SKEW, 's'), stamp(T0 + SKEW + 1, 's'), stamp(T0 - SKEW, 's'), stamp(T0 - SKEW - 1, 's'),
                 stamp(T0, '\n'), stamp(T0, 'a\nb') if version == 1 else stamp(T0, 'x')]
        for i in range(len(base)):
            cands.append(base[:i] + base[i + 1:])
            for c in alpha:
                cands.append(base[:i] + c + base[i + 1:])
                cands.append(base[:i] + c + base[i:])
        for n in cands:
            if n is not None and '\n' in n and version == 2:
                continue
            h.restore(snap)
            w.store = h.store
            CLOCK.reset(T0)
            q = w.assertion(0, n)
            r = w.present(q)
            st.executions += 1
            st.transitions += 1
            t = rp.nonce_time(n)
            want = n is not None and t is not None and abs(t - T0) <= SKEW
            got = r.status == 'success'
            if got != want and not (n and t is None and _LENIENT.match(n[:20])):
                st.violation('mutate:v%d:%r' % (version, n), 'nonce %r gave %s (%s), expected %s' % (
                    n, r.status, getattr(r, 'message', ''), want), {'nonce': n})
            st.outcome('wellformed' if want else 'malformed')
            st.state((version, n))
            if got:
                r = w.present(q)
                if r.status == 'success':
                    st.violation('mutate2:v%d:%r' % (version, n), 'nonce %r accepted twice' % (n,), {'nonce': n})
    finally:
        h.close()


EXTRA = [('openid.invalidate_handle', 'h'), ('openid.invalidate_handle', ''), ('openid.foo', 'x'), ('openid.sreg.email', 'a@b'),
         ('openid.ns.x', 'http://x.example/'), ('openid.user_setup_url', ''), ('openid.error', 'x'), ('openid.delegate', 'x'),
         ('openid.reference', 'x'), ('openid.session_type', 'DH-SHA1'), ('openid.realm', 'http://rp.example/'),
         ('openid.expires_in', '1'), ('openid.is_valid', 'true'), ('openid.immediate', '1'), ('openid.nonce', 'x'),
         ('openid.response_nonce', stamp(T0, 'zzzzzz')), ('openid.op_endpoint', EP[1]), ('openid.claimed_id', 'http://u1.example/')]


def disguise(kind, version, direct, st):
    """A used assertion, presented again with every set of up to two additions that its signature does not cover, and
    the other way round: the additions first, the plain assertion as the second presentation."""
    env.reset()
    h = Harness(kind)
    try:
        w = Multi(EP, h.store, version, direct)
        q = w.assertion(0, stamp(T0, 'abcdef'))
        snap = h.snapshot()
        forms = [()] + [(a,) for a in EXTRA] + [(a, b) for i, a in enumerate(EXTRA) for b in EXTRA[i + 1:] if a[0] != b[0]]
        for first in forms:
            for second in (forms if not first else [()] + ([first] if first else [])):
                h.restore(snap)
                w.store = h.store
                CLOCK.reset(T0)
                ok = []
                for form in (first, second):
                    x = dict(q)
                    x.update(form)
                    ok.append(w.present(x).status == 'success')
                    st.executions += 1
                    st.transitions += 1
                st.state((kind, version, direct, first, second))
                key = 'disguise:%s:v%d:%s:%r' % (kind, version, direct, (first, second))
                if sum(ok) > 1:
                    st.violation(key, 'accepted twice: with %r, then with %r' % (first, second), None)
                if not first and not ok[0]:
                    st.violation(key, 'genuine assertion refused', None)
                st.outcome('disguised replay refused' if not ok[1] else 'accepted on second presentation')
    finally:
        h.close()


def window(st):
    """The documented timestamp check: well-formed and within the allowed skew of the given (or current) time; made
    nonces carry the time they were made for and are distinct."""
    env.reset()
    nonces = [stamp(T0 + d, s) for d in (-SKEW - 1, -SKEW, -SKEW + 1, -61, -60, -1, 0, 1, 60, 61, SKEW, SKEW + 1) for s in ('', 'abc')]
    nonces += ['', 'x', '2017-02-29T00:00:00Zx', '1969-12-31T23:59:59Zx', '1970-01-01T00:00:00Zx', '1970-01-01T00:00:01Z', stamp(T0, '')[:19]]
    for n in nonces:
        t = rp.nonce_time(n)
        for skew in (None, 0, 1, 60, SKEW, 10 * SKEW):
            for now in (None, T0, T0 + 1, T0 - 1, T0 + 60, 0, 1, SKEW):
                kw = {}
                if skew is not None:
                    kw['allowed_skew'] = skew
                if now is not None:
                    kw['now'] = now
                got = nonce_mod.checkTimestamp(n, **kw)
                ref = T0 if now is None else now
                want = t is not None and abs(t - ref) <= (SKEW if skew is None else skew)
                st.executions += 1
                st.transitions += 1
                st.state(('window', n, skew, now))
                if bool(got) != want:
                    st.violation('window:%r' % ((n, skew, now),), 'timestamp check says %r, expected %r' % (got, want), None)
    made = set()
    for when in (None, 0, 1, 59, 86399, 86400, 951782400, T0, T0 + 1, 4102444799):
        for _ in range(50):
            n = nonce_mod.mkNonce() if when is None else nonce_mod.mkNonce(when)
            st.executions += 1
            t, salt = nonce_mod.split(n)
            if t != (T0 if when is None else when) or rp.nonce_time(n) != t or n[20:] != salt or len(salt) < 4:
                st.violation('made:%r' % (when,), 'nonce made for %r: %r, read back as %r' % (when, n, (t, salt)), None)
            if n in made:
                st.violation('made:%r' % (when,), 'nonce %r made twice' % n, None)
            made.add(n)
    st.outcome('window')


def check(ctx):
    quick = ctx.quick
    depth, limit = (5, 2500) if quick else (8, 40000)
    ctx.bounds = {'history depth': depth, 'state limit per configuration': limit, 'assertions': len(ASSERTIONS),
                  'clock steps': STEPS, 'nonce pairs': (len(SALTS) + 14 + 24) ** 2}
    jobs = []
    for kind in KINDS + SERVED:
        for version in (2, 1):
            for direct in (False, True):
                jobs.append(('hist', kind, version, direct))
            jobs.append(('pairs', kind, version))
            jobs.append(('many', kind, version))
    for version in (2, 1):
        jobs.append(('mut', version))
    jobs.append(('window',))
    for kind in (('memory',) if quick else KINDS):
        for version in (2, 1):
            for direct in (False, True):
                jobs.append(('disguise', kind, version, direct))

    def one(job, st):
        if job[0] == 'hist':
            explore(job[1], job[2], job[3], depth, limit, st)
        elif job[0] == 'pairs':
            pairs(job[1], job[2], st)
        elif job[0] == 'many':
            many(job[1], job[2], 1050 if quick else 5000, st)
        elif job[0] == 'disguise':
            disguise(job[1], job[2], job[3], st)
        elif job[0] == 'window':
            window(st)
        else:
            mutate(job[1], st, quick)

    ctx.run(lambda: iter(jobs), one, shards=len(jobs))
