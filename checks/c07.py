"""C07: every bounded combination of authentication request, association state and application answer on the real provider."""
import copy, itertools
from lib import env, world, op
from lib.env import CLOCK, T0
from lib.op import OP, NS2, IDSEL, openid_args, delivered, Recorder
from lib.stores import Harness
from openid.server.server import (Server, ProtocolError, CheckIDRequest, EncodingError, NoReturnToError, VersionError)
from openid.extensions import sreg
from openid.store.memstore import MemoryStore
from six.moves.urllib.parse import parse_qsl, urlsplit

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of request x association state x answer combinations executed on the real provider; the wire '
             'response is checked by an independent reading of the specification (own URL parser and HMAC)')
NOTE = 'histories: associations are created, expire, are removed or foreign before the request; every answer is encoded and re-read raw'
RULE = 'one case = (version, mode, identifiers, return URL, realm, handle state, answer, extension, store); all combinations, wire response compared with the specification'
ASSUMPTIONS = ['extension field names contain no comma', 'the application passes text']
USER, LOCAL, OTHER = 'http://op.example/~u', 'http://op.example/~local', 'http://op.example/~other'
SAME = 'http://OP.example:80/~u'
RT = 'http://rp.example/return?a=1&b=&c=%20x%26'
RT_PLAIN = 'http://rp.example/return'
# (return_to, realm) -> is the return URL under the realm (None: request is malformed)
PLACES = [
    (RT, None, True), (RT, RT, True), (RT, 'http://rp.example/', True), (RT, 'http://*.example/', True), (RT_PLAIN, 'http://rp.example/return', True),
    (RT, 'http://*.rp.example/return', True), (RT, 'http://rp.example/other', False), (RT, 'https://rp.example/', False), (RT, '', True),
    (RT, 'http://evil.example/', False), (RT, 'http://rp.example:81/', False), (RT, 'not a url', False), (RT, 'http://rp.example/#f', False),
    (RT, 'http://rp.example.evil/', False), (RT, 'http://xrp.example/', False), ('javascript:x', None, False), ('nothing', 'http://rp.example/', False),
    ('http://rp.example/return#f', None, False), ('http://rp.example/ret', 'http://rp.example/return', False),
    ('https://rp.example/return', 'http://rp.example/', False), ('http://*.rp.example/', 'http://*.rp.example/', False), ('http://*.rp.example/', None, False), (None, 'http://rp.example/', None), ('', 'http://rp.example/', None), (None, None, None), (None, 'not a url', False),
    (None, 'http://rp.example/#f', False), (None, 'http://*.rp.example/', None),
]
HANDLES = ['none', 'sha1', 'sha256', 'expired', 'expired256', 'unknown', 'private', 'removed', 'empty', 'last', 'gone', 'dropped']
IDS = {  # name -> (claimed_id, identity)
    'plain': (USER, USER), 'delegated': ('http://user.example/', LOCAL), 'select': (IDSEL, IDSEL), 'anonymous': (None, None),
    'noclaimed': (None, USER), 'noidentity': (USER, None), 'frag': (USER + '#1', USER), 'mixed': (IDSEL, USER), 'mixed2': (USER, IDSEL),
    'xri': ('=!7F42.1C2A', '=!7F42.1C2A'), 'opaque': (USER, 'user-17'),
}
NEAR = [USER + '/', USER[:-1], USER + '?x', 'https' + USER[4:], 'http://op.example/~U', USER + '#1', IDSEL]
ANSWERS = [(True, None, None), (True, 'same', None), (True, SAME, None), (True, OTHER, None), (True, OTHER, 'http://user.example/2'),
           (True, None, OTHER), (True, 'same', OTHER), (False, None, None), (False, OTHER, None), (False, None, OTHER), (True, 'not a url', None)] + \
    [(True, n, None) for n in NEAR]
EXTS = ['none', 'sreg', 'custom', 'newline', 'newlinekey', 'presigned']
SHARED = ('sha1', 'sha256', 'last')


class Scene(object):
    """A provider whose store holds associations in every state."""

    def __init__(self, kind):
        env.reset()
        self.h = Harness(kind)
        self.store = Recorder(self.h.store)
        self.server = Server(self.store, OP)
        self.handles = {'none': None, 'unknown': '{HMAC-SHA1}{1}{x}', 'empty': ''}
        life = self.store.assocs[self.associate('HMAC-SHA1')][2] - T0      # the provider's choice
        CLOCK.reset(T0 - life - 100)
        self.handles['expired'] = self.associate('HMAC-SHA1')
        self.handles['expired256'] = self.associate('HMAC-SHA256')
        CLOCK.reset(T0)
        self.handles['sha1'] = self.associate('HMAC-SHA1')
        self.handles['sha256'] = self.associate('HMAC-SHA256')
        self.handles['removed'] = self.associate('HMAC-SHA1')
        self.server.signatory.invalidate(self.handles['removed'], dumb=False)
        # valid when the request is decoded: one second left when answered / just expired / removed in between
        self.handles['last'] = self.handles['gone'] = self.handles['sha256']
        self.handles['dropped'] = self.handles['sha1']
        # a private handle: from a stateless login
        q = {'openid.ns': NS2, 'openid.mode': 'checkid_setup', 'openid.identity': USER, 'openid.claimed_id': USER, 'openid.return_to': RT}
        r = self.server.encodeResponse(self.server.decodeRequest(q).answer(True))
        self.handles['private'] = openid_args(delivered(r, RT)[1])['openid.assoc_handle']
        self.snap = copy.deepcopy(self.store) if kind == 'memory' else self.h.snapshot()
        self.base = dict(self.store.assocs)
        self.kind = kind

    def associate(self, atype):
        q = {'openid.ns': NS2, 'openid.mode': 'associate', 'openid.assoc_type': atype, 'openid.session_type': 'no-encryption'}
        req = self.server.decodeRequest(q)
        body = self.server.encodeResponse(self.server.handleRequest(req)).body
        return op.parse_kv(body)['assoc_handle']

    def fresh(self):
        env.reset(5)
        CLOCK.reset(T0 + 7)
        if self.kind == 'memory':
            self.store = copy.deepcopy(self.snap)
        else:
            self.h.restore(self.snap)
            self.store = Recorder(self.h.store)
            self.store.assocs.update(self.base)
        self.server = Server(self.store, OP)


_scenes = {}


def scene(kind):
    if kind not in _scenes:
        _scenes[kind] = Scene(kind)
    return _scenes[kind]


def query(version, mode, ids, rt, realm, handle, stray=None):
    claimed, ident = IDS[ids]
    q = op.base_query(version, mode)
    if ident is not None:
        q['openid.identity'] = ident
    if claimed is not None and version == 2:
        q['openid.claimed_id'] = claimed
    if rt is not None:
        q['openid.return_to'] = rt
    if realm is not None:
        q['openid.realm' if version == 2 else 'openid.trust_root'] = realm
    if stray:                       # the other version's name of the realm means nothing
        q['openid.trust_root' if version == 2 else 'openid.realm'] = stray
    if handle is not None:
        q['openid.assoc_handle'] = handle
    return q


def want_decode(version, ids, rt, realm, ok):
    """'error' or 'request'."""
    claimed, ident = IDS[ids]
    if version != 2:
        if ident is None or not rt:
            return 'error'
    else:
        if (claimed is None) != (ident is None):
            return 'error'
        if rt is None:
            return 'request' if realm and ok is not False else 'error'
        if rt == '':
            return 'error'
    return 'request' if ok else 'error'


def want_answer(version, mode, ids, ans, ext):
    """('raise', types) or ('yes', identity, claimed) or ('no', mode)."""
    allow, ident, claimed = ans
    rc, ri = IDS[ids]
    if ident == 'same':
        ident = ri if ri != IDSEL else OTHER
    if claimed and version != 2:
        return ('raise', (VersionError,))
    if not allow:
        if mode == 'checkid_setup':
            return ('no', 'cancel')
        return ('no', 'setup_needed' if version == 2 else 'id_res')
    if ri == IDSEL:
        if not ident:
            return ('raise', (ValueError,))
        return ('yes', ident, claimed or ident)
    if ri is None:
        return ('raise', (ValueError,)) if ident else ('yes', None, None)
    if ident and ident != ri and not (ident == SAME and ri == USER):
        return ('raise', (ValueError,))
    return ('yes', ri, rc)


def apply_ext(resp, ext):
    if ext == 'sreg':
        req = sreg.SRegRequest(required=['nickname'], optional=['email', 'dob'])
        resp.addExtension(sreg.SRegResponse.extractResponse(req, {'nickname': 'n\u00e9', 'email': 'a=b&c@d', 'gender': 'M'}))
        return {'nickname': 'n\u00e9', 'email': 'a=b&c@d'}
    if ext == 'custom':
        resp.fields.setArg('http://ext.example/1', 'k', 'v : w,x')
        resp.fields.setArg('http://ext.example/1', 'k.2', '')
        resp.fields.setArg('http://ext.example/2', 'k', ' z ')
        return {'k': 'v : w,x'}
    if ext == 'newline':
        resp.fields.setArg('http://ext.example/1', 'k', 'a\nidentity:http://evil/')
    if ext == 'newlinekey':
        resp.fields.setArg('http://ext.example/1', 'k\nidentity:x', 'a')
    if ext == 'presigned':
        resp.fields.setArg(NS2 if resp.fields.isOpenID2() else resp.fields.getOpenIDNamespace(), 'sig', 'x')
    return {}


def run(case, st):
    kind, version, mode, ids, place, hname, ans, ext = case
    rt, realm, ok = place[:3]
    key = repr(case)
    sc = scene(kind)
    sc.fresh()
    handle = sc.handles[hname]
    q = query(version, mode, ids, rt, realm, handle, *place[3:])
    st.executions += 1
    st.transitions += 1
    st.state(key)
    bad = lambda what, extra=None: st.violation(key, what, {'query': q, 'answer': ans, 'extension': ext, 'seen': extra})
    want = want_decode(version, ids, rt, realm, ok)
    try:
        req = sc.server.decodeRequest(dict(q))
    except ProtocolError as e:
        st.outcome('refused')
        if want != 'error':
            bad('request refused: %r' % e)
        return
    except Exception as e:
        return bad('decoding raised %s: %s' % (type(e).__name__, e))
    if want == 'error':
        return bad('a request that is not acceptable was decoded: %r' % req)
    if not isinstance(req, CheckIDRequest):
        return bad('decoded as %r' % req)
    if (req.identity, req.return_to, req.immediate) != (IDS[ids][1], rt, mode == 'checkid_immediate'):
        bad('decoded request differs: %r' % ((req.identity, req.return_to, req.immediate),))
    if req.trust_root != (realm or rt):
        bad('realm of the request: %r' % req.trust_root)
    if bool(req.idSelect()) != (IDS[ids][1] == IDSEL):
        bad('idSelect() is %r' % req.idSelect())
    try:
        cancel = req.getCancelURL()
    except NoReturnToError:
        cancel = 'none'
    except ValueError:
        cancel = 'refused'
    if rt is None:
        want_cancel = 'none'
    elif mode == 'checkid_immediate':
        want_cancel = 'refused'
    else:
        want_cancel = (rt.split('?')[0], parse_qsl(urlsplit(rt).query, keep_blank_values=True) + [('openid.mode', 'cancel')] + ([('openid.ns', NS2)] if version == 2 else []))
        if '://' in cancel:
            got = parse_qsl(urlsplit(cancel).query, keep_blank_values=True)
            cancel = (cancel.split('?')[0], [x for x in got if x[0][:7] != 'openid.'] + sorted(x for x in got if x[0][:7] == 'openid.' and (version == 2 or x[0] != 'openid.ns')))
    if cancel != want_cancel:
        bad('cancel URL %r, expected %r' % (cancel, want_cancel))
    if hname == 'last':
        CLOCK.reset(sc.base[handle][2] - 1)
    elif hname == 'gone':
        CLOCK.reset(sc.base[handle][2])
    elif hname == 'dropped':
        sc.server.signatory.invalidate(handle, dumb=False)
    allow, ident, claimed = ans
    if ident == 'same':
        ident = IDS[ids][1] if IDS[ids][1] != IDSEL else OTHER
    kw = {}
    if ident is not None:
        kw['identity'] = ident
    if claimed is not None:
        kw['claimed_id'] = claimed
    if rt is None:
        try:
            r = req.answer(allow, **kw)
            return bad('answered without a return URL: %s' % r.fields.toPostArgs())
        except NoReturnToError:
            st.outcome('no return URL')
            return
    want = want_answer(version, mode, ids, ans, ext)
    try:
        resp = req.answer(allow, **kw)
    except Exception as e:
        st.outcome('answer refused')
        if want[0] != 'raise' or not isinstance(e, want[1]):
            bad('answer raised %s: %s, expected %r' % (type(e).__name__, e, want))
        return
    if want[0] == 'raise':
        return bad('answer accepted: %r' % resp.fields.toPostArgs())
    extra = apply_ext(resp, ext)
    signing = want[0] == 'yes' or (version != 2 and mode == 'checkid_immediate')
    must_fail = signing and ext in ('newline', 'newlinekey', 'presigned')
    before = set(sc.store.assocs)
    try:
        web = sc.server.encodeResponse(resp)
    except EncodingError as e:
        st.outcome('encoding refused')
        if not must_fail:
            bad('encoding raised %s' % e)
        return
    except Exception as e:
        return bad('encoding raised %s: %s' % (type(e).__name__, e))
    if must_fail:
        return bad('a response with a line break or a signature in it was encoded')
    how, pairs, target = delivered(web, rt)
    if how == 'none':
        return bad('response is neither a redirect nor a form: %r' % web.code)
    a = openid_args(pairs)
    if len(a) != len([k for k, v in pairs if k.startswith('openid.')]):
        bad('duplicate arguments', pairs)
    # destination
    u, w = urlsplit(target), urlsplit(rt)
    if (u.scheme, u.netloc, u.path) != (w.scheme, w.netloc, w.path) or [p for p in pairs if not p[0].startswith('openid.')] != \
            parse_qsl(w.query, keep_blank_values=True):
        bad('not sent to the return URL: %s' % target)
    if (a.get('openid.ns') if version == 2 else None) != (NS2 if version == 2 else None):
        bad('wrong namespace', a)
    for k, v in extra.items():
        if v not in a.values():
            bad('extension value %r missing' % v, a)
    if want[0] == 'no':
        st.outcome('refusal ' + want[1])
        if a.get('openid.mode') != want[1]:
            bad('refusal with mode %r' % a.get('openid.mode'), a)
        for f in ('identity', 'claimed_id', 'response_nonce', 'op_endpoint', 'return_to'):
            if 'openid.' + f in a:
                bad('a refusal carries %s' % f, a)
        if version == 2 and ext != 'presigned' and ('openid.sig' in a or 'openid.signed' in a):
            bad('a refusal is signed', a)
        if mode == 'checkid_immediate':
            su = a.get('openid.user_setup_url')
            if not su:
                return bad('no setup URL', a)
            if not su.startswith(OP):
                bad('setup URL elsewhere', su)
            q2 = dict(parse_qsl(urlsplit(su).query, keep_blank_values=True))
            want_q = {k: v for k, v in q.items() if v}
            want_q['openid.mode'] = 'checkid_setup'
            rk, other = ('openid.realm', 'openid.trust_root')[::1 if version == 2 else -1]
            want_q.setdefault(rk, rt)
            want_q.pop(other, None)
            if version != 2:
                want_q.pop('openid.ns', None)
                q2.pop('openid.ns', None)
            if q2 != want_q:
                bad('setup URL asks something else: %r' % (sorted(set(q2.items()) ^ set(want_q.items())),), su)
            # presenting the signed part without the setup URL must not amount to an assertion: it names nobody
        elif 'openid.user_setup_url' in a:
            bad('cancel with setup URL', a)
        return
    # positive assertion
    st.outcome('assertion')
    if a.get('openid.mode') != 'id_res' or 'openid.user_setup_url' in a:
        bad('approved but not an assertion', a)
    if a.get('openid.identity') != want[1]:
        bad('identity %r, expected %r' % (a.get('openid.identity'), want[1]), a)
    if a.get('openid.claimed_id') != (want[2] if version == 2 else None):
        bad('claimed_id %r, expected %r' % (a.get('openid.claimed_id'), want[2]), a)
    if a.get('openid.return_to') != rt:
        bad('return_to %r' % a.get('openid.return_to'), a)
    if a.get('openid.op_endpoint') != OP:
        bad('op_endpoint %r' % a.get('openid.op_endpoint'), a)
    n = a.get('openid.response_nonce', '')
    if not n.startswith(world.nonce_at(CLOCK.now, '')) or len(n) < 24:
        bad('nonce %r' % n, a)
    signed = a.get('openid.signed', '').split(',')
    for k in a:
        if k != 'openid.sig' and k[7:] not in signed:
            bad('field %s is not signed' % k, a)
    for f in signed:
        if 'openid.' + f not in a:
            bad('signed list names %r, which is absent' % f, a)
    h = a.get('openid.assoc_handle')
    k = sc.store.assocs.get(h)
    if k is None or not op.sig_ok(a, k):
        bad('signature does not verify', a)
    elif k[2] <= CLOCK.now:
        bad('signed with an expired association', a)
    if hname in SHARED:
        if h != handle or 'openid.invalidate_handle' in a:
            bad('the shared association was not used: %r' % h, a)
    else:
        if h in before:
            bad('signed with an existing association %r although the handle given was %s' % (h, hname), a)
        if a.get('openid.invalidate_handle') != (handle or None):
            bad('invalidate_handle %r, expected %r' % (a.get('openid.invalidate_handle'), handle), a)
        if sc.server.signatory.getAssociation(h, dumb=False) is not None:
            bad('the private association is usable as a shared one', a)
    # a second, independent answer gets another nonce (and another private handle)
    b = openid_args(delivered(sc.server.encodeResponse(req.answer(allow, **kw)), rt)[1])
    if b.get('openid.response_nonce') == n:
        bad('two assertions share a nonce', b)
    if hname not in SHARED and b.get('openid.assoc_handle') == h:
        bad('two stateless assertions share a private handle', b)
    # encoding the same response again: same content, valid signature
    c = openid_args(delivered(sc.server.encodeResponse(resp), rt)[1])
    kk = sc.store.assocs.get(c.get('openid.assoc_handle'))
    if kk is None or not op.sig_ok(c, kk) or {x: y for x, y in c.items() if x not in ('openid.sig', 'openid.assoc_handle')} != \
            {x: y for x, y in a.items() if x not in ('openid.sig', 'openid.assoc_handle')}:
        bad('encoding again gives something else', c)
    st.sample({'query': q, 'response': a})


def check(ctx):
    quick = ctx.quick
    good = [p for p in PLACES if p[2]]
    versions = (1, 2) if quick else (1, 10, 11, 2)

    def cases():
        # all requests, one answer
        for v, m, i, p, h in itertools.product((1, 11, 10, 2), ('checkid_setup', 'checkid_immediate'), IDS, PLACES, HANDLES):
            yield ('memory', v, m, i, p, h, ANSWERS[4] if IDS[i][1] == IDSEL and v == 2 else ANSWERS[3] if IDS[i][1] == IDSEL else ANSWERS[0], 'none')
            yield ('memory', v, m, i, p, h, ANSWERS[7], 'none')
        for v, m, i, p, s, a in itertools.product((1, 11, 10, 2), ('checkid_setup', 'checkid_immediate'), ('plain', 'frag', 'anonymous'), PLACES,
                                                  ('http://rp.example/', 'http://evil.example/', 'not a url', RT), (ANSWERS[0], ANSWERS[7])):
            yield ('memory', v, m, i, p + (s,), 'none', a, 'none')
        # all answers and extensions, a few places
        for v, m, i, p, h, a, e in itertools.product(versions, ('checkid_setup', 'checkid_immediate'), IDS, good[:1] if quick else good,
                                                     HANDLES if not quick else ('none', 'sha256', 'expired', 'private', 'gone'), ANSWERS, EXTS):
            yield ('memory', v, m, i, p, h, a, e)
        for s, v, m, i, h, a in itertools.product(('file', 'sqlite'), (1, 2), ('checkid_setup', 'checkid_immediate'), ('plain', 'select'), HANDLES,
                                                  (ANSWERS[0], ANSWERS[3], ANSWERS[7])):
            yield (s, v, m, i, good[0], h, a, 'sreg')
    ctx.bounds = {'requests': 'versions x modes x %d identifier forms x %d return URL/realm pairs x %d handle states' % (len(IDS), len(PLACES), len(HANDLES)),
                  'answers': len(ANSWERS), 'extensions': EXTS, 'stores': ['memory', 'file', 'sqlite']}
    ctx.run(cases, run)
