"""C18: extensions between the real relying party and the real provider: round trips, disclosure, counts, signed data only."""
import itertools
from lib import env, world, op, pair, rp, sizes
from lib.env import CLOCK, T0
from lib.world import NS2, NS1, NS11
from openid.extensions import sreg, ax, pape
from openid.extensions.draft import pape2
from openid.consumer.consumer import Consumer, SUCCESS
from openid.message import Message, OPENID2_NS, OPENID1_NS
from six.moves.urllib.parse import parse_qsl, urlencode

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of bounded extension requests and answers, each driven through complete logins of the real relying party and '
             'provider over wire text, and of bounded raw extension arguments and signed subsets, against reference models of the extensions')
NOTE = 'the reference models predict the parsed content; every enumerated exchange is executed on the real code'
RULE = 'one execution = one extension request or one whole login with extensions (or one raw argument set); compared: content on the other side'
ASSUMPTIONS = ['values contain no newline (the signature format cannot carry one)']
FIELDS = ['fullname', 'nickname', 'dob', 'email', 'gender', 'postcode', 'country', 'language', 'timezone']
VALUES = ['', 'a', ' ', 'Ärger ☃', 'a&b=c+d%20#?', '<"\'>&amp;', 'x:y', 'a,b', '𝄞', 'none', 'x' * 3000]
T1, T2, T3 = 'http://axschema.org/namePerson', 'http://axschema.org/contact/email', 'urn:x?a=b&c,d'
_P = {}


def the_pair(version, stateless=False):
    """One pair per process; the association between its sides is established by the first login."""
    k = (version, stateless)
    if k not in _P:
        _P[k] = pair.Pair(version, rp_store=None if stateless else 'memory', reset=False)
    p = _P[k]
    p.net.install()
    CLOCK.now += 1
    p.session = {}
    return p


def request(p, exts, transport='redirect'):
    auth = p.consumer().begin(pair.USER)
    for e in exts:
        auth.addExtension(e)
    q, _ = p.send(auth, transport=transport)
    return p.server.decodeRequest(q)


def respond(p, req, exts):
    resp = req.answer(True)
    for e in exts:
        resp.addExtension(e)
    q, cur = p.receive(resp)
    r = p.consumer().complete(q, cur)
    assert r.status == SUCCESS, 'honest login failed: %s' % getattr(r, 'message', r.status)
    return r


class Bad(Exception):
    pass


def same(what, got, want):
    if got != want:
        raise Bad('%s: %r, expected %r' % (what, got, want))


# -- simple registration ------------------------------------------------------

def sreg_request(case, st):
    _, v, uri, req, opt, pol, transport = case
    p = the_pair(v)
    r = request(p, [sreg.SRegRequest(required=req, optional=opt, policy_url=pol, sreg_ns_uri=uri)], transport)
    got = sreg.SRegRequest.fromOpenIDRequest(r)
    same('request', (got.required, got.optional, got.policy_url or None), (list(req), list(opt), pol or None))
    asked = list(req) + list(opt)
    same('requested fields', (got.allRequestedFields(), got.wereFieldsRequested(), [f for f in FIELDS if f in got]),
         (asked, bool(asked), [f for f in FIELDS if f in asked]))
    data = {f: 'v-' + f for f in FIELDS}
    data.update({'password': 'secret', 'sreg.email': 'x'})
    same('disclosed', dict(sreg.SRegResponse.extractResponse(got, data).items()), {f: 'v-' + f for f in asked})
    st.outcome('sreg request')


def sreg_login(case, st):
    _, v, uri, cells, stateless = case
    p = the_pair(v, stateless)
    names = FIELDS[:len(cells)]
    req = [f for f, (a, d) in zip(names, cells) if a == 'r']
    opt = [f for f, (a, d) in zip(names, cells) if a == 'o']
    data = {f: d for f, (a, d) in zip(names, cells) if d != 'absent'}
    r = request(p, [sreg.SRegRequest(required=req, optional=opt, sreg_ns_uri=uri)])
    sr = sreg.SRegRequest.fromOpenIDRequest(r)
    ans = sreg.SRegResponse.extractResponse(sr, dict(data, password='secret', timezone='T'))
    s = respond(p, r, [ans])
    want = {f: '%s' % data[f] for f in req + opt if data.get(f) is not None}
    got = sreg.SRegResponse.fromSuccessResponse(s)
    same('answer', dict(got.items()) if got is not None else {}, want)
    same('values by name', [got.get(f) if got is not None else None for f in FIELDS], [want.get(f) for f in FIELDS])
    wire = {k: v_ for k, v_ in s.message.toPostArgs().items() if k.startswith('openid.sreg.') or 'secret' in v_}
    same('on the wire', wire, {'openid.sreg.' + k: v_ for k, v_ in want.items()})
    st.outcome('sreg login:%d' % len(want))


def sreg_values(case, st):
    _, v, value, field = case
    p = the_pair(v)
    r = request(p, [sreg.SRegRequest(optional=[field], policy_url=value)])
    same('policy', sreg.SRegRequest.fromOpenIDRequest(r).policy_url or '', value)
    s = respond(p, r, [sreg.SRegResponse.extractResponse(sreg.SRegRequest.fromOpenIDRequest(r), {field: value})])
    same('value', dict(sreg.SRegResponse.fromSuccessResponse(s).items()), {field: value})
    st.outcome('sreg value')


ITEMS = ['nickname', 'email', 'bogus', '', ' email', 'Email']


def sreg_raw(case, st):
    """Hostile request arguments: unknown and repeated fields are ignored (or refused when strict)."""
    _, r, o, strict = case
    args = {}
    if r is not None:
        args['required'] = ','.join(r)
    if o is not None:
        args['optional'] = ','.join(o)
    R, O, err = [], [], False
    for lst, items in (('r', r), ('o', o)):
        if not items or args['required' if lst == 'r' else 'optional'] == '':
            continue
        for f in items:
            if f not in FIELDS or (strict and f in R + O):
                err = True
                if strict:
                    break
                continue
            if lst == 'r' and f not in R:
                R.append(f)
            elif lst == 'o' and f not in R + O:
                O.append(f)
        if strict and err:
            break
    x = sreg.SRegRequest()
    try:
        x.parseExtensionArgs(args, strict=strict)
        raised = False
    except ValueError:
        raised = True
    if strict and err:
        same('strict parse refused', raised, True)
    else:
        same('parsed', (raised, x.required, x.optional), (False, R, O))
    st.outcome('sreg raw')


# -- attribute exchange -------------------------------------------------------

def ax_request(case, st):
    _, v, attrs, update, transport = case
    p = the_pair(v)
    f = ax.FetchRequest(update_url=update)
    for t, count, required, alias in attrs:
        f.add(ax.AttrInfo(t, count=count, required=required, alias=alias))
    r = request(p, [f], transport)
    bad = update is not None and update != '' and not update.startswith('http://rp.example/')
    try:
        got = ax.FetchRequest.fromOpenIDRequest(r)
    except ax.AXError:
        if v == 2 or update is None:        # OpenID 1 has no openid.realm to check the update URL against
            same('request refused', True, bad)
        st.outcome('ax request refused')
        return
    same('request with an update URL outside the realm accepted', bad, False)
    same('request', sorted((a.type_uri, a.count, a.required) for a in got.iterAttrs()) if got is not None else None,
         sorted((t, c, q) for t, c, q, _ in attrs))
    for a in got.iterAttrs():
        want = [al for t, _, _, al in attrs if t == a.type_uri][0]
        if want is not None:
            same('alias', a.alias, want)
        same('unlimited', a.wantsUnlimitedValues(), a.count == ax.UNLIMITED_VALUES)
    same('required', sorted(got.getRequiredAttrs()), sorted(t for t, _, q, _ in attrs if q))
    same('update url', got.update_url or None, update or None)
    same('members', [t in got for t in (T1, T2, T3)], [t in [x[0] for x in attrs] for t in (T1, T2, T3)])
    st.outcome('ax request:%d' % len(attrs))


def ax_login(case, st):
    """attrs: (type, count asked or 0 for not requested, values or None)."""
    _, v, attrs, use_request, update, stateless = case
    p = the_pair(v, stateless)
    f = ax.FetchRequest(update_url=update)
    for t, count, values in attrs:
        if count:
            f.add(ax.AttrInfo(t, count=count))
    r = request(p, [f])
    try:
        fr = ax.FetchRequest.fromOpenIDRequest(r)
    except ax.AXError:
        same('request refused', v != 2 and update is not None, True)
        return
    ans = ax.FetchResponse(fr if use_request else None)
    data = {}
    for t, count, values in attrs:
        if values is not None:
            data[t] = list(values)
            if len(values) == 1:
                ans.addValue(t, values[0])
            else:
                ans.setValues(t, values)
    over = use_request and any(values is not None and (count == 0 or (count != ax.UNLIMITED_VALUES and len(values) > count)) for t, count, values in attrs)
    try:
        s = respond(p, r, [ans])
    except (KeyError, ax.AXError):
        same('answer refused', True, over)
        st.outcome('ax answer refused')
        return
    same('answer with more than was requested', over, False)
    got = ax.FetchResponse.fromSuccessResponse(s)
    want = dict({t: [] for t, count, values in attrs if count} if use_request else {}, **data)
    same('answer', got.data if got is not None else None, want)
    same('update url', got.update_url or None, (update if use_request else None) or None)
    for t in (T1, T2, T3):
        vals = want.get(t)
        try:
            single = got.getSingle(t, 'dflt')
        except ax.AXError:
            single = 'many'
        same('single', single, 'dflt' if not vals else vals[0] if len(vals) == 1 else 'many')
        if vals is not None:
            same('count', (got.count(t), got.get(t)), (len(vals), vals))
    st.outcome('ax login')


def ax_store(case, st):
    _, v, data, result = case
    p = the_pair(v)
    sr = ax.StoreRequest()
    for t, values in data:
        sr.setValues(t, values)
    r = request(p, [sr])
    got = ax.StoreRequest.fromOpenIDRequest(r)
    same('store request', got.data if got is not None else None, {t: list(vs) for t, vs in data})
    for cls in (ax.FetchRequest,):
        try:
            cls.fromOpenIDRequest(r)
            same('store request read as fetch request', True, False)
        except ax.AXError:
            pass
    s = respond(p, r, [ax.StoreResponse(*result)])
    sg = ax.StoreResponse.fromSuccessResponse(s)
    same('store response', (sg.succeeded(), sg.error_message or None) if sg is not None else None, (result[0], (result[1:] or (None,))[0]))
    try:
        x = ax.FetchResponse.fromSuccessResponse(s)
        same('store response read as fetch response', True, False)
    except ax.AXError:
        pass
    st.outcome('ax store')


def ax_none(case, st):
    """No attribute exchange data: every reader says so."""
    _, v, stateless = case
    p = the_pair(v, stateless)
    r = request(p, [])
    same('readers', (ax.FetchRequest.fromOpenIDRequest(r), ax.StoreRequest.fromOpenIDRequest(r), pape.Request.fromOpenIDRequest(r)), (None, None, None))
    same('sreg', sreg.SRegRequest.fromOpenIDRequest(r).allRequestedFields(), [])
    s = respond(p, r, [])
    same('readers', (ax.FetchResponse.fromSuccessResponse(s), ax.StoreResponse.fromSuccessResponse(s), sreg.SRegResponse.fromSuccessResponse(s)), (None, None, None))
    st.outcome('none')


class Req(object):
    """What a reader needs of a decoded request."""

    def __init__(self, q):
        self.message = Message.fromPostArgs(q)


def ax_wire(ext, args):
    q = {'openid.ns': NS2, 'openid.mode': 'checkid_setup', 'openid.realm': 'http://rp.example/', 'openid.return_to': 'http://rp.example/r',
         'openid.ns.z': ax.AXMessage.ns_uri}
    q.update(('openid.z.' + k, v) for k, v in args.items())
    return Req(q)


def ax_raw_request(case, st):
    _, types, counts, required, avail = case
    args = {'mode': 'fetch_request'}
    for a, t in types:
        args['type.' + a] = t
    for a, c in counts:
        if c is not None:
            args['count.' + a] = c
    if required is not None:
        args['required'] = required
    if avail is not None:
        args['if_available'] = avail
    want = {}
    err = len(set(t for _, t in types)) != len(types) or any('.' in a or ',' in a for a, _ in types)
    req = required.split(',') if required else []
    av = avail.split(',') if avail else []
    al = dict(types)
    for a in req + av:
        err = err or a not in al
    cd = dict(counts)
    for a, t in types:
        c = cd.get(a)
        if not c:
            n = 1
        elif c == 'unlimited':
            n = c
        elif c.lstrip('-').isdigit() and int(c) > 0:
            n = int(c)
        else:
            err = True
            n = None
        err = err or a not in req + av
        want[t] = (n, a in req, a)
    try:
        got = ax.FetchRequest.fromOpenIDRequest(ax_wire(None, args))
    except (KeyError, ax.AXError) as e:
        same('well-formed request refused (%s)' % e, True, err)
        st.outcome('ax raw request refused')
        return
    same('malformed request accepted', err, False)
    same('parsed', {x.type_uri: (x.count, x.required, x.alias) for x in got.iterAttrs()}, want)
    st.outcome('ax raw request')


def ax_raw_values(case, st):
    _, cls, cells, update = case
    args = {'mode': cls.mode}
    if update is not None:
        args['update_url'] = update
    want, err = {}, False
    for (a, t), (count, bare, vals) in cells:
        args['type.' + a] = t
        if count is not None:
            args['count.' + a] = count
        if bare is not None:
            args['value.' + a] = bare
        for i, x in vals:
            args['value.%s.%s' % (a, i)] = x
        if '.' in a or ',' in a:
            err = True
        d = dict(vals)
        if count is None:
            if bare is None:
                err = True
            want[t] = [bare] if bare else []
        elif count.isdigit():
            if any(str(i) not in d for i in range(1, int(count) + 1)):
                err = True
            else:
                want[t] = [d[str(i)] for i in range(1, int(count) + 1)]
        elif count == '-1':
            want[t] = None      # a negative count: no values, or an error
        else:
            err = True
    if len(set(t for (a, t), _ in cells)) != len(cells):
        err = True
    x = cls()
    try:
        if cls is ax.FetchResponse:
            x.parseExtensionArgs(args)
        else:
            x = cls.fromOpenIDRequest(ax_wire(None, args))
    except (KeyError, ValueError) as e:
        if not any(w is None for w in want.values()):
            same('well-formed data refused (%s %s)' % (type(e).__name__, e), True, err)
        st.outcome('ax raw values refused')
        return
    same('malformed data accepted', err, False)
    want = {t: ([] if w is None else w) for t, w in want.items()}
    same('parsed', x.data, want)
    if cls is ax.FetchResponse:
        same('update url', x.update_url, update)
    st.outcome('ax raw values')


# -- authentication policy ----------------------------------------------------

POLS = [pape.AUTH_MULTI_FACTOR, pape.AUTH_PHISHING_RESISTANT, 'http://op.example/policy?x=1&y']
LEVELS = [pape.LEVELS_NIST, pape.LEVELS_JISA, 'http://levels.example/one', 'http://levels.example/two?a=b']


def pape_request(case, st):
    _, v, mod, pols, age, levels, transport = case
    p = the_pair(v)
    x = mod.Request(list(pols), max_auth_age=age) if pols else mod.Request(max_auth_age=age)
    for u, alias in levels:
        x.addAuthLevel(u, alias)
    r = request(p, [x], transport)
    got = mod.Request.fromOpenIDRequest(r)
    if got is None:
        raise Bad('no policy request on the other side')
    same('policies', got.preferred_auth_policies, list(pols))
    same('age', got.max_auth_age, age)
    if mod is pape:
        same('levels', got.preferred_auth_level_types, [u for u, _ in levels])
    same('anything asked', bool(got), bool(pols or age is not None or levels))
    same('preferred types', got.preferredTypes(POLS[::-1]), [u for u in POLS[::-1] if u in pols])
    st.outcome('pape request')


def pape_login(case, st):
    _, v, mod, pols, when, levels, stateless = case
    p = the_pair(v, stateless)
    r = request(p, [mod.Request([POLS[0]])])
    if mod is pape:
        x = pape.Response(list(pols), auth_time=when)
        for u, lev, alias in levels:
            x.setAuthLevel(u, lev, alias)
    else:
        x = pape2.Response(list(pols), auth_time=when, nist_auth_level=levels)
    s = respond(p, r, [x])
    got = mod.Response.fromSuccessResponse(s)
    if got is None:
        raise Bad('no policy response on the other side')
    same('policies', got.auth_policies, list(pols))
    same('time', got.auth_time, when)
    if mod is pape:
        same('levels', got.auth_levels, {u: '%s' % lev for u, lev, _ in levels})
        for u, lev, _ in levels:
            same('level', got.getAuthLevel(u), '%s' % lev)
        nist = [lev for u, lev, _ in levels if u == pape.LEVELS_NIST]
        same('nist level', got.nist_auth_level, int(nist[0]) if nist else None)
    else:
        same('nist level', got.nist_auth_level, levels)
    st.outcome('pape login')


def pape_raw_response(case, st):
    """Raw response arguments: what is well formed is read, the rest ignored (or refused when strict)."""
    _, pols, when, cells, v1, strict = case
    args = {}
    if pols is not None:
        args['auth_policies'] = ' '.join(pols)
    if when is not None:
        args['auth_time'] = when
    levels = {}
    undefined = False
    for alias, uri, lev in cells:
        if uri is not None:
            args['auth_level.ns.' + alias] = uri
        if lev is not None:
            args['auth_level.' + alias] = lev
            u = uri or ({'nist': pape.LEVELS_NIST, 'jisa': pape.LEVELS_JISA}.get(alias) if v1 else None)
            if u is None:
                undefined = True
            else:
                levels.setdefault(u, set()).add(lev)
    good_time = when is not None and len(when) == 20 and when[-1] == 'Z' and when[10] == 'T'
    clean = [u for u in (pols or []) if u not in ('none', pape.AUTH_NONE)]
    err = (not pols or 'none' in pols or (pape.AUTH_NONE in pols and len(pols) > 1) or bool(when and not good_time) or undefined)
    x = pape.Response()
    try:
        x.parseExtensionArgs(args, v1, strict=strict)
    except ValueError:
        same('refused', (strict, err), (True, True))
        st.outcome('pape raw refused')
        return
    same('malformed accepted when strict', strict and err, False)
    same('policies', x.auth_policies, clean)
    same('time', x.auth_time, when if good_time else None)
    same('level types', sorted(x.auth_levels), sorted(levels))
    for u, l in x.auth_levels.items():
        same('level %r of %s' % (l, u), l in levels[u], True)
    st.outcome('pape raw')


def pape_raw_request(case, st):
    _, pols, age, types, cells, v1, strict = case
    args = {}
    if pols is not None:
        args['preferred_auth_policies'] = ' '.join(pols)
    if age is not None:
        args['max_auth_age'] = age
    if types is not None:
        args['preferred_auth_level_types'] = ' '.join(types)
    for alias, uri in cells:
        if uri is not None:
            args['auth_level.ns.' + alias] = uri
    d = dict(cells)
    want, undefined = [], False
    for a in types or []:
        u = d.get(a) or ({'nist': pape.LEVELS_NIST, 'jisa': pape.LEVELS_JISA}.get(a) if v1 else None)
        if u is None:
            undefined = True
        elif u not in want:
            want.append(u)
    try:
        n = int(age) if age else None
        bad_age = False
    except ValueError:
        n, bad_age = None, True
    x = pape.Request()
    try:
        x.parseExtensionArgs(args, v1, strict=strict)
    except ValueError:
        same('refused', (strict, bad_age or undefined), (True, True))
        st.outcome('pape raw refused')
        return
    same('malformed accepted when strict', strict and (bad_age or undefined), False)
    same('policies', x.preferred_auth_policies, list(dict.fromkeys(pols or [])))
    same('age', x.max_auth_age, n)
    same('levels', x.preferred_auth_level_types, want)
    st.outcome('pape raw request')


# -- together -----------------------------------------------------------------

def together(case, st):
    _, v, order, twice, stateless = case
    p = the_pair(v, stateless)
    mk = {'s': lambda: sreg.SRegRequest(required=['email'], optional=['dob']), 'p': lambda: pape.Request([POLS[0]], max_auth_age=5), 'a': lambda: ax_fetch()}
    exts = [mk[o]() for o in order]
    if twice:
        exts += [mk[o]() for o in order]
    r = request(p, exts)
    s = sreg.SRegRequest.fromOpenIDRequest(r)
    a = ax.FetchRequest.fromOpenIDRequest(r)
    g = pape.Request.fromOpenIDRequest(r)
    same('sreg', (s.required, s.optional), (['email'], ['dob']) if 's' in order else ([], []))
    same('ax', sorted(a) if a is not None else None, [T1] if 'a' in order else None)
    same('pape', (g.preferred_auth_policies, g.max_auth_age) if g is not None else None, ([POLS[0]], 5) if 'p' in order else None)
    ans = []
    for o in order:
        if o == 's':
            ans.append(sreg.SRegResponse.extractResponse(s, {'email': 'e', 'nickname': 'n'}))
        elif o == 'a':
            x = ax.FetchResponse(a)
            x.addValue(T1, 'N')
            ans.append(x)
        else:
            ans.append(pape.Response([POLS[1]], auth_time='2017-07-14T02:40:00Z'))
    if twice:
        ans = ans + ans
    ok = respond(p, r, ans)
    s = sreg.SRegResponse.fromSuccessResponse(ok)
    a = ax.FetchResponse.fromSuccessResponse(ok)
    same('sreg', dict(s.items()) if s is not None else None, {'email': 'e'} if 's' in order else None)
    same('ax', a.data if a is not None else None, {T1: ['N']} if 'a' in order else None)
    if 'p' in order:
        g = pape.Response.fromSuccessResponse(ok)
        same('pape', (g.auth_policies, g.auth_time), ([POLS[1]], '2017-07-14T02:40:00Z'))
    st.outcome('together')


def ax_fetch():
    f = ax.FetchRequest()
    f.add(ax.AttrInfo(T1, alias='name', required=True))
    return f


def signed_only(case, st):
    """An assertion whose extension fields are signed only in part (independent signer)."""
    _, v, alias, kind, sgn = case
    w = rp.World(version=v)
    q = w.fields()
    for k in [k for k in q if 'sreg' in k]:
        del q[k]
    ext = KINDS[kind]
    uri = {'sreg': sreg.ns_uri, 'sreg10': sreg.ns_uri_1_0, 'ax': ax.AXMessage.ns_uri, 'pape': pape.ns_uri}[kind]
    fields = dict((alias + '.' + k, x) for k, x in ext.items())
    if v == 2 or alias not in ('sreg', 'pape', 'ax'):
        q['openid.ns.' + alias] = uri
    q.update(('openid.' + k, x) for k, x in fields.items())
    must = [f for f in w.signed() if 'sreg' not in f]
    part = [f for i, f in enumerate(sorted(fields)) if sgn >> i & 1]
    k = w.private[w.handle]
    q = world.sign(q, must + part, k[0], k[1])
    q.update(w.bare())
    r = w.complete(q, w.return_to)
    same('completion', r.status, SUCCESS)
    signed_vals = {f.partition('.')[2]: fields[f] for f in part}
    full = len(part) == len(fields)
    un = {f.partition('.')[2]: x for f, x in fields.items()}
    if kind.startswith('sreg'):
        got = sreg.SRegResponse.fromSuccessResponse(r)
        data = dict(got.items()) if got is not None else {}
        if full:
            same('signed data', data, un)
        for f, x in data.items():
            same('field %s, signed %r' % (f, sorted(signed_vals)), x, signed_vals.get(f))
        same('all data on request', dict(sreg.SRegResponse.fromSuccessResponse(r, signed_only=False).items()), un)
    elif kind == 'ax':
        got = ax.FetchResponse.fromSuccessResponse(r)
        if full:
            same('signed data', got.data if got is not None else None, {T1: ['N']})
        elif got is not None:
            same('partly signed data read', True, False)
        same('all data on request', ax.FetchResponse.fromSuccessResponse(r, signed=False).data, {T1: ['N']})
    else:
        got = pape.Response.fromSuccessResponse(r)
        if full:
            same('signed data', (got.auth_policies, got.auth_time) if got is not None else None, ([POLS[0]], '2017-07-14T02:40:00Z'))
        elif got is not None:
            for f, x in (('auth_policies', got.auth_policies), ('auth_time', got.auth_time)):
                if x:
                    same('%s read, signed %r' % (f, sorted(signed_vals)), f in signed_vals, True)
    sns = r.getSignedNS(uri) or {}
    for f, x in sns.items():
        same('signed field %s' % f, x, signed_vals.get(f))
    for f in un:
        same('getSigned %s' % f, r.getSigned(uri, f), signed_vals.get(f))
    st.outcome('signed:%d of %d' % (len(part), len(fields)))


def sreg_ops(case, st):
    """All sequences of field requests on one request object, against a model of the two lists."""
    _, seq = case
    x, R, O = sreg.SRegRequest(), [], []
    for f, required, strict in seq:
        known = f in FIELDS
        dup = f in R or f in O
        refuse = not known or (strict and dup)
        try:
            x.requestField(f, required=required, strict=strict) if len(seq) % 2 else x.requestFields([f], required=required, strict=strict)
            raised = False
        except ValueError:
            raised = True
        same('request of %r refused' % f, raised, refuse)
        if not refuse:
            if f in R:
                pass
            elif required:
                O = [o for o in O if o != f]
                R = R + [f]
            elif f not in O:
                O = O + [f]
        same('lists', (x.required, x.optional), (R, O))
        same('all', (sorted(x.allRequestedFields()), x.wereFieldsRequested(), [n for n in FIELDS if n in x]), (sorted(R + O), bool(R + O), [n for n in FIELDS if n in R + O]))
    args = x.getExtensionArgs()
    same('arguments', args, dict(([('required', ','.join(R))] if R else []) + ([('optional', ','.join(O))] if O else [])))
    st.outcome('sreg field requests')


def sreg_two(case, st):
    """Both registration namespaces and unknown fields in one assertion: only defined fields, of the newer namespace."""
    _, v, new, old = case
    w = rp.World(version=v)
    q = w.fields()
    for k in [k for k in q if 'sreg' in k]:
        del q[k]
    part = []
    for alias, uri, fields in (('n', sreg.ns_uri_1_1, new), ('o', sreg.ns_uri_1_0, old)):
        if fields is not None:
            q['openid.ns.' + alias] = uri
            for f in fields:
                q['openid.%s.%s' % (alias, f)] = alias + '-' + f
                part.append(alias + '.' + f)
    k = w.private[w.handle]
    q = world.sign(q, [f for f in w.signed() if 'sreg' not in f] + part, k[0], k[1])
    q.update(w.bare())
    r = w.complete(q, w.return_to)
    same('completion', r.status, SUCCESS)
    al, fl = ('n', new) if new is not None else ('o', old or ())
    want = {f: al + '-' + f for f in fl if f in FIELDS}
    for so in (True, False):
        got = sreg.SRegResponse.fromSuccessResponse(r, signed_only=so)
        same('fields', dict(got.items()) if got is not None else {}, want)
        if got is not None:
            same('keys', (sorted(got.keys()), sorted(got), bool(got)), (sorted(want), sorted(want), bool(want)))
            for f in FIELDS:
                same('member %s' % f, (f in got, got.get(f), got.get(f, 'd')), (f in want, want.get(f), want.get(f, 'd')))
                try:
                    val = got[f]
                except KeyError:
                    val = None
                same('item %s' % f, val, want.get(f))
            for f in ('bogus', 'Email', ''):
                try:
                    got.get(f)
                    same('undefined field %r readable' % f, True, False)
                except ValueError:
                    pass
    st.outcome('sreg two')


def ax_raw_store(case, st):
    """Raw store responses: the outcome is what the mode says; an error belongs to failures only."""
    _, mode, error = case
    args = {}
    if mode is not None:
        args['mode'] = mode
    if error is not None:
        args['error'] = error
    x = ax.StoreResponse()
    try:
        x.parseExtensionArgs(args)
    except ax.AXError:
        same('refused', mode in ('store_response_success', 'store_response_failure'), False)
        st.outcome('ax raw store refused')
        return
    same('accepted', mode in ('store_response_success', 'store_response_failure'), True)
    same('result', (x.succeeded(), x.error_message), (mode == 'store_response_success', error if mode == 'store_response_failure' else None))
    st.outcome('ax raw store')


def pape_ops(case, st):
    """Sequences of policy and level edits on request and response objects."""
    _, seq = case
    x, y, pols, levs, rl = pape.Request(), pape.Response(), [], [], {}
    for op_, a, b in seq:
        if op_ == 'pol':
            x.addPolicyURI(a)
            y.addPolicyURI(a)
            if a not in pols:
                pols = pols + [a]
        else:
            x.addAuthLevel(a)
            y.setAuthLevel(a, b)
            if a not in levs:
                levs = levs + [a]
            rl[a] = b
    same('request', (x.preferred_auth_policies, x.preferred_auth_level_types), (pols, levs))
    same('response', (y.auth_policies, y.auth_levels), (pols, rl))
    for obj, cls in ((x, pape.Request), (y, pape.Response)):
        m = obj.toMessage(Message(OPENID2_NS))
        back = cls()
        back.parseExtensionArgs(m.getArgs(pape.ns_uri), False, strict=True)
        if cls is pape.Request:
            same('request over', (back.preferred_auth_policies, back.preferred_auth_level_types), (pols, levs))
        else:
            same('response over', (back.auth_policies, back.auth_levels), (pols, {u: '%s' % l for u, l in rl.items()}))
    st.outcome('pape edits')


TIMES = {'2017-07-14T02:40:00Z': True, '': None, 'yesterday': False, '2017-07-14T02:40:00': False, '2017-07-14 02:40:00Z': False, 'x2017-07-14T02:40:00Z': False,
         '2017-07-14T02:40:00Zx': False, '2017-07-14T02:40Z': False}


def pape2_raw(case, st):
    """Arguments of the older policy draft, both directions."""
    _, pols, lev, when, strict = case
    args = {}
    for k, v in (('auth_policies', pols), ('nist_auth_level', lev), ('auth_time', when)):
        if v is not None:
            args[k] = v
    bad = bool(lev) and lev in ('x', '1.5') or bool(when) and not TIMES[when]
    x = pape2.Response()
    try:
        x.parseExtensionArgs(args, strict=strict)
    except ValueError:
        same('refused (strict %s)' % strict, strict and bad, True)
        st.outcome('pape2 raw refused')
        return
    same('accepted', strict and bad, False)
    same('policies', x.auth_policies, [] if pols in (None, 'none', '') else pols.split(' '))
    same('level', x.nist_auth_level, int(lev) if lev in ('0', '1', '4') else None)
    same('time', x.auth_time, when if when and TIMES[when] else None)
    st.outcome('pape2 raw')


def pape2_raw_request(case, st):
    _, pols, age = case
    args = {}
    if pols is not None:
        args['preferred_auth_policies'] = ' '.join(pols)
    if age is not None:
        args['max_auth_age'] = age
    x = pape2.Request()
    x.parseExtensionArgs(args)
    uniq = [u for i, u in enumerate(pols or ()) if u not in pols[:i]]
    same('policies', x.preferred_auth_policies, uniq)
    same('age', x.max_auth_age, int(age) if age in ('0', '30') else None)
    same('empty', bool(x), bool(uniq) or age in ('0', '30'))
    for sup in itertools.permutations(POLS):
        same('preferred', x.preferredTypes(list(sup)), [u for u in sup if u in uniq])
    y = pape2.Request()
    z = pape2.Response()
    for u in pols or ():
        y.addPolicyURI(u)
        z.addPolicyURI(u)
    same('added', (y.preferred_auth_policies, z.auth_policies), (uniq, uniq))
    st.outcome('pape2 raw request')


def pape_send(case, st):
    """What a provider cannot say is refused before it is sent."""
    _, mod, lev, when = case
    if mod is pape2:
        x = pape2.Response([POLS[0]], when, lev)
        bad = lev is not None and lev not in (0, 1, 2, 3, 4)
    else:
        x = pape.Response([POLS[0]], when, {LEVELS[0]: lev} if lev is not None else None)
        bad = False
    bad = bad or when is not None and not TIMES[when]
    try:
        args = x.getExtensionArgs()
    except ValueError:
        same('refused', bad, True)
        st.outcome('pape send refused')
        return
    same('sent', bad, False)
    back = mod.Response()
    if mod is pape2:
        back.parseExtensionArgs(args, strict=True)
        same('level', back.nist_auth_level, lev)
    else:
        back.parseExtensionArgs(args, False, strict=True)
        same('level', (back.auth_levels.get(LEVELS[0]), back.nist_auth_level), (None if lev is None else str(lev), lev))
    same('content', (back.auth_policies, back.auth_time), ([POLS[0]], when))
    st.outcome('pape send')


def pape_make(case, st):
    """The constructor's lists are the same as the calls one by one; shared lists are not."""
    _, pols, levs = case
    x = pape.Request(list(pols), 5, list(levs))
    y = pape.Request(max_auth_age=5)
    z = pape.Response(list(pols), None, {u: 'L%d' % i for i, u in enumerate(levs)})
    for u in pols:
        y.addPolicyURI(u)
    for u in levs:
        y.addAuthLevel(u)
    same('request', x.getExtensionArgs(), y.getExtensionArgs())
    other = pape.Request()
    same('fresh request', (other.preferred_auth_policies, other.preferred_auth_level_types, other.max_auth_age, bool(other)), ([], [], None, False))
    back = pape.Request()
    back.parseExtensionArgs(x.getExtensionArgs(), False, strict=True)
    same('request over', (back.preferred_auth_policies, back.preferred_auth_level_types, back.max_auth_age), (list(pols), list(levs), 5))
    rb = pape.Response()
    rb.parseExtensionArgs(z.getExtensionArgs(), False, strict=True)
    same('response over', (rb.auth_policies, [rb.getAuthLevel(u) for u in levs]), (list(pols), ['L%d' % i for i in range(len(levs))]))
    fresh = pape.Response()
    same('fresh response', (fresh.auth_policies, fresh.auth_levels, fresh.auth_time), ([], {}, None))
    try:
        fresh.addPolicyURI(pape.AUTH_NONE)
        same('"no policies" added as a policy', True, False)
    except RuntimeError:
        pass
    st.outcome('pape make')


def ax_ops(case, st):
    """Adding attributes: an attribute is requested once; required ones are listed; values and replies by type."""
    _, seq, upd = case
    x, want = ax.FetchRequest(upd), []
    for t, c, r, al in seq:
        dup = any(w[0] == t for w in want)
        try:
            x.add(ax.AttrInfo(t, c, r, al))
            raised = False
        except KeyError:
            raised = True
        same('second request of %r refused' % t, raised, dup)
        if not dup:
            want = want + [(t, c, r, al)]
    same('required', sorted(x.getRequiredAttrs()), sorted(w[0] for w in want if w[2]))
    same('members', (sorted(x), [t for t in (T1, T2, T3) if t in x]), (sorted(w[0] for w in want), [t for t in (T1, T2, T3) if any(w[0] == t for w in want)]))
    names = [w[3] for w in want if w[3]]
    if len(set(names)) < len(names):
        try:
            x.getExtensionArgs()
            same('one name for two attributes sent', True, False)
        except KeyError:
            st.outcome('ax ops refused')
            return
    back = ax.FetchRequest()
    back.parseExtensionArgs(x.getExtensionArgs())
    same('over', (sorted((a.type_uri, a.count, a.required) for a in back.iterAttrs()), back.update_url), (sorted(w[:3] for w in want), upd))
    al = {a.type_uri: a.alias for a in back.iterAttrs()}
    same('names', [al[w[0]] for w in want if w[3]], names)
    st.outcome('ax ops')


KINDS = {'sreg': {'nickname': 'N', 'email': 'e', 'dob': '2000-01-01'}, 'sreg10': {'nickname': 'N', 'email': 'e'},
         'ax': {'mode': 'fetch_response', 'type.n': T1, 'value.n': 'N'}, 'pape': {'auth_policies': POLS[0], 'auth_time': '2017-07-14T02:40:00Z'}}


FN = dict(sreq=sreg_request, slog=sreg_login, sval=sreg_values, sraw=sreg_raw, areq=ax_request, alog=ax_login, asto=ax_store, none=ax_none,
          arawq=ax_raw_request, arawv=ax_raw_values, preq=pape_request, plog=pape_login, prawr=pape_raw_response, prawq=pape_raw_request,
          tog=together, sig=signed_only, sops=sreg_ops, stwo=sreg_two, astr=ax_raw_store, pops=pape_ops, p2r=pape2_raw,
          p2q=pape2_raw_request, psend=pape_send, pmake=pape_make, aops=ax_ops)


def one(case, st):
    st.executions += 1
    st.transitions += 1
    st.state(case)
    st.sample(repr(case)[:300])
    try:
        FN[case[0]](case, st)
    except Bad as e:
        st.violation(repr(case)[:400], str(e)[:800], repr(case))


def check(ctx):
    q = ctx.quick
    V = (2, 11, 10)
    NSS = (sreg.ns_uri_1_1, sreg.ns_uri_1_0)

    def cases():
        # simple registration
        for a in itertools.product('-ro', repeat=9):
            req = [f for f, x in zip(FIELDS, a) if x == 'r']
            opt = [f for f, x in zip(FIELDS, a) if x == 'o']
            n = sum(x != '-' for x in a)
            for v in (2, 11) if n < 6 or not q else (2,):
                yield ('sreq', v, NSS[0], req, opt, None, 'redirect')
        for v in V:
            for uri in NSS:
                for n in range(4):
                    for sel in itertools.permutations(FIELDS[:4], n):
                        for cut in range(n + 1):
                            for pol in (None, '', 'http://rp.example/pol?a=b&c'):
                                yield ('sreq', v, uri, list(sel[:cut]), list(sel[cut:]), pol, 'form' if cut % 2 else 'redirect')
                kinds = [(a, d) for a in '-ro' for d in ('absent', None, '', 'x')]
                for cells in itertools.product(kinds, repeat=2):
                    for stateless in (False, True):
                        yield ('slog', v, uri, cells, stateless)
                if not q and uri == NSS[0] and v != 10:
                    for cells in itertools.product(kinds, repeat=4):
                        yield ('slog', v, uri, cells, False)
                if True:
                    for cells in itertools.product(kinds, repeat=3):
                        yield ('slog', v, uri, cells, False)
            for val in VALUES:
                for f in FIELDS:
                    yield ('sval', v, val, f)
        for a in [None] + [list(x) for n in range(4) for x in itertools.product(ITEMS, repeat=n)]:
            for b in [None] + [list(x) for n in range(3) for x in itertools.product(ITEMS, repeat=n)]:
                for strict in (False, True):
                    yield ('sraw', a, b, strict)
        # attribute exchange
        shapes = [(c, r, al) for c in (1, 2, ax.UNLIMITED_VALUES) for r in (False, True) for al in (None, 'given')]
        for v in V:
            for n in range(4):
                for sh in itertools.product(shapes, repeat=n):
                    attrs = [(t, c, r, al and al + str(i)) for i, (t, (c, r, al)) in enumerate(zip((T1, T2, T3), sh))]
                    for upd in (None, 'http://rp.example/upd?x=1&y=', 'http://evil.example/') if n < 3 else (None,):
                        yield ('areq', v, attrs, upd, 'redirect')
                    if n == 1:
                        yield ('areq', v, attrs, None, 'form')
            for alias in ['a', 'mode', 'contact', 'error', 'realm', 'identity', 'ns', 'Ä', 'x' * 40, 'a_b-c', 'ext0', 'ext7', 'type', 'count', 'required', '1', 'openid']:
                for c in (1, 2):
                    yield ('areq', v, [(T1, c, True, alias)], None, 'redirect')
                    yield ('areq', v, [(T1, c, True, alias), (T2, 1, False, None)], None, 'redirect')
            vals = [None, (), ('x',), ('x', 'y'), ('',), ('', ''), ('a', 'b', 'c')]
            for n in (1, 2):
                for cell in itertools.product([0, 1, 2, ax.UNLIMITED_VALUES], vals, repeat=n):
                    attrs = [(t, cell[2 * i], cell[2 * i + 1]) for i, t in zip(range(n), (T1, T2))]
                    for use in (True, False):
                        yield ('alog', v, attrs, use, None, False)
                        if n == 1:
                            yield ('alog', v, attrs, use, 'http://rp.example/u', False)
                            yield ('alog', v, attrs, use, None, True)
            for x in VALUES:
                for m in ((x,), (x, 'q'), ('q', x)):
                    yield ('alog', v, [(T1, ax.UNLIMITED_VALUES, m)], True, None, False)
                    yield ('alog', v, [(T1, ax.UNLIMITED_VALUES, m), (T3, 2, ('z',))], False, None, True)
            for a in vals:
                for b in vals:
                    data = [(t, x) for t, x in ((T1, a), (T3, b)) if x is not None]
                    for res in ((True,), (False, None), (False, 'broken: ☃'), (True, None)):
                        yield ('asto', v, data, res)
            for s in (False, True):
                yield ('none', v, s)
        lists = [None, '', 'a', 'b', 'a,b', 'b,a', 'a,a', 'c', 'a,c', 'mode', 'a,', 'x.y', 'x']
        types = [[], [('a', T1)], [('a', T1), ('b', T2)], [('a', T1), ('b', T1)], [('mode', T1)], [('x.y', T1)], [('x,y', T1)], [('a', T1), ('mode', T2)], [('a', '')]]
        for ty in types:
            for c in (None, '', '1', '2', '0', '-1', 'unlimited', 'Unlimited', 'x', '1.5'):
                for c2 in (None, '2', 'x') if len(ty) > 1 else (None,):
                    counts = [(a, x) for (a, _), x in zip(ty, (c, c2))]
                    for r in lists:
                        for av in lists:
                            yield ('arawq', ty, counts, r, av)
        vcells = [(c, b, vs) for c in (None, '0', '1', '2', '-1', 'x', '', 'unlimited') for b in (None, '', 'B')
                  for vs in ((), (('1', 'v1'),), (('2', 'v2'),), (('1', 'v1'), ('2', 'v2')), (('0', 'v0'), ('1', '')))]
        for cls in (ax.FetchResponse, ax.StoreRequest):
            for t in (('a', T1), ('mode', T1), ('x.y', T1), ('contact', T1), ('value', T1), ('a,b', T1)):
                for c in vcells:
                    yield ('arawv', cls, [(t, c)], None)
                    yield ('arawv', cls, [(t, c)], 'http://u/')
            for c in vcells:
                for c2 in vcells:
                    yield ('arawv', cls, [(('a', T1), c), (('b', T2), c2)], None)
            yield ('arawv', cls, [(('a', T1), ('0', None, ())), (('b', T1), ('0', None, ()))], None)
        # authentication policy
        levs = [(LEVELS[0], None), (LEVELS[1], None), (LEVELS[2], None), (LEVELS[2], 'mine'), (LEVELS[3], 'x1')]
        polsets = [p for n in range(4) for p in itertools.permutations(POLS, n)]
        for v in V:
            for pols in polsets:
                for age in (None, 0, 1, 3600, 10**12):
                    for n in range(3):
                        for ls in itertools.permutations(levs, n):
                            if len(set(u for u, _ in ls)) < n:
                                continue
                            yield ('preq', v, pape, pols, age, ls, 'redirect' if n else 'form')
                    yield ('preq', v, pape2, pols, age, (), 'redirect')
                for when in (None, '2017-07-14T02:40:00Z'):
                    for n in range(3):
                        for ls in itertools.permutations([(LEVELS[0], 0, None), (LEVELS[0], '4', 'nist'), (LEVELS[1], '2', None), (LEVELS[2], 'high: ☃', None), (LEVELS[3], 'x', 'al')], n):
                            if len(set(x[0] for x in ls)) == n:
                                yield ('plog', v, pape, pols, when, ls, False)
                                if n < 2:
                                    yield ('plog', v, pape, pols, when, ls, True)
                    for lev in (None, 0, 1, 4):
                        yield ('plog', v, pape2, pols, when, lev, False)
        praw = [None, [POLS[0]], [POLS[0], POLS[1]], ['none'], [pape.AUTH_NONE], [pape.AUTH_NONE, POLS[0]], ['none', POLS[0]]]
        whens = [None, '', '2017-07-14T02:40:00Z', 'yesterday', '2017-07-14T02:40:00', '2017-07-14 02:40:00Z']
        lcell = [(a, u, l) for a in ('nist', 'jisa', 'c') for u in (None, LEVELS[0], LEVELS[2]) for l in (None, '1', '')]
        for ps in praw:
            for when in whens:
                for v1 in (False, True):
                    for strict in (False, True):
                        yield ('prawr', ps, when, [], v1, strict)
                        for c in lcell:
                            yield ('prawr', ps, when, [c], v1, strict)
                        if when in whens[1:3] and ps in praw[1:2]:
                            for c, d in itertools.product(lcell, lcell):
                                if c[0] < d[0]:
                                    yield ('prawr', ps, when, [c, d], v1, strict)
        for ps in (None, [POLS[0]], [POLS[0], POLS[0]], [POLS[1], POLS[0], POLS[1]]):
            for age in (None, '', '0', '30', 'x', '-1', '1.5'):
                for ty in (None, ['nist'], ['c'], ['nist', 'c'], ['c', 'd'], ['c', 'c'], ['jisa', 'nist']):
                    for u1, u2, u3 in itertools.product((None, LEVELS[0], LEVELS[2]), repeat=3):
                        for v1 in (False, True):
                            for strict in (False, True):
                                yield ('prawq', ps, age, ty, [('nist', u1), ('c', u2), ('d', u3)], v1, strict)
        fo = [(f, r, s) for f in ('email', 'nickname', 'bogus') for r in (False, True) for s in (False, True)]
        for n in range(1, 4 if q else 5):
            for seq in itertools.product(fo, repeat=n):
                yield ('sops', seq)
        fl = [None] + [c for n in range(4) for c in itertools.combinations(('email', 'nickname', 'x-custom', 'email.x'), n)]
        for v in (2, 11):
            for a in fl:
                for b in fl:
                    yield ('stwo', v, a, b)
        for m in (None, '', 'store_response_success', 'store_response_failure', 'store_request', 'fetch_response', 'store_response', 'Store_response_success'):
            for e in (None, '', 'broken', '\u2603'):
                yield ('astr', m, e)
        po = [('pol', u, None) for u in POLS] + [('lev', u, n) for u in LEVELS[:3] for n in (0, 7)]
        for n in range(5 if q else 6):
            for seq in itertools.product(po, repeat=n):
                yield ('pops', seq)
        for pols in (None, '', 'none', POLS[0], POLS[0] + ' ' + POLS[1]):
            for lev in (None, '', '0', '1', '4', '5', '-1', 'x', '1.5'):
                for when in [None] + list(TIMES):
                    for strict in (False, True):
                        yield ('p2r', pols, lev, when, strict)
        for n in range(4):
            for ps in itertools.product(POLS, repeat=n):
                for age in (None, '', '0', '30', 'x', '1.5'):
                    yield ('p2q', ps, age)
        for mod in (pape, pape2):
            for lev in (None, 0, 1, 2, 3, 4, 5, -1) if mod is pape2 else (None, 0, 4):
                for when in [None] + [t for t in TIMES if t]:
                    yield ('psend', mod, lev, when)
        for n in range(4):
            for ps in itertools.permutations(POLS, n):
                for m in range(5):
                    for ls in itertools.permutations(LEVELS, m):
                        yield ('pmake', ps, ls)
        ao = [(t, c, r, al) for t in (T1, T2, T3) for c in (1, 2, ax.UNLIMITED_VALUES) for r in (False, True) for al in (None, 'a', 'b', 'ext0')]
        for n in range(3):
            for seq in itertools.product(ao, repeat=n):
                for upd in (None, 'http://rp.example/u'):
                    yield ('aops', seq, upd)
        if not q:
            for seq in itertools.product(ao, repeat=3):
                yield ('aops', seq, None)
        many = tuple('v%d' % i for i in range(1, 124))
        for n in (9, 10, 11, 12, 99, 100, 101, 123):
            for v in V:
                for c in (n, n - 1, ax.UNLIMITED_VALUES):
                    yield ('alog', v, [(T1, c, many[:n])], True, None, False)
            for cls in (ax.FetchResponse, ax.StoreRequest):
                for c in (n - 1, n, n + 1):
                    yield ('arawv', cls, [(('a', T1), (str(c), None, tuple((str(i + 1), x) for i, x in enumerate(many[:n]))))], None)
                for b in (' ', '\t', '0', 'a b'):
                    yield ('arawv', cls, [(('a', T1), (None, b, ()))], None)
        for v in V:
            for lev in range(12):
                yield ('plog', v, pape, (POLS[0],), None, ((LEVELS[0], lev, None),), False)
        # many policies, levels, attributes; long values
        for v in V:
            for n in sizes.counts(q):
                pols = tuple('http://op.example/policy/%d' % i for i in range(n))
                levels = tuple(('http://levels.example/%d' % i, None) for i in range(n))
                named = tuple((u, 'l%d' % i) for i, (u, _) in enumerate(levels))
                for mod in (pape, pape2):
                    yield ('preq', v, mod, pols, None, (), 'form')
                    yield ('plog', v, mod, pols, None, () if mod is pape else None, False)
                for ls in (levels, named):
                    yield ('preq', v, pape, pols[:1], 0, ls, 'form')
                    yield ('plog', v, pape, pols[:1], None, tuple((u, i, al) for i, (u, al) in enumerate(ls)), False)
                types = ['http://ax.example/type/%d' % i for i in range(n)]
                for al in (False, True):
                    for r in (False, True, None):
                        yield ('areq', v, [(t, 1 + i % 3, r if r is not None else i % 2 == 0, 'a%d' % i if al else None) for i, t in enumerate(types)], None, 'form')
                for use in (False, True):
                    yield ('alog', v, [(t, 2, ('v%d' % i,) * (1 + i % 2)) for i, t in enumerate(types)], use, None, False)
                if n:
                    yield ('alog', v, [(T1, n, tuple('v%d' % i for i in range(n)))], True, None, False)
                yield ('asto', v, [(t, ('v%d' % i,) * (i % 3)) for i, t in enumerate(types)], (True,))
            for n in sizes.lengths(q):
                x = sizes.text(n)
                yield ('sval', v, x, FIELDS[n % 9])
                for vals in ((x,), (x, 'q'), ('q', x)):
                    yield ('alog', v, [(T1, ax.UNLIMITED_VALUES, vals)], True, None, False)
                yield ('alog', v, [(T1, 1, ('x',))], True, 'http://rp.example/' + x, False)
                yield ('areq', v, [('urn:' + x, 1, True, None), (T2, 2, False, None)], None, 'form')
                if n:
                    yield ('areq', v, [(T1, 1, True, x), (T2, 2, False, None)], None, 'form')
                yield ('asto', v, [(T1, (x, 'y')), ('urn:' + x, ('z',))], (False, x or None))
                yield ('plog', v, pape, ('urn:' + x, POLS[0]), None, (('urn:l' + x, x or '0', None),), False)
                yield ('preq', v, pape, ('urn:' + x, POLS[0]), None, (('urn:l' + x, None), (LEVELS[0], None)), 'form')
                yield ('preq', v, pape2, ('urn:' + x, POLS[0]), None, (), 'form')
                yield ('plog', v, pape2, ('urn:' + x, POLS[0]), None, None, False)
        # together, and partial signatures
        for v in V:
            for n in range(4):
                for o in itertools.permutations('sap', n):
                    for tw in (False, True):
                        for s in (False, True):
                            yield ('tog', v, o, tw, s)
        for kind, v, aliases in (('sreg', 2, ('sreg', 'z', 'ax')), ('sreg', 1, ('sreg',)), ('sreg', 11, ('sreg',)), ('sreg10', 2, ('sreg', 'q')),
                                 ('ax', 2, ('ax', 'sreg', 'z')), ('pape', 2, ('pape', 'z')), ('ax', 1, ('ax',)), ('pape', 1, ('pape',)), ('pape', 11, ('pape', 'z'))):
            for al in aliases:
                for sgn in range(1 << len(KINDS[kind])):
                    yield ('sig', v, al, kind, sgn)

    ctx.bounds = {'sreg': 'all required/optional assignments of 9 fields; all orders of 3; availability of 3 fields (thorough: 4)',
                  'ax': 'up to 3 attributes, counts 1/2/unlimited, up to 3 values', 'pape': 'up to 3 policies, 2 levels', 'raw arguments': 'see cases()',
                  'versions': [2, '1.1', '1.0']}
    ctx.run(cases, one)
