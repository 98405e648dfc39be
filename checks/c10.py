"""C10: messages and their encodings.

A: breadth-first exploration of message edit sequences in product with a model (content map and alias
   bijection); in every state every read and every encoding is compared with the model.
B: every argument dictionary over a bounded key set, parsed and re-encoded.
C: special values through every encoding.
D: namespace map sequences.
"""
import itertools
from html.parser import HTMLParser
from lib import env, sizes
from openid import message as M
from openid.message import Message, BARE_NS, OPENID_NS, NamespaceMap
from openid import oidutil
from openid.extensions import sreg as _sreg   # registers its OpenID 1 alias
from six.moves.urllib.parse import parse_qsl, urlsplit

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of message edit histories in product with a model, plus exhaustive dictionary round trips'
NOTE = ('All edit sequences to the depth bound, all argument dictionaries over the key set and all special values through each '
        'encoding run on the real Message class; contents read back through independent decoders are compared with a model.')
RULE = ('BFS over edits (distinct model state = state), all subsets of a key set with values; non-trivial = distinct content; '
        'every encoding decoded independently and by the library and compared')
ASSUMPTIONS = ['arguments outside the openid. prefix do not start with "openid."; protocol keys are not "ns" or "ns.*" (those are declarations)',
               'key-value form carries values without line breaks and surrounding white space; HTML carries no control characters']
NS1, NS11, NS2 = M.OPENID1_NS, M.THE_OTHER_OPENID1_NS, M.OPENID2_NS
KNOWN_ALIASES = {'sreg': 'http://openid.net/extensions/sreg/1.1', 'vreg': 'http://verif.example.com/vreg'}
M.registerNamespaceAlias(KNOWN_ALIASES['vreg'], 'vreg')
E1, E2 = 'http://ext.example.com/one', 'http://ext.example.com/two'


class Form(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self)
        self.action = self.method = None
        self.fields = []
        self.submit = 0

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == 'form':
            self.action, self.method, self.enc, self.cs = a.get('action'), a.get('method'), a.get('enctype'), a.get('accept-charset')
        elif tag == 'input':
            if a.get('type') == 'hidden':
                self.fields.append((a['name'], a.get('value')))
            elif a.get('type') == 'submit':
                self.submit += 1
    handle_startendtag = handle_starttag


def post_expected(model):
    """The argument dictionary the specification prescribes for the model."""
    out = {}
    for uri, (alias, implicit) in model['ns'].items():
        if implicit:
            continue
        out['openid.ns' if alias is None else 'openid.ns.' + alias] = uri
    for (ns, k), v in model['args'].items():
        if ns is None:
            out[k] = v
        else:
            alias = model['ns'][ns][0]
            out['openid.' + (k if alias is None else alias + '.' + k)] = v
    return out


def content(msg):
    """(ns or None, key, value) set seen through the public reading interface."""
    out = set()
    uris = list(msg.namespaces.iterNamespaceURIs())
    for uri in uris:
        for k, v in msg.getArgs(uri).items():
            out.add((uri, k, v))
    for k, v in msg.getArgs(BARE_NS).items():
        out.add((None, k, v))
    return out


BASES = ['http://op.example.com/x', 'http://op.example.com/x?a=b', 'http://op.example.com/?', 'http://op.example.com/x?a=b&openid.foo=1#frag', 'http://op.example.com/#frag']


def check_encodings(msg, model, st, key, full=True):
    want = set((ns, k, v) for (ns, k), v in model['args'].items())
    post = post_expected(model)

    def bad(what):
        st.violation(key, what, {'model': repr(model)})
    if msg.toPostArgs() != post:
        return bad('toPostArgs() = %r, expected %r' % (msg.toPostArgs(), post))
    st.transitions += 1
    if content(msg) != want:
        return bad('reads give %r, expected %r' % (content(msg), want))
    back = Message.fromPostArgs(dict(post))
    if content(back) != want or back.getOpenIDNamespace() != model['openid'] or back != msg:
        return bad('parsed back from arguments: %r, expected %r' % (content(back), want))
    q = dict(parse_qsl(msg.toURLEncoded(), keep_blank_values=True, strict_parsing=bool(post)))
    st.transitions += 1
    if q != post:
        return bad('URL-encoded body decodes to %r, expected %r' % (q, post))
    for base in (BASES if full else BASES[1:2]):
        u = msg.toURL(base)
        st.transitions += 1
        b, s = urlsplit(base), urlsplit(u)
        got = parse_qsl(s.query, keep_blank_values=True)
        exp = parse_qsl(b.query, keep_blank_values=True)
        if (s.scheme, s.netloc, s.path, s.fragment) != (b.scheme, b.netloc, b.path, b.fragment) or got[:len(exp)] != exp or \
                dict(got[len(exp):]) != post or len(got) != len(exp) + len(post):
            return bad('URL form on %r is %r' % (base, u))
    bare = any(ns is None for ns, k in model['args'])
    kv_ok = not bare and all('\n' not in v and v == v.strip() for v in post.values())
    if bare:
        for f in (msg.toKVForm, msg.toArgs):
            try:
                f()
                return bad('%s does not refuse arguments outside openid.' % f.__name__)
            except ValueError:
                pass
    elif kv_ok:
        kv = msg.toKVForm()
        st.transitions += 1
        exp = ''.join('%s:%s\n' % (k[7:], v) for k, v in sorted((k, v) for k, v in post.items()))
        if kv != exp:
            return bad('key-value form %r, expected %r' % (kv, exp))
        back = Message.fromKVForm(kv)
        if content(back) != want or back.getOpenIDNamespace() != model['openid']:
            return bad('parsed back from key-value form: %r, expected %r' % (content(back), want))
        if msg.toArgs() != dict((k[7:], v) for k, v in post.items()):
            return bad('toArgs() = %r' % msg.toArgs())
    else:
        try:
            kvt = msg.toKVForm()
            if any('\n' in v for v in post.values()):
                return bad('key-value form with a line break in a value: %r' % kvt)
        except ValueError:
            pass
    if full and not any(ord(c) < 32 and c not in '\t\n\r' for kv in post.items() for v in kv for c in v):
        fp = Form()
        fp.feed(msg.toFormMarkup('http://op.example.com/?a=b&c="<', form_tag_attrs={'id': 'f', 'method': 'get'}))
        st.transitions += 1
        if dict(fp.fields) != post or len(fp.fields) != len(post) or fp.action != 'http://op.example.com/?a=b&c="<' or (fp.method or '').lower() != 'post' \
                or fp.enc != 'application/x-www-form-urlencoded' or (fp.cs or '').upper() != 'UTF-8' or fp.submit != 1:
            return bad('HTML form carries %r to %r by %r' % (fp.fields, fp.action, fp.method))


# ---- A: edits ---------------------------------------------------------
def new_model(ns, implicit):
    return {'openid': ns, 'ns': {ns: (None, implicit)}, 'args': {}}


def clone(m):
    return {'openid': m['openid'], 'ns': dict(m['ns']), 'args': dict(m['args'])}


def fresh_alias(m):
    used = set(a for a, i in m['ns'].values())
    i = 0
    while 'ext%d' % i in used:
        i += 1
    return 'ext%d' % i


def ops(quick):
    out = []
    vals = ['v', 'x y&=+%'] if quick else ['v', 'x y&=+%', '']
    for ns in ('OPENID', 'BARE', E1, E2):
        for k in ('a', 'b'):
            for v in vals:
                if k == 'b' and v != vals[0]:
                    continue
                out.append(('set', ns, k, v))
            out.append(('del', ns, k))
    out.append(('set', E1, 'c.d', 'dotted'))
    out += [('set', 'BARE', 'openidx', 'v'), ('set', 'BARE', 'openid', 'v'), ('set', E1, 'ns', 'v'), ('set', E1, 'mode', 'v'), ('set', E2, 'ns.x', 'v')]
    for uri in (E1, E2):
        for alias in ('al', 'ext0', 'ext1'):
            out.append(('alias', uri, alias))
    out.append(('update', 'OPENID', (('a', 'u'), ('z', 'w'))))
    out.append(('update', E2, (('q', 'u'), ('b', 'w'))))
    out.append(('badalias', E1, 'mode'))
    out.append(('badalias', E1, 'x.y'))
    out.append(('sreg', 'nickname', 'n'))
    return out


def apply_op(op, msg, m):
    """Apply to both; returns an error text or None."""
    def ns_of(n):
        return OPENID_NS if n == 'OPENID' else BARE_NS if n == 'BARE' else n

    def key_of(n):
        return m['openid'] if n == 'OPENID' else None if n == 'BARE' else n

    def need(ns):
        if ns is not None and ns not in m['ns']:
            m['ns'][ns] = (fresh_alias(m), False)
    kind = op[0]
    if kind == 'set':
        msg.setArg(ns_of(op[1]), op[2], op[3])
        need(key_of(op[1]))
        m['args'][(key_of(op[1]), op[2])] = op[3]
    elif kind == 'sreg':
        msg.setArg('sreg', op[1], op[2])     # the deprecated spelling of the sreg namespace
        need(M.SREG_URI)
        m['args'][(M.SREG_URI, op[1])] = op[2]
    elif kind == 'del':
        k = (key_of(op[1]), op[2])
        try:
            msg.delArg(ns_of(op[1]), op[2])
            ok = True
        except KeyError:
            ok = False
        if ok != (k in m['args']):
            return 'delArg %s' % ('succeeded on a missing argument' if ok else 'failed on a present argument')
        m['args'].pop(k, None)
    elif kind == 'update':
        msg.updateArgs(ns_of(op[1]), dict(op[2]))
        need(key_of(op[1]))
        for k, v in op[2]:
            m['args'][(key_of(op[1]), k)] = v
    elif kind == 'alias':
        uri, alias = op[1], op[2]
        cur = m['ns'].get(uri)
        taken = [u for u, (a, i) in m['ns'].items() if a == alias]
        legal = (cur is None or cur[0] == alias) and (not taken or taken == [uri])
        try:
            r = msg.namespaces.addAlias(uri, alias)
            if not legal:
                return 'addAlias(%r, %r) accepted in spite of %r' % (uri, alias, m['ns'])
            if r != alias:
                return 'addAlias returned %r' % (r,)
            m['ns'][uri] = (alias, False)
        except KeyError:
            if legal:
                return 'addAlias(%r, %r) refused although free: %r' % (uri, alias, m['ns'])
    elif kind == 'badalias':
        try:
            msg.namespaces.addAlias(op[1], op[2])
            return 'alias %r accepted' % op[2]
        except (AssertionError, KeyError, ValueError):
            pass
    return None


def check_reads(msg, m):
    for ns, pub in ((m['openid'], OPENID_NS), (None, BARE_NS), (E1, E1), (E2, E2)):
        args = dict((k, v) for (n, k), v in m['args'].items() if n == ns)
        if msg.getArgs(pub) != args:
            return 'getArgs(%s) = %r, expected %r' % (pub, msg.getArgs(pub), args)
        for k in ('a', 'b', 'c.d', 'z', 'q', 'nope', 'openidx', 'mode') + (('ns', 'ns.x') if ns in (E1, E2) else ()):
            if msg.getArg(pub, k) != args.get(k) or msg.getArg(pub, k, 'dflt') != args.get(k, 'dflt') or bool(msg.hasKey(pub, k)) != (k in args):
                return 'getArg(%s, %r) = %r, expected %r' % (pub, k, msg.getArg(pub, k), args.get(k))
            try:
                r = msg.getArg(pub, k, M.no_default)
                if k not in args or r != args[k]:
                    return 'getArg without default gave %r' % (r,)
            except KeyError:
                if k in args:
                    return 'getArg raised for a present argument'
            exp = k if ns is None else None if ns not in m['ns'] else 'openid.' + (k if m['ns'][ns][0] is None else m['ns'][ns][0] + '.' + k)
            if msg.getKey(pub, k) != exp:
                return 'getKey(%s, %r) = %r, expected %r' % (pub, k, msg.getKey(pub, k), exp)
            if exp is not None and ns is not None and msg.getAliasedArg(exp[7:]) != args.get(k):
                return 'getAliasedArg(%r) = %r, expected %r' % (exp[7:], msg.getAliasedArg(exp[7:]), args.get(k))
    for uri in (E1, E2, m['openid']):
        alias = m['ns'].get(uri, (M.NULL_NAMESPACE, 0))[0]
        if uri in m['ns'] and m['ns'][uri][0] is not None:
            if msg.namespaces.getAlias(uri) != alias or msg.namespaces.getNamespaceURI(alias) != uri or msg.getAliasedArg('ns.' + alias) != uri:
                return 'alias of %r is %r, expected %r' % (uri, msg.namespaces.getAlias(uri), alias)
        if (uri in msg.namespaces) != (uri in m['ns']) or bool(msg.namespaces.isDefined(uri)) != (uri in m['ns']):
            return 'definedness of %r' % uri
    items = list(msg.namespaces.items())
    if len(set(a for u, a in items)) != len(items) or len(items) != len(m['ns']):
        return 'namespace map is not one-to-one: %r' % items
    if msg.getOpenIDNamespace() != m['openid'] or msg.getAliasedArg('ns') != m['openid']:
        return 'openid namespace %r' % msg.getOpenIDNamespace()
    if bool(msg.isOpenID1()) != (m['openid'] != NS2) or bool(msg.isOpenID2()) != (m['openid'] == NS2):
        return 'protocol version of %r' % m['openid']
    return None


def explore(case, st):
    """All edit sequences starting with the given first edit."""
    ns, implicit, first, depth, quick = case
    alls = ops(quick)
    msg, m = Message(ns, implicit), new_model(ns, bool(implicit) if implicit is not None else ns != NS2)
    seen = set()

    def step(hist, msg, m, op):
        msg2, m2 = msg.copy(), clone(m)
        key = 'edit:%s:%r:' % (ns, implicit) + repr(hist + [op])
        err = apply_op(op, msg2, m2)
        st.transitions += 1
        if err is None:
            err = check_reads(msg2, m2)
        if err is None:
            err2 = check_reads(msg, m)
            if err2 is not None:
                err = 'a change to a copy changed the original: ' + err2
        if err is not None:
            st.violation(key, err, {'history': repr(hist + [op]), 'ns': ns})
            return None
        st.executions += 1
        sig = (tuple(sorted(m2['ns'].items(), key=repr)), tuple(sorted(m2['args'].items(), key=repr)))
        if sig in seen:
            return None
        seen.add(sig)
        st.state((ns, implicit, sig))
        n = len(st.violations)
        check_encodings(msg2, m2, st, key, full=len(hist) < 3)
        if len(st.violations) > n:
            return None
        return (hist + [op], msg2, m2)

    frontier = []
    r = step([], msg, m, first)
    if r:
        frontier.append(r)
    for d in range(1, depth):
        nxt = []
        for hist, a, b in frontier:
            for op in alls:
                r = step(hist, a, b, op)
                if r:
                    nxt.append(r)
                if len(st.violations) > 20:
                    return
        frontier = nxt
    st.outcome('edits from %s' % first[0])
    st.sample({'first': repr(first), 'states': len(seen)})


# ---- B: dictionaries ---------------------------------------------------
DKEYS = {
    'openid.ns': [None, NS2, NS1, NS11, 'http://bad.example.com/'],
    'openid.mode': [None, 'id_res'],
    'openid.foo.bar': [None, 'x'],
    'openid.sreg.nickname': [None, 'n'],
    'openid.vreg.x': [None, 'vv'],
    'openid.ns.sreg': [None, E1, 'http://openid.net/extensions/sreg/1.1'],
    'openid.ns.foo': [None, E1, E2, NS2, NS1],
    'openid.ns.zz': [None, E2],
    'openid.zz.a.b': [None, ''],
    'plain': [None, 'p q'],
    'plain.dotted': [None, 'd'],
}
DKEYS_T = dict(DKEYS, **{'openid.': [None, 'e'], 'openid': [None, 'o'], 'openid..x': [None, 'd'], 'openid.ns.': [None, E2],
                         'openid.ns.mode': [None, 'http://x.example.com/'], 'openid.ns.a.b': [None, 'http://y.example.com/']})


def dict_model(d):
    """content set, openid namespace; or the name of the documented error."""
    oid = d.get('openid.ns', NS1)
    if oid not in (NS1, NS11, NS2):
        return 'InvalidOpenIDNamespace'
    decl = {}
    for k, v in d.items():
        if k.startswith('openid.ns.'):
            a = k[len('openid.ns.'):]
            if a in M.OPENID_PROTOCOL_FIELDS or '.' in a:
                return 'AssertionError'
            decl[a] = v
    if len(set(decl.values())) != len(decl) or oid in decl.values():
        return 'InvalidNamespace'
    known = KNOWN_ALIASES
    out = set()
    implicit = {}
    for k, v in d.items():
        if not k.startswith('openid.'):
            out.add((None, k, v))
            continue
        rest = k[7:]
        if rest == 'ns' or rest.startswith('ns.'):
            continue
        alias, dot, tail = rest.partition('.')
        if dot and alias in decl:
            out.add((decl[alias], tail, v))
        elif dot and oid != NS2 and alias in known:
            if known[alias] in decl.values() or known[alias] == oid:
                return 'InvalidNamespace'
            out.add((known[alias], tail, v))
        else:
            out.add((oid, rest, v))
    return out, oid


def one_dict(d, st):
    st.executions += 1
    st.transitions += 1
    key = 'dict:%r' % sorted(d.items())
    want = dict_model(d)
    try:
        msg = Message.fromPostArgs(dict(d))
    except (M.InvalidOpenIDNamespace, M.InvalidNamespace, AssertionError) as e:
        msg, name = None, type(e).__name__
    if isinstance(want, str):
        # several problems may be present at once: any documented error is right
        if msg is not None:
            st.violation(key, 'parsed although %s was due: %r' % (want, content(msg)), d)
        st.outcome('refused')
        return
    if msg is None:
        st.violation(key, 'refused with %s, expected %r' % (name, want), d)
        return
    if content(msg) != want[0] or msg.getOpenIDNamespace() != want[1]:
        st.violation(key, 'parsed as %r, expected %r' % (content(msg), want), d)
    if msg.toPostArgs() != d:
        st.violation(key, 're-encoded as %r' % msg.toPostArgs(), d)
    if content(msg.copy()) != want[0] or msg.copy() != msg:
        st.violation(key, 'copy differs', d)
    if not any(not k.startswith('openid.') for k in d):
        kv = dict((k[7:], v) for k, v in d.items())
        m2 = Message.fromOpenIDArgs(dict(kv))
        if content(m2) != want[0] or m2.toArgs() != kv:
            st.violation(key, 'fromOpenIDArgs gives %r' % content(m2), d)
    st.state(sorted(d.items()))
    st.outcome('parsed')


def dicts(keys):
    names = list(keys)
    for combo in itertools.product(*[keys[n] for n in names]):
        yield dict((n, v) for n, v in zip(names, combo) if v is not None)


# ---- C: special values -------------------------------------------------
CH = ['a', ' ', '&', '=', '+', '%', '<', '>', '"', "'", ':', ';', '#', '?', '/', '\n', '\r', '\t', '\u00e9', '\u2028', '\U0001f600', '\x7f', '\x01', '.', ',', '%41', '&amp;', '&#65;']


def one_value(case, st):
    val, where, ns = case
    st.executions += 1
    m = new_model(ns, ns != NS2)
    msg = Message(ns)
    if where == 'openid':
        op = ('set', 'OPENID', 'a', val)
    elif where == 'ext':
        op = ('set', E1, 'a', val)
    elif where == 'bare':
        op = ('set', 'BARE', 'a', val)
    else:   # a key with the text in it
        op = ('set', 'BARE', 'k' + val, 'v')
    apply_op(op, msg, m)
    check_encodings(msg, m, st, 'value:%r:%s:%s' % (val, where, ns))
    st.state(case)
    st.outcome('value in ' + where)


# ---- D: alias map --------------------------------------------------------
def one_map(seq, st):
    nm = NamespaceMap()
    a2n, n2a = {}, {}
    imp = set()
    key = 'map:%r' % (seq,)
    for op in seq:
        st.transitions += 1
        if op[0] == 'add':
            got = nm.add(op[1])
            if op[1] in n2a:
                exp = n2a[op[1]]
            else:
                i = 0
                while 'ext%d' % i in a2n:
                    i += 1
                exp = 'ext%d' % i
                a2n[exp] = op[1]
                n2a[op[1]] = exp
            if got != exp:
                st.violation(key, 'add(%r) = %r, expected %r' % (op[1], got, exp), seq)
                return
        else:
            _, uri, alias, implicit = op
            legal = n2a.get(uri, alias) == alias and a2n.get(alias, uri) == uri
            again = uri in imp
            try:
                nm.addAlias(uri, alias, implicit)
                if not legal:
                    st.violation(key, 'addAlias(%r, %r) broke the one-to-one map %r' % (uri, alias, n2a), seq)
                    return
                a2n[alias] = uri
                n2a[uri] = alias
                if implicit:
                    imp.add(uri)
            except KeyError:
                if legal:
                    st.violation(key, 'addAlias(%r, %r) refused, map %r' % (uri, alias, n2a), seq)
                    return
            except AssertionError:
                if not again:
                    st.violation(key, 'addAlias(%r, %r) failed an assertion, map %r' % (uri, alias, n2a), seq)
                    return
        if dict(nm.items()) != n2a or dict(nm.iteritems()) != n2a or set(nm.iterAliases()) != set(a2n) or set(nm.iterNamespaceURIs()) != set(n2a) or \
                any(nm.getNamespaceURI(a) != u for a, u in a2n.items()) or any(bool(nm.isImplicit(u)) != (u in imp) for u in n2a):
            st.violation(key, 'map is %r, expected %r' % (dict(nm.items()), n2a), seq)
            return
    st.executions += 1
    st.state(('map', tuple(sorted(n2a.items())), tuple(sorted(imp))))
    st.outcome('map')


def one_append(case, st):
    """appendArgs alone: order of sequences, sorting of dictionaries, nothing lost."""
    base, args = case
    st.executions += 1
    st.transitions += 2
    key = 'append:%r' % (case,)
    b = urlsplit(base)
    for a, exp in ((list(args), list(args)), (dict(args), sorted(dict(args).items()))):
        u = oidutil.appendArgs(base, a)
        s = urlsplit(u)
        got = parse_qsl(s.query, keep_blank_values=True)
        if got != parse_qsl(b.query, keep_blank_values=True) + exp or (s.scheme, s.netloc, s.path, s.fragment) != (b.scheme, b.netloc, b.path, b.fragment):
            st.violation(key, 'appendArgs(%r, %r) = %r' % (base, a, u), case)
        if not a and u != base:
            st.violation(key, 'appendArgs with nothing changed the URL: %r' % u, case)
    st.state(case)
    st.outcome('append')


def one_reg(case, st):
    """Global alias registration: one-to-one, idempotent, conflicts refused; OpenID 1 messages use it."""
    n, seq = case
    st.executions += 1
    reg = {}
    for u, a in seq:
        st.transitions += 1
        uri, alias = 'http://reg.example.com/%d/%s' % (n, u), 'r%dx%s' % (n, a)
        legal = reg.get(alias) == uri or (alias not in reg and uri not in reg.values())
        try:
            M.registerNamespaceAlias(uri, alias)
            ok = True
        except M.NamespaceAliasRegistrationError:
            ok = False
        if ok != legal:
            st.violation('reg:%r' % (case,), 'registering %r as %r %s with %r' % (uri, alias, 'accepted' if ok else 'refused', reg), case)
            return
        if legal:
            reg[alias] = uri
    for a in ('a1', 'a2'):
        alias = 'r%dx%s' % (n, a)
        for ns in (None, NS1, NS11, NS2):
            d = {'openid.%s.k' % alias: 'v'}
            if ns:
                d['openid.ns'] = ns
            want = (reg[alias], 'k', 'v') if alias in reg and ns != NS2 else (ns or NS1, alias + '.k', 'v')
            got = content(Message.fromPostArgs(dict(d)))
            if got != set([want]) or Message.fromPostArgs(dict(d)).toPostArgs() != d:
                st.violation('reg:%r' % (case,), '%r parses to %r, expected %r' % (d, got, want), case)
    st.outcome('registration')
    st.state(('reg', seq))


RESERVED = ['ns', 'mode', 'error', 'return_to', 'contact', 'reference', 'signed', 'assoc_type', 'session_type', 'dh_modulus', 'dh_gen', 'dh_consumer_public',
            'claimed_id', 'identity', 'realm', 'invalidate_handle', 'op_endpoint', 'response_nonce', 'sig', 'assoc_handle', 'trust_root', 'openid']


def one_reserved(case, st):
    """A protocol field's name (or a name with a period) never becomes an alias, and a refusal changes nothing."""
    ns, name, before, uri, implicit = case
    key = 'reserved:%r' % (case,)
    st.executions += 1
    st.transitions += 1
    m = Message(ns)
    m.setArg(ns, name, 'protocol value')
    for u, a in before:
        m.namespaces.addAlias(u, a)
        m.setArg(u, 'k', 'v')
    was = m.toPostArgs()
    bad = name in RESERVED or '.' in name
    try:
        m.namespaces.addAlias(uri, name, implicit)
        ok = True
    except (KeyError, AssertionError, ValueError):
        ok = False
    if bad and ok:
        st.violation(key, 'alias %r accepted for %r' % (name, uri), case)
    elif bad:
        if m.toPostArgs() != was:
            st.violation(key, 'refused alias changed the message: %r' % m.toPostArgs(), case)
        d = dict(was)
        d['openid.ns.' + name] = uri
        d['openid.%s.x' % name] = 'y'
        try:
            got = Message.fromPostArgs(d)
        except (KeyError, ValueError, AssertionError):
            got = None
        if got is not None and got.getArg(ns, name) != 'protocol value':
            st.violation(key, 'parsing %r lost the protocol field' % d, case)
        try:
            if got is not None and '.' not in name and got.getArg(uri, 'x') == 'y':
                st.violation(key, 'parsing %r gave the protocol name to %r' % (d, uri), case)
        except KeyError:
            pass
    elif not ok and uri not in [u for u, _ in before]:
        st.violation(key, 'alias %r refused for %r' % (name, uri), case)
    st.state(case)
    st.outcome('reserved alias refused' if not ok else 'alias')


def one_size(case, st):
    """Many arguments, many namespaces, long keys and values through every encoding."""
    kind, n, ns = case
    m, msg = new_model(ns, ns != NS2), Message(ns)
    st.executions += 1
    st.state(case)
    if kind == 'args':
        todo = [('set', w, 'k%d' % i, 'v%d' % i) for i in range(n) for w in ('OPENID', E1)]
    elif kind == 'bare':
        todo = [('set', 'BARE', 'k%d' % i, 'v%d' % i) for i in range(n)]
    elif kind == 'namespaces':
        todo = [('set', 'http://ext.example.com/%d' % i, 'k', 'v%d' % i) for i in range(n)]
    elif kind == 'aliases':
        todo = [x for i in range(n) for x in (('alias', 'http://ext.example.com/%d' % i, 'a%d' % i), ('set', 'http://ext.example.com/%d' % i, 'k', 'v%d' % i))]
    elif kind == 'value':
        todo = [('set', w, 'k', sizes.text(n)) for w in ('OPENID', E1, 'BARE')]
    elif kind == 'key':
        todo = [('set', w, 'k' + sizes.text(n), 'v') for w in ('OPENID', E1, 'BARE')]
    elif kind == 'alias':
        todo = [('alias', E1, 'a' + sizes.text(n)), ('set', E1, 'k', 'v')]
    else:
        todo = [('set', 'http://ext.example.com/' + sizes.text(n), 'k', 'v')]
    for op in todo:
        apply_op(op, msg, m)
        st.transitions += 1
    for op in [x for x in todo if x[0] == 'set'][-3:]:
        if msg.getArg({'OPENID': OPENID_NS, 'BARE': BARE_NS}.get(op[1], op[1]), op[2]) != op[3]:
            st.violation('size:%r' % (case,), 'argument %r lost' % (op[2][:50],), case)
    check_encodings(msg, m, st, 'size:%r' % (case,), full=len(todo) < 200)
    st.outcome('size')


def check(ctx):
    depth = 3 if ctx.quick else 4
    starts = [(NS2, None), (NS1, None), (NS1, False)] if ctx.quick else [(NS2, None), (NS1, None), (NS1, False), (NS11, None), (NS11, False), (NS2, True)]
    # an implicit OpenID 2 namespace cannot be carried on the wire; skip it in the round trips
    starts = [s for s in starts if s != (NS2, True) and s != (NS11, None)]
    ctx.run(lambda: ((ns, i, op, depth, ctx.quick) for ns, i in starts for op in ops(ctx.quick)), explore, key=lambda c: 'edit:%s:%r:[%r' % (c[0], c[1], c[2]))
    ctx.run(lambda: dicts(DKEYS if ctx.quick else DKEYS_T), one_dict, key=lambda d: 'dict:%r' % sorted(d.items()))
    if ctx.quick:
        small = dict((k, v) for k, v in DKEYS_T.items() if k not in ('plain', 'plain.dotted', 'openid.zz.a.b', 'openid.ns.zz'))
        ctx.run(lambda: dicts(small), one_dict, key=lambda d: 'dict:%r' % sorted(d.items()))
    n = 2 if ctx.quick else 3

    def vals():
        for k in range(0, n + 1):
            for t in itertools.product(CH if k < 3 else CH[:18], repeat=k):
                v = ''.join(t)
                for w in ('openid', 'ext', 'bare', 'key'):
                    for ns in (NS2, NS1):
                        yield (v, w, ns)
    ctx.run(vals, one_value, key=lambda c: 'value:%r:%s:%s' % c)
    mops = [('add', E1), ('add', E2), ('add', 'http://three/')] + [('alias', u, a, i) for u in (E1, E2) for a in ('x', 'ext0', 'ext1') for i in (False, True)]
    ctx.run(lambda: (s for k in range(1, (5 if ctx.quick else 6)) for s in itertools.product(mops, repeat=k)), one_map, key=lambda s: 'map:%r' % (s,))
    pairs = [(u, a) for u in ('u1', 'u2') for a in ('a1', 'a2')]
    ctx.run(lambda: enumerate(q for k in range(0, 4) for q in itertools.product(pairs, repeat=k)), one_reg, key=lambda c: 'reg:%r' % (c,))
    names = RESERVED + ['x.y', '.', 'mode.x', '.mode', 'modes', 'Mode', 'delegate', 'server', 'nsx', 'dh', 'sign']
    ctx.run(lambda: ((ns, f, b, u, i) for ns in (NS2, NS1, NS11) for f in names for b in ((), ((E1, 'al'),), ((E1, 'al'), (E2, 'be'))) for u in (E1, E2) for i in (False, True)),
            one_reserved, key=lambda c: 'reserved:%r' % (c,))
    ctx.run(lambda: ((k, n, ns) for k in ('args', 'bare', 'namespaces', 'aliases', 'value', 'key', 'alias', 'uri') for ns in (NS2, NS1)
                     for n in (sizes.counts(True) if k in ('args', 'bare', 'namespaces', 'aliases') else sizes.lengths(ctx.quick))), one_size, key=lambda c: 'size:%r' % (c,))
    prs = [('a', ''), ('b', 'x y'), ('a', '&='), ('\u00e9', '\u00fc#?'), ('', 'v')]
    ctx.run(lambda: ((b, s) for b in BASES for k in range(0, 4) for s in itertools.product(prs, repeat=k)), one_append, key=lambda c: 'append:%r' % (c,))
    ctx.run(lambda: ((b, tuple(('k%03d' % i, 'v%d' % i) for i in range(n))) for b in BASES for n in sizes.counts(ctx.quick)), one_append, key=lambda c: 'append:%r' % (c,))
    ctx.bounds = {'edit_depth': depth, 'edits': len(ops(ctx.quick)), 'dictionary_keys': len(DKEYS if ctx.quick else DKEYS_T), 'value_length': n}
