"""An independent model of URL normalisation: components are given raw and with their meaning."""
UNRES = set(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~')
SUB = set(b"!$&'()*+,;=")
HEX = '0123456789abcdefABCDEF'


class Bad(Exception):
    pass


def pct_bytes(text):
    """Octets denoted by text: percent triplets decoded, everything else UTF-8."""
    out = bytearray()
    i = 0
    while i < len(text):
        c = text[i]
        if c == '%' and i + 2 < len(text) + 0 and i + 2 <= len(text) - 1 and text[i + 1] in HEX and text[i + 2] in HEX:
            out.append(int(text[i + 1:i + 3], 16))
            i += 3
        else:
            out += c.encode('utf-8')
            i += 1
    return bytes(out)


def pct_enc(octets, keep):
    return ''.join(chr(b) if b in keep else '%%%02X' % b for b in octets)


def norm_path(path):
    segs = path.split('/')[1:] if path else []
    segs = [pct_enc(pct_bytes(s), UNRES | SUB) for s in segs]
    out = []
    for n, s in enumerate(segs):
        last = n == len(segs) - 1
        if s == '.':
            if last:
                out.append('')
        elif s == '..':
            if out:
                out.pop()
            if last:
                out.append('')
        else:
            out.append(s)
    return '/' + '/'.join(out)


def form_args(query):
    """Meaning of a query: list of (name, value) octet strings."""
    out = []
    for part in (query or '').split('&'):
        if not part:
            continue
        k, _, v = part.partition('=')
        out.append((pct_bytes(k.replace('+', ' ')), pct_bytes(v.replace('+', ' '))))
    return out


def norm_query(query):
    enc = lambda b: pct_enc(b, UNRES | {0x20}).replace(' ', '+')
    return '&'.join('%s=%s' % (enc(k), enc(v)) for k, v in form_args(query))


def norm_fragment(frag):
    return pct_enc(pct_bytes(frag or ''), UNRES | SUB | set(b':@/?'))


DEFAULT = {'http': 80, 'https': 443}


class U(object):
    """A URL made of raw parts. host is (raw, canonical or None if invalid); port likewise (raw, int/None/'bad')."""
    __slots__ = ('scheme', 'user', 'host', 'port', 'path', 'query', 'frag')

    def __init__(self, scheme, user, host, port, path, query=None, frag=None):
        self.scheme, self.user, self.host, self.port = scheme, user, host, port
        self.path, self.query, self.frag = path, query, frag

    def text(self):
        s = '%s://%s%s%s%s' % (self.scheme, self.user, self.host[0], self.port[0], self.path)
        if self.query is not None:
            s += '?' + self.query
        if self.frag is not None:
            s += '#' + self.frag
        return s

    def canon(self):
        """(scheme, user, host, port or None, path?query#frag) or None when not a valid http(s) URL."""
        sch = self.scheme.lower()
        if sch not in DEFAULT or self.host[1] is None or self.port[1] == 'bad':
            return None
        port = self.port[1]
        if port == DEFAULT[sch]:
            port = None
        p = norm_path(self.path)
        q = norm_query(self.query)
        f = norm_fragment(self.frag)
        return (sch, self.user, self.host[1], port, p + ('?' + q if q else '') + ('#' + f if f else ''))

    def normal(self):
        c = self.canon()
        if c is None:
            return None
        return '%s://%s%s%s%s' % (c[0], c[1], c[2], '' if c[3] is None else ':%d' % c[3], c[4])
