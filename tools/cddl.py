"""Schemas and data: abstract forms, rendering, encoding, sampling, mutation.

Nothing here decides anything: verdicts come from the TLA+ specification,
which reads the texts and documents itself.
"""
import base64
import json
import re
import struct


class M:
    """A map: list of [key, value]."""

    def __init__(self, p):
        self.p = [list(x) for x in p]


class Raw:
    """Bytes put into CBOR as they are."""

    def __init__(self, b):
        self.b = bytes(b)


UNDEF = Raw(b"\xf7")

# ------------------------------------------------------------------ schemas
# types: ('lit', token, value) ('prel', n) ('ref', n, args) ('choice', ts)
#        ('array', g) ('map', g) ('paren', t) ('unwrap', n, args)
#        ('cify', n, args) ('cin', g) ('range', a, b, inc) ('ctl', x, op, arg)
# group: list of alternatives = lists of entries
# entry: dict(occ, key, v) or dict(occ, g); key: None ('bare', n) ('val', lit)
#        ('t1', type, cut)
# rule:  (name, parms, 'type', t) or (name, parms, 'group', entry)


def lit(v, tok=None):
    return ('lit', tok if tok is not None else lit_token(v), v)


def quote(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def float_tok(f):
    t = repr(f)
    if 'inf' in t or 'nan' in t:
        raise ValueError
    if 'e' in t and '.' not in t:
        a, b = t.split('e')
        t = a + '.0e' + b
    return t


def lit_token(v):
    if v is True or v is False:
        return 'true' if v else 'false'
    if v is None:
        return 'nil'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return float_tok(v)
    if isinstance(v, str):
        return quote(v)
    if isinstance(v, bytes):
        return "h'" + v.hex() + "'"
    raise TypeError(v)


def prel(n):
    return ('prel', n)


def ref(n, *args):
    return ('ref', n, list(args))


def ent(v, key=None, occ=None):
    return dict(occ=occ, key=key, v=v)


def gent(g, occ=None):
    return dict(occ=occ, g=g)


GLUE = object()


def name_args(n, args):
    out = [n]
    if args:
        out += [GLUE, '<']
        for i, a in enumerate(args):
            if i:
                out.append(',')
            out += t1_toks(a)
        out.append('>')
    return out


def t2_toks(t):
    k = t[0]
    if k == 'lit':
        return [t[1]]
    if k == 'prel':
        return [t[1]]
    if k == 'ref':
        return name_args(t[1], t[2])
    if k == 'array':
        return ['['] + g_toks(t[1]) + [']']
    if k == 'map':
        return ['{'] + g_toks(t[1]) + ['}']
    if k == 'unwrap':
        return ['~'] + name_args(t[1], t[2])
    if k == 'cify':
        return ['&'] + name_args(t[1], t[2])
    if k == 'cin':
        return ['&', '('] + g_toks(t[1]) + [')']
    if k == 'paren':
        return ['('] + t_toks(t[1]) + [')']
    return ['('] + t_toks(t) + [')']


def t1_toks(t):
    if t[0] == 'range':
        return t2_toks(t[1]) + ['..' if t[3] else '...'] + t2_toks(t[2])
    if t[0] == 'ctl':
        return t2_toks(t[1]) + ['.' + t[2]] + t2_toks(t[3])
    return t2_toks(t)


def t_toks(t):
    if t[0] == 'choice':
        out = []
        for i, x in enumerate(t[1]):
            if i:
                out.append('/')
            out += t1_toks(x)
        return out
    return t1_toks(t)


COMMA = object()          # optional comma


def e_toks(e):
    out = [e['occ']] if e['occ'] else []
    if 'g' in e:
        g = e['g']
        plain = len(g) == 1 and len(g[0]) == 1 and 'v' in g[0][0] \
            and g[0][0]['key'] is None and not g[0][0]['occ']
        return out + ['('] + (g_toks(g)[:-1] + [','] if plain else g_toks(g)) + [')']
    k = e['key']
    if k is None:
        return out + t_toks(e['v'])
    if k[0] == 'bare':
        return out + [k[1], ':'] + t_toks(e['v'])
    if k[0] == 'val':
        return out + [k[1][1], ':'] + t_toks(e['v'])
    return out + t1_toks(k[1]) + (['^'] if k[2] else []) + ['=>'] + t_toks(e['v'])


def g_toks(g):
    out = []
    for i, alt in enumerate(g):
        if i:
            out.append('//')
        for j, e in enumerate(alt):
            if j:
                out.append(COMMA)
            out += e_toks(e)
        if alt:
            out.append(END)
    return out


END = object()            # place for an optional trailing comma


def rule_toks(r):
    name, parms, kind, body = r
    out = [name]
    if parms:
        out += [GLUE, '<']
        for i, p in enumerate(parms):
            if i:
                out.append(',')
            out.append(p)
        out.append('>')
    out.append('=')
    return out + (t_toks(body) if kind == 'type' else e_toks(body))


IDCH = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_@$-.')


def need_gap(a, b):
    x, y = a[-1], b[0]
    if y == '*':
        return x.isdigit() or x in IDCH
    if x == '*':
        return y.isdigit()
    if b in ('..', '...') and a[0] in '-0123456789' and '.' not in a and 'e' not in a:
        return False
    if a in ('..', '...') and b[0] in '-0123456789':
        return False
    if x in IDCH and (y in IDCH or y in '\'"'):
        return True
    return False


class Style:
    """How tokens are put together."""

    def __init__(self, rng=None, wild=0.0, comma=1.0, trail=0.0):
        self.r, self.wild, self.comma, self.trail = rng, wild, comma, trail

    COMMENTS = ["; c\n", ";\n", "; \"'{[(,/\n", ";;x = 1\r\n", "; \u00e9\u4e2d\U0001f600\n"]

    def gap(self):
        r = self.r
        n = r.choice([1, 1, 1, 2, 3])
        return ''.join(r.choice([' ', ' ', '\n', '\t', '\r\n', r.choice(self.COMMENTS)]) for _ in range(n))

    def join(self, toks):
        out, prev, glue = [], None, False
        for t in toks:
            if t is GLUE:
                glue = True
                continue
            if t is COMMA:
                if self.comma >= 1 or self.r.random() < self.comma:
                    t = ','
                else:
                    continue
            if t is END:
                if self.trail and self.r.random() < self.trail:
                    t = ','
                else:
                    continue
            if prev is not None and not glue:
                if self.r is not None and self.wild and self.r.random() < self.wild:
                    out.append(self.gap())
                elif need_gap(prev, t):
                    out.append(' ')
                elif self.r is None:
                    if t not in (',', ')', ']', '}', ':', '>') and prev not in ('(', '[', '{', '~', '&', '<'):
                        out.append(' ')
            elif prev is not None and glue is False:
                pass
            out.append(t)
            prev, glue = t, False
        return ''.join(out)

    def rules(self, rs):
        parts = [self.join(rule_toks(r)) for r in rs]
        if self.r is None or not self.wild:
            return '\n'.join(parts) + '\n'
        s = self.gap() if self.r.random() < .3 else ''
        for i, p in enumerate(parts):
            if i:
                s += self.gap()
            s += p
        if self.r.random() < .5:
            s += self.gap()
        elif self.r.random() < .3:
            s += ' ; last line'
        return s


PLAIN = Style()


def text_of(rs):
    return PLAIN.rules(rs)


# ------------------------------------------------------------------ encoding

def json_reads(text):
    """The double that serde_json (without its float_roundtrip feature) reads for a number."""
    m = re.fullmatch(r'(-?)(\d+)(?:\.(\d+))?(?:[eE]([+-]?\d+))?', text)
    sig, exp, full = 0, 0, False
    for c in m.group(2):
        if full or sig * 10 + int(c) >= 1 << 64:
            full = True
            exp += 1
        else:
            sig = sig * 10 + int(c)
    for c in m.group(3) or '':
        if full or sig * 10 + int(c) >= 1 << 64:
            break
        sig = sig * 10 + int(c)
        exp -= 1
    exp += int(m.group(4) or 0)
    f = float(sig)
    while abs(exp) > 308:
        if f == 0:
            break
        if exp > 0:
            return None
        f /= 1e308
        exp += 308
    else:
        f = f * float('1e%d' % exp) if exp >= 0 else f / float('1e%d' % -exp)
    return -f if m.group(1) else f


def json_exact(text):
    """serde_json reads every number of the document as the nearest double."""
    text = re.sub(r'"(?:[^"\\]|\\.)*"', '""', text, flags=re.S)
    for t in re.findall(r'-?\d+(?:\.\d+)?(?:[eE][+-]?\d+)?', text):
        if json_reads(t) != float(t) and not (abs(float(t)) == float('inf')):
            return False
    return True


def json_able(v):
    if isinstance(v, (bytes, Raw)):
        return False
    if isinstance(v, float):
        return v == v and json_exact(repr(v)) and abs(v) != float('inf') and not (v == 0 and struct.pack('>d', v)[0])
    if isinstance(v, bool) or v is None:
        return True
    if isinstance(v, int):
        return -2**63 <= v < 2**64
    if isinstance(v, str):
        return all(not 0xd800 <= ord(c) < 0xe000 for c in v)
    if isinstance(v, list):
        return all(json_able(x) for x in v)
    return all(isinstance(k, str) and json_able(k) and json_able(x) for k, x in v.p)


def json_str(s, r=None):
    if r is None or r.random() < .8:
        return json.dumps(s, ensure_ascii=False)
    out = '"'
    for c in s:
        x = r.random()
        if x < .4:
            for u in struct.unpack('>%dH' % (len(c.encode('utf-16-be')) // 2), c.encode('utf-16-be')):
                out += '\\u' + (('%04x' if r.random() < .5 else '%04X') % u)
        elif c == '/' and x < .7:
            out += '\\/'
        else:
            out += json.dumps(c, ensure_ascii=False)[1:-1]
    return out + '"'


def to_json(v, r=None, ws=False):
    sp = (lambda: r.choice(['', '', ' ', '\n', '\t', '  '])) if ws else (lambda: '')
    if isinstance(v, str):
        return json_str(v, r)
    if isinstance(v, float):
        t = repr(v)
        if 'e' not in t and '.' not in t:
            t += '.0'
        if r is not None and r.random() < .2 and 'e' in t:
            t = t.replace('e', 'E')
        return t
    if v is None or isinstance(v, (bool, int)):
        return json.dumps(v)
    if isinstance(v, list):
        return '[' + sp() + ','.join(sp() + to_json(x, r, ws) + sp() for x in v) + ']'
    return '{' + sp() + ','.join(sp() + json_str(k, r) + sp() + ':' + sp() + to_json(x, r, ws) + sp()
                                 for k, x in v.p) + '}'


def cbor_head(major, n, r=None):
    forms = []
    if n < 24:
        forms.append(bytes([major << 5 | n]))
    if n < 1 << 8:
        forms.append(bytes([major << 5 | 24, n]))
    if n < 1 << 16:
        forms.append(bytes([major << 5 | 25]) + n.to_bytes(2, 'big'))
    if n < 1 << 32:
        forms.append(bytes([major << 5 | 26]) + n.to_bytes(4, 'big'))
    forms.append(bytes([major << 5 | 27]) + n.to_bytes(8, 'big'))
    return forms[0] if r is None or r.random() < .5 else r.choice(forms)


# Tags that have a meaning, as they are written.
TAGS = [b'\xc0', b'\xc1', b'\xc4', b'\xc5', b'\xd5', b'\xd6', b'\xd7', b'\xd8\x18', b'\xd8\x1e', b'\xd8\x20', b'\xd8\x23', b'\xd8\x25', b'\xd9\x01\x02',
        b'\xd9\xd9\xf7', b'\xc6', b'\xdb\x00\x00\x00\x00\x00\x00\xd9\xf7', b'\xc2', b'\xc3']


def to_cbor(v, r=None):
    if r is not None and r.random() < .004:
        return r.choice(TAGS) + to_cbor(v, r)
    if isinstance(v, Raw):
        return v.b
    if v is None:
        return b'\xf6'
    if v is True:
        return b'\xf5'
    if v is False:
        return b'\xf4'
    if isinstance(v, int):
        return cbor_head(0, v, r) if v >= 0 else cbor_head(1, -1 - v, r)
    if isinstance(v, float):
        forms = [b'\xfb' + struct.pack('>d', v)]
        if v == v:
            try:
                if struct.pack('>d', struct.unpack('>f', struct.pack('>f', v))[0]) == struct.pack('>d', v):
                    forms.append(b'\xfa' + struct.pack('>f', v))
            except OverflowError:
                pass
            try:
                if struct.pack('>d', struct.unpack('>e', struct.pack('>e', v))[0]) == struct.pack('>d', v):
                    forms.append(b'\xf9' + struct.pack('>e', v))
            except (OverflowError, struct.error):
                pass
        return forms[0] if r is None else r.choice(forms)
    if isinstance(v, (str, bytes)):
        major = 3 if isinstance(v, str) else 2
        b = v.encode('utf-8') if isinstance(v, str) else v
        if r is not None and r.random() < .15:
            out = bytes([major << 5 | 31])
            i = 0
            while i < len(v):
                n = r.randint(1, 3)
                p = v[i:i + n]
                out += to_cbor_def(p, r)
                i += n
            return out + b'\xff'
        return cbor_head(major, len(b), r) + b
    if isinstance(v, list):
        body = b''.join(to_cbor(x, r) for x in v)
        if r is not None and r.random() < .25:
            return b'\x9f' + body + b'\xff'
        return cbor_head(4, len(v), r) + body
    body = b''.join(to_cbor(k, r) + to_cbor(x, r) for k, x in v.p)
    if r is not None and r.random() < .25:
        return b'\xbf' + body + b'\xff'
    return cbor_head(5, len(v.p), r) + body


def to_cbor_def(v, r):
    b = v.encode('utf-8') if isinstance(v, str) else v
    return cbor_head(3 if isinstance(v, str) else 2, len(b), r) + b


def doc(v, r=None, form=None):
    """A document holding v; JSON where it can be, unless form says otherwise."""
    if form is None:
        form = 'json' if r is None or r.random() < .5 else 'cbor'
    if form == 'json' and json_able(v):
        return {'json': to_json(v, r, ws=r is not None and r.random() < .3)}
    return {'cbor': list(to_cbor(v, r))}


# ------------------------------------------------------------------ sampling

class Schema:
    def __init__(self, rules):
        self.rules = list(rules)
        self.by = {}
        for r in self.rules:
            self.by[r[0]] = r

    def text(self, style=PLAIN):
        return style.rules(self.rules)


def subst(t, m):
    """Replace parameters in a type."""
    k = t[0]
    if k == 'ref':
        if t[1] in m and not t[2]:
            return m[t[1]]
        if t[1] in m and '!' in m:
            raise RecursionError        # a parameter used with arguments
        return ('ref', t[1], [subst(a, m) for a in t[2]])
    if k in ('unwrap', 'cify'):
        a = m.get(t[1])
        if a is not None and a[0] == 'ref':
            return (k, a[1], a[2])
        return (k, t[1], [subst(x, m) for x in t[2]])
    if k == 'choice':
        return ('choice', [subst(x, m) for x in t[1]])
    if k == 'cin' and '!' in m and any('v' in e and e['key'] is None and strip(e['v'])[0] == 'ref' for e in gentries(t[1])):
        raise RecursionError            # & ( name ): the name has to be that of a group
    if k in ('array', 'map', 'cin'):
        return (k, subst_g(t[1], m))
    if k == 'paren':
        return (k, subst(t[1], m))
    if k in ('range', 'ctl') and '!' in m:
        for x in (t[1], t[2] if k == 'range' else t[3]):
            if x[0] == 'ref' and x[1] in m and (m[x[1]][0] not in ('lit', 'ref') or m[x[1]][0] == 'lit' and m[x[1]][1] in ('nil', 'null', 'true', 'false')) and not (k == 'ctl' and t[2] == 'cbor'):
                raise RecursionError    # a fault of the text in one form, of a value in the other
    if k == 'range':
        return (k, subst(t[1], m), subst(t[2], m), t[3])
    if k == 'ctl':
        return (k, subst(t[1], m), t[2], subst(t[3], m))
    return t


def gentries(g):
    for a in g:
        for e in a:
            if 'g' in e:
                yield from gentries(e['g'])
            else:
                yield e


def subst_g(g, m):
    return [[subst_e(e, m) for e in a] for a in g]


def subst_e(e, m):
    if 'g' in e:
        return dict(occ=e['occ'], g=subst_g(e['g'], m))
    k = e['key']
    if k is not None and k[0] == 't1':
        k = ('t1', subst(k[1], m), k[2])
    return dict(occ=e['occ'], key=k, v=subst(e['v'], m))


def strip(t):
    while t[0] == 'paren':
        t = t[1]
    return t


PREL_KIND = {
    'any': 'any', 'nil': 'nil', 'null': 'nil', 'bool': 'bool', 'true': 'true', 'false': 'false',
    'int': 'int', 'uint': 'uint', 'nint': 'nint', 'float': 'float', 'float16': 'float',
    'float32': 'float', 'float64': 'float', 'float16-32': 'float', 'float32-64': 'float',
    'tstr': 'text', 'text': 'text', 'bstr': 'bytes', 'bytes': 'bytes', 'tdate': 'text', 'uri': 'text',
    'b64url': 'text', 'b64legacy': 'text', 'regexp': 'text', 'mime-message': 'text',
    'biguint': 'bytes', 'bignint': 'bytes', 'encoded-cbor': 'bytes', 'cbor-any': 'any',
    'eb64url': 'any', 'eb64legacy': 'any', 'eb16': 'any',
}


class Pool:
    """Small sets of values, so that schema and data meet often."""

    def __init__(self, r, ints=(0, 1, 2, 3, -1), texts=('a', 'b', 'c', ''), byts=(b'', b'a', b'\x01\x02'),
                 floats=(0.0, 1.0, 1.5, -2.5)):
        self.r, self.ints, self.texts, self.byts, self.floats = r, ints, texts, byts, floats

    def kind(self, k):
        r = self.r
        if k == 'nil':
            return None
        if k == 'bool':
            return r.random() < .5
        if k == 'true':
            return True
        if k == 'false':
            return False
        if k == 'int':
            return r.choice(self.ints)
        if k == 'uint':
            return r.choice([i for i in self.ints if i >= 0] or [0])
        if k == 'nint':
            return r.choice([i for i in self.ints if i < 0] or [-1])
        if k == 'float':
            return r.choice(self.floats)
        if k == 'text':
            return r.choice(self.texts)
        if k == 'bytes':
            return r.choice(self.byts)
        return self.value()

    def scalar(self):
        return self.kind(self.r.choice(['int', 'int', 'int', 'text', 'text', 'float', 'bool', 'nil', 'bytes']))

    def value(self, d=2):
        r = self.r
        x = r.random()
        if d and x < .12:
            return [self.value(d - 1) for _ in range(r.randint(0, 3))]
        if d and x < .24:
            return M([[r.choice(self.texts), self.value(d - 1)] for _ in range(r.randint(0, 3))])
        return self.scalar()


class Sampler:
    def __init__(self, schema, pool, r):
        self.s, self.pool, self.r = schema, pool, r

    def rule(self, name):
        b = self.s.by.get(name)
        if b is None or b[1]:
            return self.pool.value()
        return self.body(b, [], 12)

    def body(self, b, args, d):
        m = dict(zip(b[1], args))
        if b[2] == 'type':
            return self.type(subst(b[3], m), d)
        g = self.entry(subst_e(b[3], m), d)
        return g[0][1] if g else self.pool.value()

    def type(self, t, d=12):
        r, k = self.r, t[0]
        if d <= 0:
            return self.pool.value(0)
        if k == 'lit':
            return t[2]
        if k == 'prel':
            return self.pool.kind(PREL_KIND.get(t[1], 'any'))
        if k == 'ref':
            b = self.s.by.get(t[1])
            return self.pool.value() if b is None else self.body(b, t[2], d - 1)
        if k == 'choice':
            return self.type(r.choice(t[1]), d)
        if k == 'paren':
            return self.type(t[1], d)
        if k == 'array':
            return [v for _, v in self.group(t[1], d - 1)]
        if k == 'map':
            return M([[self.pool.scalar() if kk is None else kk, v] for kk, v in self.group(t[1], d - 1)])
        if k == 'unwrap':
            return self.pool.value()
        if k == 'cify':
            b = self.s.by.get(t[1])
            if b is None or b[2] != 'group':
                return self.pool.value()
            g = self.entry(subst_e(b[3], dict(zip(b[1], t[2]))), d - 1)
            return r.choice(g)[1] if g else self.pool.value()
        if k == 'cin':
            g = self.group(t[1], d - 1)
            return r.choice(g)[1] if g else self.pool.value()
        if k == 'range':
            return self.range(t, d)
        if k == 'ctl':
            return self.ctl(t, d)
        raise ValueError(k)

    def point(self, t, d=8):
        t = strip(t)
        if t[0] == 'lit':
            return t[2]
        if t[0] == 'ref' and d:
            b = self.s.by.get(t[1])
            if b is not None and b[2] == 'type':
                return self.point(subst(b[3], dict(zip(b[1], t[2]))), d - 1)
        return None

    def limits(self, t, d=8):
        """numbers near the limits of an operator's argument"""
        t = strip(t)
        if t[0] == 'range':
            return [x for x in (self.point(t[1]), self.point(t[2])) if x is not None]
        if t[0] == 'ref' and d:
            b = self.s.by.get(t[1])
            if b is not None and b[2] == 'type':
                return self.limits(subst(b[3], dict(zip(b[1], t[2]))), d - 1)
        p = self.point(t)
        return [] if p is None else [p]

    def range(self, t, d):
        ps = [p for p in self.limits(t) if isinstance(p, (int, float)) and not isinstance(p, bool)]
        if not ps:
            return self.pool.value()
        p = self.r.choice(ps)
        if isinstance(p, float):
            return near_float(p, self.r)
        v = p + self.r.choice([0, 0, 0, 1, -1, 2])
        if len(ps) == 2 and all(isinstance(x, int) for x in ps) and ps[0] < ps[1] and self.r.random() < .4:
            v = self.r.randint(ps[0], ps[1])
        return clamp(v)

    def ctl(self, t, d):
        _, x, op, arg = t
        r = self.r
        if op == 'cbor':
            try:
                return to_cbor(self.type(arg, d - 1), r if r.random() < .5 else None)
            except Exception:
                return b'\x00'
        if op == 'regexp':
            return sample_regex(arg, r)
        ls = [p for p in self.limits(arg) if isinstance(p, int) and not isinstance(p, bool)]
        if not ls:
            return self.pool.value()
        n = r.choice(ls)
        if op == 'size':
            kind = self.kind_of(x)
            if kind == 'text':
                return sized_text(max(0, min(40, n + r.choice([0, 0, 0, 1, -1]))), r)
            if kind == 'bytes':
                k = max(0, min(60, n + r.choice([0, 0, 0, 1, -1])))
                return bytes(r.randrange(256) for _ in range(k))
            e = max(0, min(9, n + r.choice([0, 0, 0, -1])))
            return clamp(256 ** e + r.choice([0, -1, -1, 1]))
        return clamp(n + r.choice([0, 0, 1, -1, 2, -2]))

    def kind_of(self, t, d=8):
        t = strip(t)
        if t[0] == 'prel':
            return PREL_KIND.get(t[1])
        if t[0] == 'ref' and d:
            b = self.s.by.get(t[1])
            if b is not None and b[2] == 'type':
                return self.kind_of(subst(b[3], dict(zip(b[1], t[2]))), d - 1)
        return None

    def count(self, occ):
        r = self.r
        if occ is None:
            return 1
        if occ == '?':
            return r.choice([0, 1])
        if occ == '*':
            return r.choice([0, 0, 1, 1, 2, 3])
        if occ == '+':
            return r.choice([1, 1, 2, 3])
        lo, hi = occ.split('*')
        lo = int(lo, 0) if lo else 0
        hi = int(hi, 0) if hi else lo + 3
        c = r.choice([lo, lo, hi, lo + 1, hi + 1, lo - 1, (lo + hi) // 2])
        return max(0, min(8, c))

    def group(self, g, d):
        out = []
        for e in self.r.choice(g) if g else []:
            out += self.entry(e, d)
        return out

    def entry(self, e, d):
        out = []
        for _ in range(self.count(e['occ'])):
            out += self.entry1(e, d)
            if len(out) > 12:
                break
        return out

    def entry1(self, e, d):
        if d <= 0:
            return []
        if 'g' in e:
            return self.group(e['g'], d - 1)
        k, v = e['key'], e['v']
        if k is None:
            s = strip(v)
            if s[0] == 'choice':
                s = strip(self.r.choice(s[1]))
            if s[0] == 'ref':
                b = self.s.by.get(s[1])
                if b is not None:
                    m = dict(zip(b[1], s[2]))
                    if b[2] == 'group':
                        return self.entry(subst_e(b[3], m), d - 1)
                    return self.entry1(ent(subst(b[3], m)), d - 1)
            if s[0] == 'unwrap':
                return self.unwrapped(s, d - 1)
            return [[None, self.type(s, d)]]
        if k[0] == 'bare':
            kk = k[1]
        elif k[0] == 'val':
            kk = k[1][2]
        else:
            kk = self.type(k[1], d)
        return [[kk, self.type(v, d)]]

    def unwrapped(self, s, d):
        if d <= 0:
            return []
        b = self.s.by.get(s[1])
        if b is None or b[2] != 'type':
            return []
        c = strip(subst(b[3], dict(zip(b[1], s[2]))))
        if c[0] in ('array', 'map'):
            return self.group(c[1], d - 1)
        if c[0] == 'ref':
            return self.unwrapped(c, d - 1)
        return []


def clamp(v):
    return max(-2**64, min(2**64 - 1, v))


def near_float(f, r):
    b = struct.unpack('>Q', struct.pack('>d', f))[0]
    c = r.choice([0, 0, 0, 1, -1])
    b = max(0, min(2**64 - 1, b + c))
    g = struct.unpack('>d', struct.pack('>Q', b))[0]
    return f if g != g else g


def sized_text(n, r):
    """n bytes of UTF-8"""
    out = ''
    while n > 0:
        c = r.choice(['a', 'b', 'Z', '\u00e9', '\u4e2d', '\U0001f600'])
        k = len(c.encode())
        if k > n:
            c, k = 'x', 1
        out += c
        n -= k
    return out


def sample_regex(arg, r):
    s = strip(arg)
    src = s[2] if s[0] == 'lit' and isinstance(s[2], str) else 'ab'
    # rough: characters of the pattern, some of them dropped or repeated
    out = ''
    i = 0
    while i < len(src):
        c = src[i]
        if c == '\\' and i + 1 < len(src):
            i += 1
            c = {'d': r.choice('0159'), 'w': r.choice('aZ_9'), 's': ' ', 'D': 'x', 'n': '\n', 't': '\t'}.get(src[i], src[i])
            out += c
        elif c in '^$()?:|':
            pass
        elif c == '*':
            out += out[-1:] * r.randint(0, 2)
        elif c == '+':
            out += out[-1:] * r.randint(0, 2)
        elif c == '{':
            j = src.find('}', i)
            n = r.randint(0, 3)
            out += out[-1:] * n
            i = j if j > 0 else i
        elif c == '[':
            j = src.find(']', i)
            body = src[i + 1:j].lstrip('^').replace('-', '')
            out += r.choice(body or 'a')
            i = j if j > 0 else i
        elif c == '.':
            out += r.choice('abz1')
        else:
            out += c
        i += 1
    x = r.random()
    if x < .2:
        out = r.choice('ab1 ') + out
    elif x < .4:
        out += r.choice('ab1 \n')
    elif x < .5 and out:
        i = r.randrange(len(out))
        out = out[:i] + out[i + 1:]
    elif x < .6:
        out = ''.join(r.choice('ab1z') for _ in range(r.randint(0, 4)))
    return out


# ------------------------------------------------------------------ mutation

def mutate(v, pool, r):
    """One small change somewhere in v."""
    if isinstance(v, list):
        x = r.random()
        if v and x < .45:
            i = r.randrange(len(v))
            w = list(v)
            w[i] = mutate(w[i], pool, r)
            return w
        w = list(v)
        if x < .6 or not w:
            w.insert(r.randint(0, len(w)), r.choice(w) if w and r.random() < .5 else pool.value(1))
        elif x < .75:
            del w[r.randrange(len(w))]
        elif x < .85 and len(w) > 1:
            i = r.randrange(len(w) - 1)
            w[i], w[i + 1] = w[i + 1], w[i]
        elif x < .92:
            w = w + w[-1:]
        else:
            return pool.value(1)
        return w
    if isinstance(v, M):
        w = M(v.p)
        x = r.random()
        if w.p and x < .4:
            i = r.randrange(len(w.p))
            w.p[i][1] = mutate(w.p[i][1], pool, r)
        elif w.p and x < .5:
            i = r.randrange(len(w.p))
            w.p[i][0] = mutate(w.p[i][0], pool, r)
        elif x < .7 or not w.p:
            w.p.append([pool.scalar() if r.random() < .5 else pool.kind('text'), pool.value(1)])
        elif x < .9:
            del w.p[r.randrange(len(w.p))]
        elif len(w.p) > 1:
            r.shuffle(w.p)
        else:
            return pool.value(1)
        keys = set()
        w.p = [p for p in w.p if not (repr_key(p[0]) in keys or keys.add(repr_key(p[0])))]
        return w
    x = r.random()
    if isinstance(v, bool) or v is None:
        return pool.scalar()
    if isinstance(v, int):
        if x < .3:
            return clamp(v + r.choice([1, -1]))
        if x < .45 and abs(v) < 2**53:
            return float(v)
        if x < .55:
            return str(v)
    if isinstance(v, float) and x < .5:
        if v == v and abs(v) < 2**53 and v == int(v):
            return int(v)
        return near_float(v, r)
    if isinstance(v, str):
        if x < .2:
            return v + r.choice(['a', 'b', '\u00e9'])
        if x < .3 and v:
            return v[:-1]
        if x < .4:
            return v.encode('utf-8')
        if x < .45:
            return v.upper() if v != v.upper() else v.lower()
    if isinstance(v, bytes):
        if x < .2:
            return v + bytes([r.randrange(256)])
        if x < .3 and v:
            return v[:-1]
        if x < .4:
            try:
                return v.decode('utf-8')
            except UnicodeDecodeError:
                pass
    if isinstance(v, Raw):
        return v
    if x < .6:
        return pool.value(1)
    if x < .75:
        return [v]
    return pool.scalar()


def repr_key(k):
    return to_cbor(k)
