"""Trees made by callers: validation trees, syntax trees, and data."""
import json
import math
import struct

from cddl import M, Pool, Raw, TAGS, doc, mutate, to_cbor

MANY = 1000000000


def mag(n):
    return list(abs(n).to_bytes((abs(n).bit_length() + 7) // 8, 'big'))


def value(v):
    if isinstance(v, bool):
        return {'t': 'bool', 'v': v}
    if isinstance(v, int):
        return {'t': 'int', 'neg': v < 0, 'mag': mag(v)}
    if isinstance(v, float):
        return {'t': 'float', 'b': list(struct.pack('>d', v))}
    if isinstance(v, bytes):
        return {'t': 'bytes', 'b': list(v)}
    return {'t': 'text', 'c': [ord(c) for c in v]}


# ---------------------------------------------------------------- validation trees

PRELS = ['any', 'nil', 'bool', 'int', 'uint', 'nint', 'float', 'tstr', 'bstr']
RES = ['^a', 'b$', '[ab]+', 'a|b', '']


class Trees:
    """Random rules; half of the time what is put somewhere has a meaning there"""

    def __init__(self, r):
        self.r = r
        self.pool = Pool(r, ints=(0, 1, 2, 3, -1, 256), texts=('a', 'b', 'c', ''))
        self.names = ['r%d' % i for i in range(r.randint(1, 5))]
        self.parms = {n: r.choice([[], [], [], ['x'], ['x', 'y']]) for n in self.names}
        self.scope = []
        self.rules = {}

    def lit(self):
        v = self.pool.scalar()
        while v is None:
            v = self.pool.scalar()
        return {'k': 'lit', 'v': value(v)}

    def ref(self, k, d):
        r = self.r
        if self.scope and r.random() < .4:
            return {'k': k, 'n': r.choice(self.scope), 'args': []}
        n = r.choice(self.names) if r.random() < .96 else 'nowhere'
        args = [self.node(d - 1) for _ in self.parms.get(n, [])]
        if r.random() < .03:
            args = args[1:] if args else [self.node(d - 1)]
        return {'k': k, 'n': n, 'args': args}

    def occ(self, x):
        r = self.r
        lo, hi = r.choice([(0, 1), (0, MANY), (1, MANY), (0, 1), (0, MANY), (1, 2), (2, 2), (0, 0), (2, 1), (2, MANY), (0, 3)])
        return {'k': 'occ', 'lo': lo, 'hi': hi, 'num': r.random() < .3, 'x': x}

    def kv(self, d):
        r = self.r
        key = self.lit() if r.random() < .5 else self.node(min(d - 1, 1))
        return {'k': 'kv', 'key': key, 'val': self.node(d - 1), 'cut': r.random() < .4}

    def members(self, d, mapped):
        return [self.member(d - 1, mapped) for _ in range(self.r.choice([0, 1, 1, 2, 2, 3]))]

    def member(self, d, mapped):
        """a part of an array, map or group"""
        r = self.r
        if r.random() < .08:
            return self.node(d)
        k = r.random()
        if k < .35 or d < 1:
            return self.kv(d) if mapped else self.node(d - 1)
        if k < .6:
            return self.occ(self.member(d - 1, mapped))
        if k < .72:
            return {'k': 'choice', 'o': [self.member(d - 1, mapped) for _ in range(r.choice([0, 1, 2, 2, 3]))]}
        if k < .84:
            return {'k': 'group', 'm': self.members(d - 1, mapped)}
        if k < .92:
            return self.ref('unwrap' if r.random() < .5 else 'rule', d)
        return {'k': 'cin', 'm': self.members(d - 1, mapped)} if r.random() < .5 else self.ref('cify', d)

    def node(self, d):
        r = self.r
        x = r.random()
        if d < 1 or x < .3:
            return self.lit() if r.random() < .4 else {'k': 'prel', 'p': r.choice(PRELS)}
        if x < .42:
            return self.ref('rule', d)
        if x < .52:
            return {'k': 'choice', 'o': [self.node(d - 1) for _ in range(r.choice([0, 1, 2, 2, 3]))]}
        if x < .62:
            return {'k': 'array', 'm': self.members(d, False)}
        if x < .74:
            return {'k': 'map', 'm': self.members(d, True)}
        if x < .79:
            return {'k': 'group', 'm': self.members(d, r.random() < .5)}
        if x < .82:
            return {'k': 'cin', 'm': self.members(d, r.random() < .5)}
        if x < .85:
            return self.ref('cify', d)
        if x < .865:
            return self.ref('unwrap', d)
        if x < .88:
            return self.kv(d)
        if x < .89:
            return self.occ(self.node(d - 1))
        if x < .93:
            y = [self.lit() if r.random() < .8 else self.node(d - 1) for _ in 'ab']
            return {'k': 'range', 's': y[0], 'e': y[1], 'inc': r.random() < .5}
        if x < .975:
            target = {'k': 'prel', 'p': r.choice(['int', 'uint', 'nint', 'tstr', 'bstr'])} if r.random() < .8 else self.node(d - 1)
            arg = {'k': 'lit', 'v': value(r.choice([0, 1, 2, 3, -1]))} if r.random() < .7 else self.node(d - 1)
            return {'k': 'ctl', 'op': r.choice(['size', 'lt', 'le', 'gt', 'ge']), 'x': target, 'arg': arg}
        if x < .99:
            return {'k': 're', 'p': [ord(c) for c in r.choice(RES)]}
        return {'k': 'cbor', 'x': {'k': 'rule', 'n': r.choice(self.names), 'args': []}}

    def table(self):
        r = self.r
        out = []
        for i, n in enumerate(self.names):
            self.scope = self.parms[n]
            k = r.random()
            d = r.randint(1, 4)
            node = self.node(d) if k < .5 else {'k': 'group', 'm': self.members(d, r.random() < .5)} if k < .7 else \
                self.member(d, r.random() < .5)
            out.append({'name': n, 'parms': self.parms[n], 'node': node})
        self.scope = []
        k = r.random()
        d = r.randint(2, 5)
        top = {'k': 'map', 'm': self.members(d, True)} if k < .4 else {'k': 'array', 'm': self.members(d, False)} if k < .8 else self.node(d)
        out.append({'name': 'top', 'parms': [], 'node': top})
        self.rules = {x['name']: x for x in out}
        return out

    # something like what a node takes
    def sample(self, n, d=8):
        r = self.r
        k = n['k']
        if d < 0:
            return self.pool.scalar()
        if k == 'lit':
            return unvalue(n['v'])
        if k == 'prel':
            return self.pool.kind({'tstr': 'text', 'bstr': 'bytes', 'any': 'any'}.get(n['p'], n['p']))
        if k == 'choice':
            return self.sample(r.choice(n['o']), d - 1) if n['o'] else None
        if k == 'array':
            return self.elems(n['m'], d)[:12]
        if k == 'map':
            return M(self.pairs(n['m'], d)[:12])
        if k in ('group', 'cin'):
            return self.sample(r.choice(n['m']), d - 1) if n['m'] else None
        if k in ('rule', 'unwrap', 'cify'):
            return self.sample(self.rules[n['n']]['node'], d - 1) if n['n'] in self.rules else \
                self.sample(r.choice(n['args']), d - 1) if n['args'] else self.pool.scalar()
        if k == 'kv':
            return self.sample(n['val'], d - 1)
        if k == 'occ':
            return self.sample(n['x'], d - 1)
        if k == 'range':
            return self.sample(r.choice([n['s'], n['e']]), d - 1)
        if k == 'ctl':
            return self.sample(r.choice([n['x'], n['arg']]), d - 1)
        if k == 're':
            return r.choice(['a', 'b', 'ab', '', 'c'])
        return to_cbor(self.sample(n['x'], d - 1), r)

    def count(self, n):
        return max(0, min(n['lo'] + self.r.choice([0, 0, 1, 1, 2]), n['hi'], 4) + self.r.choice([0] * 8 + [1, -1]))

    def elems(self, ns, d):
        r = self.r
        out = []
        for n in ns:
            k = n['k']
            if d < 0 or len(out) > 12:
                break
            if k == 'occ':
                for _ in range(self.count(n)):
                    out += self.elems([n['x']], d - 1)
            elif k == 'choice' and n['o']:
                out += self.elems([r.choice(n['o'])], d - 1)
            elif k == 'group':
                out += self.elems(n['m'], d - 1)
            elif k in ('rule', 'unwrap') and n['n'] in self.rules:
                m = self.rules[n['n']]['node']
                out += self.elems(m['m'] if k == 'unwrap' and m['k'] in ('array', 'map') else [m], d - 1)
            else:
                out.append(self.sample(n, d - 1))
        return out

    def pairs(self, ns, d):
        r = self.r
        out = []
        for n in ns:
            k = n['k']
            if d < 0 or len(out) > 12:
                break
            if k == 'occ':
                for _ in range(self.count(n)):
                    out += self.pairs([n['x']], d - 1)
            elif k == 'choice' and n['o']:
                out += self.pairs([r.choice(n['o'])], d - 1)
            elif k == 'group':
                out += self.pairs(n['m'], d - 1)
            elif k == 'cin' and n['m']:
                m = r.choice(n['m'])
                out += self.pairs([m['val'] if m['k'] == 'kv' else m], d - 1)
            elif k in ('rule', 'unwrap', 'cify') and n['n'] in self.rules:
                m = self.rules[n['n']]['node']
                out += self.pairs(m['m'] if k == 'unwrap' and m['k'] in ('array', 'map') else [m], d - 1)
            elif k == 'kv':
                out.append([self.sample(n['key'], d - 1), self.sample(n['val'], d - 1)])
        return out


def unvalue(v):
    if v['t'] == 'bool':
        return v['v']
    if v['t'] == 'int':
        n = int.from_bytes(bytes(v['mag']), 'big')
        return -n if v['neg'] else n
    if v['t'] == 'float':
        return struct.unpack('>d', bytes(v['b']))[0]
    if v['t'] == 'bytes':
        return bytes(v['b'])
    return ''.join(map(chr, v['c']))


def hands(case, r):
    """rules made by hand, and documents"""
    t = Trees(r)
    rules = t.table()
    ds = []
    for k in range(r.randint(3, 8)):
        v = t.sample(t.rules['top']['node'])
        while r.random() < .5:
            v = mutate(v, t.pool, r)
        ds.append(case.doc(doc(v, r)))
    return case.add('hand', rules=rules, rule=r.choice(['top'] * 30 + ['nowhere', t.names[0]]), ds=ds)


def spots(n, at=()):
    """where a node has nodes"""
    yield at
    for k in ('key', 'val', 'x', 's', 'e', 'arg'):
        if isinstance(n.get(k), dict) and n['k'] != 'cbor':
            yield from spots(n[k], at + (k,))
    for k in ('o', 'm', 'args'):
        for i, x in enumerate(n.get(k, ())):
            yield from spots(x, at + (k, i))


def changed(n, t):
    """a copy that differs in one thing, or not at all"""
    r = t.r
    n = json.loads(json.dumps(n))
    at = r.choice(list(spots(n)))
    p = q = n
    for k in at:
        p, q = q, q[k]
    x = r.random()
    lists = [k for k in ('o', 'm', 'args') if k in q]
    if q['k'] == 'kv' and x < .4:
        q['cut'] = not q['cut']
    elif q['k'] == 'range' and x < .4:
        q['inc'] = not q['inc']
    elif q['k'] == 'occ' and x < .6:
        q.update(json.loads(json.dumps({k: v for k, v in t.occ(q['x']).items() if k != 'x'})))
    elif q['k'] in ('rule', 'unwrap', 'cify') and x < .3:
        q['n'] = r.choice([q['n'] + 'x', q['n'].upper(), 'r0'])
    elif q['k'] in ('rule', 'unwrap', 'cify') and x < .5:
        q['k'] = r.choice(['rule', 'unwrap', 'cify'])
    elif q['k'] in ('map', 'array', 'group', 'cin') and x < .3:
        q['k'] = r.choice(['map', 'array', 'group', 'cin'])
    elif lists and x < .7:
        b = q[lists[0]]
        if b and r.random() < .5:
            b.pop(r.randrange(len(b)))
        elif b and r.random() < .5:
            b.append(b.pop(0))
        else:
            b.insert(r.randint(0, len(b)), t.node(1))
    elif q['k'] == 're' and x < .8:
        s = q['p']
        s[:] = r.choice([s + [97], [65 if c == 97 else c for c in s], [98 if c == 97 else c for c in s], s[:0], [ord(c) for c in r.choice(['\\w', '\\W', 'a b', 'ab', ' ab', '(a)b', '[ab]', 'AB'])]])
    elif q['k'] == 'lit' and q['v']['t'] in ('text', 'bytes') and x < .5:
        s = q['v']['c' if q['v']['t'] == 'text' else 'b']
        i = r.randint(0, len(s))
        s[i:i + r.choice([0, 0, 1])] = [r.choice([0, 32, 65, 97, 98] + s)] * r.choice([0, 1, 1])
        if s and r.random() < .2:
            s[-1] ^= 32 if 64 < s[-1] < 123 else 0
    elif q['k'] == 'ctl' and x < .5:
        q['op'] = r.choice(['size', 'lt', 'le', 'gt', 'ge'])
    elif at and x < .9:
        p[at[-1]] = t.node(1)
    return n


def nodes(case, r):
    """single nodes next to one another"""
    t = Trees(r)
    t.table()
    for _ in range(r.randint(2, 6)):
        n = t.node(r.randint(0, 3))
        x = r.random()
        if x < .2:
            n = {'k': 'kv', 'key': t.lit() if r.random() < .7 else n, 'val': n, 'cut': r.random() < .5}
        elif x < .4:
            n = {'k': 'range', 's': t.lit() if r.random() < .8 else n, 'e': t.lit() if r.random() < .8 else n, 'inc': r.random() < .5}
        elif x < .55:
            n = {'k': 'lit', 'v': value(r.choice([r.randint(-2**126, 2**126), r.randint(-2**65, 2**65), r.choice([1, -1]) * (10 ** r.randint(0, 37) + r.choice([-1, 0, 1])),
                                                  struct.unpack('>d', bytes(r.randrange(256) for _ in range(8)))[0], round(r.uniform(-1000, 1000), r.randint(0, 6)), float(r.randint(-9, 9)),
                                                  10.0 ** r.randint(-320, 308)]))}
            if n['v']['t'] == 'float' and math.isnan(struct.unpack('>d', bytes(n['v']['b']))[0]):
                n['v']['b'] = [127, 248, 0, 0, 0, 0, 0, 0]
        elif x < .7:
            n = dict(t.occ(n), num=True, lo=r.choice([0, 1, 2, 10, 255, 99999, MANY]), hi=r.choice([0, 1, 2, 255, 256, 999999999, MANY]))
        m = n
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            m = changed(m, t)
        case.add('node', n=n, m=m)
    return case


# ---------------------------------------------------------------- syntax trees

WORDS = ['int', 'tstr', 'uint', 'bstr', 'bytes', 'text', 'any', 'nil', 'null', 'true', 'false', 'bool', 'float', 'float16', 'float32-64', 'nint',
         'tdate', 'uri', 'mime-message', 'eb64url', 'cbor-any', 'biguint', 'encoded-cbor', 'r', 's', 'r', 's', 'a-b', '$x', 'rec']
BADWORDS = ['time', 'integer', 'number', 'unsigned', 'bigint', 'decfrac', 'bigfloat', 'undefined']
OTHERS = ['', 'not a name', 'Int', '1', 'int ', '\u00e9', 'r.s']


class Syntax:
    def __init__(self, r, clean):
        self.r, self.clean = r, clean

    def word(self):
        r = self.r
        return r.choice(WORDS) if self.clean or r.random() < .95 else r.choice(BADWORDS) if r.random() < .5 else r.choice(OTHERS)

    def val(self):
        r = self.r
        v = r.choice([0, 1, -1, 255, 2**63 - 1, 2**64 - 1, -2**63, 1.5, -0.0, float('inf'), float('nan'), 5e-324, '', 'a', '\u00e9', '^a', 'a(', '\U0001f600', b'', b'\x00\xff',
                      r.randint(-2**63, 2**64 - 1), r.randint(-9, 9)])
        x = {'v': value(v)}
        if isinstance(v, int) and v < 2**63 and r.random() < .3:
            x['nint'] = True
        return x

    def name(self, k, d):
        r = self.r
        n = self.word()
        p = .04 if not self.clean else 0
        plain = n in ('r', 's', 'a-b', '$x', 'rec')
        if k != 'name' and self.clean and not plain:
            n = 'r'
            plain = True
        return {'k': k, 'n': n, 'args': [self.type1(d - 1) for _ in range(r.choice([0, 0, 1, 2]))] if plain or r.random() < p else []}

    def type2(self, d):
        r = self.r
        x = r.random()
        if d < 1 or x < .45:
            return dict(self.val(), k='val') if r.random() < .4 else self.name('name', d if d > 0 else 0)
        if x < .58:
            return {'k': 'paren', 't': self.type(d - 1)}
        if x < .7:
            return {'k': 'map', 'g': self.group(d - 1)}
        if x < .82:
            return {'k': 'array', 'g': self.group(d - 1)}
        if x < .88:
            return self.name('unwrap', d)
        if x < .94:
            return self.name('cify', d)
        return {'k': 'cin', 'g': self.group(d - 1)}

    def type1(self, d):
        r = self.r
        x = r.random()
        if d < 1 or x < .75:
            return {'k': 'simple', 'x': self.type2(d)}
        if x < .87:
            pt = lambda: dict(self.val(), k='val') if self.clean or r.random() < .7 else self.type2(d - 1)      # noqa: E731
            return {'k': 'range', 's': pt(), 'e': pt(), 'inc': r.random() < .5}
        op = r.choice(['size', 'lt', 'le', 'gt', 'ge', 'regexp', 'cbor'])
        if op == 'regexp':
            t, a = {'k': 'name', 'n': r.choice(['tstr', 'text', 'uri']), 'args': []}, {'k': 'val', 'v': value(r.choice(RES))}
        elif op == 'cbor':
            t, a = {'k': 'name', 'n': r.choice(['bstr', 'bytes', 'biguint']), 'args': []}, self.type2(d - 1)
        else:
            t, a = self.type2(d - 1), {'k': 'val', 'v': value(r.randint(-3, 300))}
            if r.random() < .3:
                a = {'k': 'name', 'n': 'r', 'args': []}
        if not self.clean and r.random() < .15:
            t = self.type2(d - 1)
        if not self.clean and r.random() < .15:
            a = self.type2(d - 1)
        if not self.clean and r.random() < .06:
            op = r.choice(['', 'SIZE', 'default', 'eq', 'ne', 'bits', 'size '])
        return {'k': 'ctl', 'x': t, 'arg': a, 'op': op}

    def type(self, d):
        r = self.r
        n = r.choice([1, 1, 1, 2, 2, 3])
        if not self.clean and r.random() < .03:
            n = 0
        return [self.type1(d) for _ in range(n)]

    def group(self, d):
        r = self.r
        return [[self.entry(d) for _ in range(r.choice([0, 1, 1, 2, 3]))] for _ in range(r.choice([0, 1, 1, 1, 1, 2, 3]))]

    def occur(self):
        r = self.r
        m = lambda: mag(r.choice([0, 1, 2, 10, 255, 256, 70000]))     # noqa: E731
        return r.choice([{'k': 'one'}] * 4 + [{'k': 'opt'}, {'k': 'star'}, {'k': 'plus'}, {'k': 'num', 'lo': m(), 'hi': m()}, {'k': 'num', 'lo': m(), 'hi': [-1]}])

    def entry(self, d):
        r = self.r
        x = r.random()
        e = {'occ': self.occur()}
        if x < .15:
            return dict(e, k='name', n=self.word())
        if x < .3 and d > 0:
            return dict(e, k='paren', g=self.group(d - 1))
        k = r.random()
        cut = r.random() < .5
        key = {'k': 'none'} if k < .4 else {'k': 'bare', 'c': [ord(c) for c in r.choice(['a', 'b', 'name', '', 'x y'])], 'cut': cut} if k < .65 else \
            dict(self.val(), k='val', cut=cut) if k < .8 else {'k': 't1', 'x': self.type1(d - 1), 'cut': cut}
        return dict(e, k='member', key=key, v=self.type(d - 1))

    def rule(self):
        r = self.r
        p = {'name': r.choice(['r', 's', 't', 'u', 'v', 'int', 'r-s', ''] if not self.clean else ['r', 's', 't', 'u', 'v']), 'parms': r.choice([[], [], [], ['x'], ['x', 'y'], ['x', 'x']])}
        d = r.randint(0, 4)
        return dict(p, k='type', v=self.type(d)) if r.random() < .75 else dict(p, k='group', v=self.entry(d))


def asts(case, r):
    """rules built from syntax trees made by hand"""
    for _ in range(r.randint(1, 3)):
        s = Syntax(r, r.random() < .6)
        case.add('flat', rules=[s.rule() for _ in range(r.choice([0, 1, 1, 2, 3]))])
    return case


# ---------------------------------------------------------------- data

def datas(case, r):
    big = [0, 1, -1, 23, 24, 255, 256, 65535, 65536, 2**32 - 1, 2**32, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1, -24, -25, -256, -257, -2**31, -2**63, -2**63 - 1, -2**64, r.randint(-2**64, 2**64 - 1)]
    floats = [0.0, -0.0, 1.0, 1.5, -2.5, 65504.0, 5.960464477539063e-08, 0.1, 1e300, 5e-324, -1e-310, float('inf'), float('-inf'), 2.0**53, 100.0,
              struct.unpack('>d', bytes(r.randrange(256) for _ in range(8)))[0], struct.unpack('>f', bytes(r.randrange(256) for _ in range(4)))[0], struct.unpack('>e', bytes(r.randrange(256) for _ in range(2)))[0]]
    floats = [f for f in floats if f == f] + ([float('nan')] if r.random() < .1 else [])
    pool = Pool(r, ints=big, texts=('a', 'b', 'B', '', 'ab', '\u00e9', '\u4e2d', '\U0001f600', '\x00', '"', '\\', 'zz', '\uffff'), byts=(b'', b'\x00', b'\xff', b'ab', b'a'), floats=floats)

    def val(d):
        x = r.random()
        if d > 0 and x < .25:
            return [val(d - 1) for _ in range(r.choice([0, 1, 2, 3, 5]))]
        if d > 0 and x < .55:
            ps = [[val(d - 2) if r.random() < .5 else pool.kind('text'), val(d - 1)] for _ in range(r.choice([0, 1, 2, 3, 6]))]
            if ps and r.random() < .3:
                ps.insert(r.randint(0, len(ps)), [r.choice(ps)[0], val(d - 1)])
            return M([[k, v] for k, v in ps])
        return pool.scalar() if r.random() < .9 else Raw(r.choice([b'\xf7', b'\xc2\x42\x01\x00', b'\xc3\x41\x05', b'\xc2\x40', b'\xc0\x61a', b'\xe0', b'\xf8\x20', b'\xd8\x20\x61a', b'\xc2\x49' + b'\x01' * 9]))

    for _ in range(r.randint(4, 9)):
        if r.random() < .08:
            v = Raw(b''.join(r.choice(TAGS) for _ in range(r.choice([1, 1, 2]))) + to_cbor(val(r.choice([0, 1])), r))
            case.add('data', d=case.doc({'cbor': list(to_cbor(v if r.random() < .7 else r.choice([[v], [1, v], M([[v, 1]]), M([['a', v]])])))}))
            continue
        v = val(r.choice([0, 1, 2, 3, 3, 4]))
        if r.random() < .5:
            v = jsonish(v)
        case.add('data', d=case.doc(doc(v, r)))
    return case


def orders(case, r):
    """data and what is close to it"""
    pool = Pool(r, ints=(0, 1, -1, 2, 255, 256, -256, 2**63, -2**63 - 1, 2**64 - 1, -2**64), texts=('a', 'b', 'B', '', 'ab', '\u00e9', '\U0001f600', '\uffff'), byts=(b'', b'\x00', b'\xff', b'ab'),
                floats=[0.0, -0.0, 1.0, -1.0, 1.5, 2.0**53, float('inf'), float('-inf'), 5e-324, 1e300])
    close = lambda v: mutate(v, pool, r)       # noqa: E731

    def val(d):
        x = r.random()
        if d > 0 and x < .35:
            return [val(d - 1) for _ in range(r.choice([0, 1, 2, 3]))]
        if d > 0 and x < .7:
            return M([[val(d - 2) if r.random() < .6 else pool.kind('text'), val(d - 1)] for _ in range(r.choice([0, 1, 2, 3]))])
        return pool.scalar()

    vs = [val(r.choice([0, 1, 2, 3]))]
    for _ in range(r.randint(5, 12)):
        vs.append(val(2) if r.random() < .15 else close(r.choice(vs)) if r.random() < .85 else [r.choice(vs)])
    ds = []
    for v in vs:
        if r.random() < .3:
            v = jsonish(v)
        ds.append(case.doc(doc(v, r)))
    for d in ds:
        case.add('cmp', d=d, ds=ds)
    return case


def jsonish(v):
    """only what JSON can say"""
    if isinstance(v, Raw):
        return None
    if isinstance(v, bytes):
        return v.hex()
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, int):
        return max(-2**63, v)
    if isinstance(v, float):
        return v if v == v and abs(v) != float('inf') else 0.5
    if isinstance(v, list):
        return [jsonish(x) for x in v]
    return M([[k if isinstance(k, str) else repr(k)[:6], jsonish(x)] for k, x in v.p])
