"""Cases for each property: texts, documents and events."""
import math
import random
import re
import struct

from cddl import (gentries, COMMA, END, GLUE, M, PLAIN, Pool, PREL_KIND, Raw, Sampler, Schema, Style, cbor_head, clamp, doc, ent,
                  float_tok, gent, json_able, json_exact, lit, mutate, name_args, near_float, prel, quote, ref, rule_toks,
                  sized_text, strip, subst, subst_e, subst_g, text_of, to_cbor, to_json)
import hand
from schemagen import REGEXES, RULE_NAMES, docs_for, new_gen


class Case:
    def __init__(self):
        self.texts, self.docs, self.ev = [], [], []
        self.only = None

    def text(self, t):
        if t in self.texts:
            return self.texts.index(t) + 1
        self.texts.append(t)
        return len(self.texts)

    def doc(self, d):
        self.docs.append(d)
        return len(self.docs)

    def add(self, a, **kw):
        self.ev.append(dict(a=a, **kw))
        return self

    def out(self):
        return dict(texts=self.texts, docs=self.docs, ev=self.ev)


def vcase(r, text, vals, rule='top', form=None, mode=None):
    """One text, some documents."""
    c = Case()
    t = c.text(text)
    mode = mode or r.choice(['one', 'one', 'one', 'call'])
    if mode == 'call':
        c.add('load', h=1, t=t)
    for v in vals:
        d = c.doc(v if isinstance(v, dict) else doc(v, r, form))
        if mode == 'call':
            c.add('call', h=1, rule=rule, d=d)
        else:
            c.add('one', t=t, rule=rule, d=d)
    return c


def gcase(r, g, top, n=8, mut=.6, style=None, form=None, mode=None):
    s = g.schema(top)
    vals = docs_for(s, g, r, n, mut=mut)
    return vcase(r, dressed(s, r).text(style or PLAIN), vals, form=form, mode=mode)


def dressed(s, r, p=.15):
    """now and then: parts of a schema moved into rules, parameters and parentheses"""
    if r.random() >= p:
        return s
    rules = s.rules
    for _ in range(r.choice([1, 1, 2])):
        rules = abstracted(rules, r) if r.random() < .7 else named(rules, r)
    return Schema(rules)


def abstracted(rules, r):
    """a rule's body becomes a generic rule; some types in it, its arguments"""
    i = r.choice([k for k, q in enumerate(rules) if q[2] == 'type' and not q[1]])
    n, _, kind, body = rules[i]
    if body[0] in ('unwrap',):
        return rules
    pool = ['p', 'q', 't', 'T-1', 'k'] + [q[0] for q in rules if r.random() < .2]
    ps, args = [], []
    p = r.choice([.15, .3, .6])

    def f(t):
        if t[0] in ('ref', 'lit', 'prel', 'range', 'ctl', 'array', 'map', 'cin', 'cify', 'paren') and len(ps) < 3 and \
                r.random() < p and not any(has_ref(t, q) for q in ps):
            x = r.choice(pool)
            if x in ps:
                return t
            ps.append(x)
            args.append(t)
            return ref(x)
        return t
    new = map_types(body, f) if body[0] != 'lit' else body
    if not ps:
        return rules
    g = 'gn%d' % len(rules)
    out = list(rules)
    out[i] = (n, [], 'type', ref(g, *args))
    out.insert(r.randint(0, len(out)), (g, ps, 'type', new))
    return out


def has_ref(t, n):
    return repr(('ref', n))[:-1] in repr(t) or repr(('unwrap', n))[:-1] in repr(t) or repr(('cify', n))[:-1] in repr(t)


def named(rules, r):
    new = []
    p = r.choice([.1, .3])

    def f(t):
        if t[0] in ('ref', 'lit', 'prel', 'range', 'ctl', 'array', 'map', 'choice', 'cin', 'cify', 'paren') and r.random() < p and len(new) < 3:
            n = 'nd%d-%d' % (len(rules), len(new))
            new.append((n, [], 'type', t))
            return ref(n)
        return t
    return map_rules(rules, f) + new


SMALL = dict(ints=(0, 1, 2, 3), texts=('a', 'b', 'c'), byts=(b'', b'a'), floats=(0.0, 1.0, 1.5))
I64 = [0, 1, 2, 9, 10, 23, 24, 255, 256, 65535, 65536, 2**31, 2**32 - 1, 2**32, 2**53, 2**53 + 1, 2**63 - 1, 2**63,
       2**63 + 1, 2**64 - 2, 2**64 - 1, -1, -2, -10, -24, -25, -256, -257, -2**31, -2**32, -2**53, -2**53 - 1,
       -2**63 + 1, -2**63]
I65 = I64 + [-2**63 - 1, -2**64 + 1, -2**64]
FLOATS = [0.0, -0.0, 1.0, -1.0, 1.5, 0.1, 0.25, 1e10, 1e15, 123456.75, 5e-324, 2.2250738585072014e-308,
          1.7976931348623157e308, 3.4028234663852886e38, 65504.0, 6.103515625e-05, 5.960464477539063e-08,
          9007199254740992.0, 9007199254740993.0, 1.8446744073709552e19, -9.223372036854776e18, 3.14, -2.5,
          float('inf'), float('-inf'), float('nan')]
TFLOATS = [f for f in FLOATS if f == f and abs(f) != math.inf]
TEXTS = ['', 'a', 'ab', 'A', 'b', '\u00e9', '\u4e2d', '\U0001f600', 'a b', '1', '1.0', 'true', 'null', '"', '\\', '/',
         '\n', '\t', 'a\u0301', '\u007f', 'aa', '\ud7ff', '\ue000', '\U0010fffd']


def one_of(*fs):
    """a profile made of several, with weights"""
    def f(r):
        return r.choices([x[1] for x in fs], [x[0] for x in fs])[0](r)
    return f


# ------------------------------------------------------------------ C01..C06

def arrays(r, **kw):
    g = new_gen(r, pool=Pool(r, **SMALL), maps=r.random() < .15, w=dict(re=0, size=.1, cmp=.1, cify=.2, cin=.2), **kw)
    d = r.choice([1, 2, 2, 3])
    return gcase(r, g, lambda: ('array', g.group(d, 'array')))


def arrays_small(r):
    """tiny alphabets: greedy matching and leftovers decide"""
    g = new_gen(r, pool=Pool(r, ints=(1, 2), texts=('a',)), w=dict(
        array=0, map=0, range=0, cmp=0, size=0, re=0, cify=0, cin=0, ref=.5, lit=6, prel=1, choice=1.5),
        kinds=('int', 'int', 'int', 'text'), prels=('int', 'any'), maxrules=3)
    return gcase(r, g, lambda: ('array', g.group(r.choice([1, 2, 3]), 'array')), n=12)


def maps(r, **kw):
    g = new_gen(r, pool=Pool(r, **SMALL), arrays=r.random() < .15, json=r.random() < .5,
                w=dict(re=.1, size=.1, cmp=.1, cify=.2, cin=.2), **kw)
    d = r.choice([1, 1, 2, 2])
    return gcase(r, g, lambda: ('map', g.group(d, 'map')), n=10)


def maps_small(r, **kw):
    a = dict(pool=Pool(r, ints=(1, 2), texts=('a', 'b')), json=r.random() < .7, w=dict(
        array=0, map=0, range=0, cmp=0, size=0, re=0, cify=0, cin=0, ref=.4, lit=5, prel=2, choice=1),
        kinds=('int', 'int', 'text'), prels=('int', 'tstr', 'any'), maxrules=3, emptyg=.03)
    a.update(kw)
    g = new_gen(r, **a)
    return gcase(r, g, lambda: ('map', g.group(r.choice([1, 1, 2]), 'map')), n=12)


def odd_keys(r):
    """keys of every kind, exact lookup and search"""
    ks = [1, 2, -1, 0, 1.0, 1.5, 'a', '1', b'a', True, False, None, [1], [], M([]), M([['a', 1]]), 2**64 - 1, -2**63]
    c = r.sample(ks, r.randint(1, 4))
    g = new_gen(r, pool=Pool(r, **SMALL))
    ents = []
    for k in c:
        v = r.choice([prel('int'), prel('any'), lit(1), prel('tstr')])
        o = r.choice([None, None, '?', '*'])
        if isinstance(k, (int, float, str, bytes)) and not isinstance(k, bool):
            kk = r.choice([('val', lit(k)), ('t1', lit(k), r.random() < .5)])
        elif isinstance(k, list):
            kk = ('t1', ('array', [[ent(prel('any'), None, '*')]]), r.random() < .5)
        elif isinstance(k, M):
            kk = ('t1', ('map', [[ent(prel('int'), ('t1', prel('tstr'), False), '*')]]), r.random() < .5)
        else:
            kk = ('t1', prel({True: 'true', False: 'false', None: 'nil'}[k]), r.random() < .5)
        ents.append(ent(v, kk, o))
    if r.random() < .4:
        ents.append(ent(prel('any'), ('t1', prel(r.choice(['any', 'int', 'tstr', 'bool', 'float', 'bstr'])), False), '*'))
    s = Schema([('top', [], 'type', ('map', [ents]))])
    vals = []
    for _ in range(8):
        m = M([[k, r.choice([1, 1, 'x', 2, None])] for k in r.sample(c, r.randint(0, len(c)))])
        if r.random() < .4:
            m.p.append([r.choice(ks), 1])
        vals.append(m)
    return vcase(r, s.text(), vals, form='cbor' if r.random() < .8 else None)


def not_container(r):
    """arrays and maps against everything else, and empty ones"""
    k = r.choice(['array', 'map'])
    g = new_gen(r, pool=Pool(r, **SMALL))
    body = r.choice([[[]], [[ent(prel('int'), ('bare', 'a'), r.choice([None, '?', '*', '+']))]],
                     [[ent(prel('any'), ('t1', prel('any'), False), '*')]]])
    s = Schema([('top', [], 'type', (k, body))])
    vals = [None, True, 0, 1.5, 'a', b'a', [], [1], [1, 2], M([]), M([['a', 1]]), M([[1, 'a'], ['a', 'a']]), [[]], [M([])],
            UNDEF_DOC]
    return vcase(r, s.text(), r.sample(vals, 8))


UNDEF_DOC = {'cbor': [0xf7]}


def rewinds(r):
    """speculative parts nested deeply, small alphabet"""
    if r.random() < .6:
        g = new_gen(r, pool=Pool(r, ints=(1, 2, 3), texts=('a',)), w=dict(
            array=.3, map=0, range=0, cmp=0, size=0, re=0, cify=.1, cin=.1, ref=.5, lit=6, prel=1.5, choice=.7),
            kinds=('int',), prels=('int', 'any', 'tstr'), groupp=.55, choicep=.5, unwrapp=.2, grefp=.2, occp=.45,
            wide=3, maxrules=5, emptyg=.02, occs=['?', '*', '+', '2*3', '2*2', '2*', '3*', '*2', '1*2', '*', '?'])
        return gcase(r, g, lambda: ('array', g.group(r.choice([2, 3, 3]), 'array')), n=12, mut=.7)
    g = new_gen(r, pool=Pool(r, ints=(1, 2), texts=('a', 'b', 'c', 'd')), json=r.random() < .7, w=dict(
        array=0, map=.2, range=0, cmp=0, size=0, re=0, cify=.1, cin=.1, ref=.3, lit=4, prel=3, choice=.5),
        kinds=('int', 'text'), prels=('int', 'any', 'tstr'), groupp=.55, choicep=.5, unwrapp=.2, grefp=.2, cutp=.3,
        wide=3, maxrules=5, emptyg=.02, occs=['?', '*', '+', '2*3', '2*2', '2*', '3*', '*2', '1*2'])
    return gcase(r, g, lambda: ('map', g.group(r.choice([2, 2, 3]), 'map')), n=12, mut=.7)


NUMS = ['0', '1', '2', '3', '0x2', '0b10', '0x0', '0b11', '4']
HUGE = ['4294967295', '4294967296', '18446744073709551615', '18446744073709551614', '0xffffffffffffffff']


def occurrences_long(r, n=0, occ='', k=None):
    """hundreds of elements"""
    n = n or r.choice([100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513])
    occ = occ or r.choice(['*', '*', '+', '1*', '0*', '*%d' % n, '%d*' % n, '%d*%d' % (n, n), '*%d' % (n - 1), '%d*' % (n + 1),
                    '*4294967295', '0*65536'])
    k = r.random() if k is None else k
    if k < .55:
        el = r.choice([ent(prel('int'), None, occ), ent(ref('el'), None, occ), gent([[ent(prel('int'))]], occ)])
        rest = r.choice([[], [], [ent(prel('tstr'))], [ent(lit(7), None, '?')]])
        s = Schema([('top', [], 'type', ('array', [[el] + rest])), ('el', [], 'type', prel('uint'))])
        v = [7] * n + (['a'] if rest and r.random() < .6 else [])
        vals = [v, v[:-1], v + [7]]
    else:
        el = r.choice([ent(prel('int'), ('t1', prel('uint'), r.random() < .5), occ), gent([[ent(prel('int'), ('t1', prel('int'), False))]], occ)])
        n = min(n, 300)
        s = Schema([('top', [], 'type', ('map', [[el]]))])
        vals = [M([[i, i] for i in range(m)]) for m in (n, n + 1, n - 1)]
    return vcase(r, s.text(), vals, form='cbor')


def occurrences(r):
    """each bound at its limits"""
    n, m = r.choice(NUMS), r.choice(NUMS + ['5'] + HUGE[:2] if r.random() < .3 else NUMS)
    x = r.random()
    if x < .2:
        occ = r.choice(['?', '*', '+'])
    elif x < .6:
        occ = n + '*' + m
    elif x < .75:
        occ = n + '*'
    elif x < .9:
        occ = '*' + m
    elif x < .95:
        occ = r.choice(['0*', '*0', '0*0', '1*1', '0*1', '1*0', '3*2'])
    else:
        occ = r.choice([r.choice(HUGE) + '*', '*' + r.choice(HUGE), n + '*' + r.choice(HUGE)])
    arr = r.random() < .55
    shape = r.random()
    rules = []
    el = r.choice([prel('int'), lit(1), ('choice', [lit(1), lit(2)]), prel('any')])
    if arr:
        if shape < .4:
            e = ent(el, r.choice([None, ('bare', 'k')]), occ)
        elif shape < .55:
            e = gent([[ent(el), ent(r.choice([prel('tstr'), lit(2), prel('int')]))]], occ)
        elif shape < .65:
            e = gent([[ent(el)], [ent(prel('tstr')), ent(prel('int'))]], occ)
        elif shape < .75:
            rules = [('g1', [], 'group', gent([[ent(el), ent(prel('int'), None, r.choice(['?', None]))]]))]
            e = ent(ref('g1'), None, occ)
        elif shape < .85:
            rules = [('l1', [], 'type', ('array', [[ent(el), ent(prel('tstr'), None, r.choice(['?', None]))]]))]
            e = ent(('unwrap', 'l1', []), None, occ)
        else:           # can match nothing
            e = gent(r.choice([[[]], [[ent(el, None, '?')]], [[ent(el, None, '*')]], [[ent(el, None, '?'), ent(lit(1), None, '*')]],
                               [[gent([[ent(el, None, '*2')]], r.choice(['*', '+', '2*3']))]],
                               [[ent(el), ent(el)], []]]), occ)
        rest = r.choice([[], [], [ent(lit(1))], [ent(prel('int'), None, '*')], [ent(prel('tstr'))]])
        pre = r.choice([[], [], [ent(prel('int'))]])
        s = Schema([('top', [], 'type', ('array', [pre + [e] + rest]))] + rules)
        vals = [[r.choice([1, 1, 1, 2, 'a'] if r.random() < .5 else [1]) for _ in range(k)] for k in range(0, 9)]
    else:
        cut = r.random() < .4
        k = r.choice([prel('tstr'), prel('any'), prel('int'), ('choice', [lit('a'), lit('b')])])
        if k[0] == 'choice':
            k = ('paren', k)
        if shape < .5:
            e = ent(el, ('t1', k, cut), occ)
        elif shape < .6:
            e = ent(el, ('bare', 'a'), occ)
        elif shape < .8:
            e = gent([[ent(el, ('t1', k, cut)), ent(prel('int'), ('t1', prel('tstr'), False), r.choice([None, '?']))]], occ)
        else:
            e = gent(r.choice([[[]], [[ent(el, ('t1', k, False), '?')]], [[ent(el, ('t1', k, False), '*')]],
                               [[ent(el, ('bare', 'a'), '?'), ent(el, ('bare', 'b'), '*')]]]), occ)
        rest = r.choice([[], [], [ent(prel('any'), ('t1', prel('tstr'), False), '*')], [ent(prel('int'), ('bare', 'a'))]])
        s = Schema([('top', [], 'type', ('map', [[e] + rest]))] + rules)
        ks = ['a', 'b', 'c', 'd', 'e', 'f', 1, 2]
        vals = []
        for n in range(0, 9):
            kk = ks[:n] if r.random() < .5 else r.sample(ks, n)
            vals.append(M([[x, r.choice([1, 1, 1, 2, 'a'] if r.random() < .5 else [1])] for x in kk]))
    if r.random() < .15:
        s.rules[0] = ('top', [], 'type', ('choice', [s.rules[0][3], lit('z')]))
    return vcase(r, s.text(), r.sample(vals, r.randint(5, 9)))


def cuts(r):
    ks = ['a', 'b', 'c']
    def member(d=1):
        x = r.random()
        o = r.choice([None, None, '?', '?', '*', '+'])
        v = r.choice([prel('int'), prel('tstr'), lit(1), prel('any'), ('choice', [lit(1), lit(2)]), prel('nil'), prel('uint')])
        if d and x < .22:
            return gent([[member(d - 1) for _ in range(r.randint(1, 2))] for _ in range(r.choice([1, 2, 2]))], r.choice([None, None, '?', '*']))
        if d and x < .3:
            n = 'g%d' % len(rules)
            rules.append((n, [], 'group', gent([[member(0) for _ in range(r.randint(1, 2))]])))
            return ent(ref(n), None, r.choice([None, '?', '*']))
        if d and x < .38:
            n = 'm%d' % len(rules)
            rules.append((n, [], 'type', ('map', [[member(0) for _ in range(r.randint(1, 2))]])))
            return ent(('unwrap', n, []), None, r.choice([None, '?']))
        if x < .65:
            return ent(v, ('bare', r.choice(ks)), o)
        if x < .7:
            return ent(v, ('val', lit(r.choice(ks))), o)
        if x < .85:
            return ent(v, ('t1', r.choice([prel('tstr'), ('paren', ('choice', [lit('a'), lit('b')])), prel('any')]), r.random() < .5), o)
        return ent(v, ('t1', lit(r.choice(ks)), r.random() < .5), o)
    rules = []
    g = [[member() for _ in range(r.randint(1, 3))] for _ in range(r.choice([1, 1, 2, 3]))]
    top = ('map', g)
    if r.random() < .15:
        top = ('choice', [top, ('map', [[ent(prel('any'), ('t1', prel('tstr'), False), '*')]])])
    if r.random() < .1:
        top = ('array', [[ent(top)]])
    s = Schema([('top', [], 'type', top)] + rules)
    vals = []
    for _ in range(12):
        v = M([[k, r.choice([1, 2, 'x', None, -1])] for k in r.sample(ks, r.randint(0, 3))])
        vals.append([v] if top[0] == 'array' else v)
    return vcase(r, s.text(), vals)


def choices(r):
    g = new_gen(r, pool=Pool(r, **SMALL), w=dict(choice=6, cify=3, cin=3, lit=6, prel=4, ref=3, array=1.5, map=1, range=.7),
                choicep=.5, groupp=.4)
    x = r.random()
    if x < .5:
        return gcase(r, g, lambda: g.type(3))
    return gcase(r, g, lambda: ('array' if x < .75 else 'map', g.group(2, 'array' if x < .75 else 'map')))


def choices_wide(r):
    """many alternatives"""
    n = r.choice([5, 9, 10, 12, 17, 20, 33, 40, 65])
    x = r.random()
    vals = [r.choice([i, i, 'k%d' % i]) for i in range(n)]
    def option(i):
        y = r.random()
        return lit(vals[i]) if y < .8 else ('paren', lit(vals[i])) if y < .9 else ('choice', [lit(vals[i]), lit(-i - 1)])
    if x < .35:
        top = ('choice', [option(i) for i in range(n)])
        if r.random() < .4:
            top = ('array', [[ent(top, None, r.choice([None, '*', '+']))]])
        elif r.random() < .3:
            top = ('map', [[ent(prel('any'), ('t1', ('paren', top), False), r.choice([None, '*']))]])
    elif x < .6:
        top = ('array', [[ent(option(i)), ent(prel('int'), None, '?')] for i in range(n)])
    elif x < .8:
        top = ('map', [[ent(lit(i), ('bare', 'k%d' % i))] for i in range(n)])
    else:
        top = ('cin', [[ent(option(i), r.choice([None, ('bare', 'k%d' % i)])) for i in range(n)]])
    rules = []
    if top[0] == 'cin' and r.random() < .5:
        rules.append(('gg', [], 'group', gent(top[1])))
        top = ('cify', 'gg', [])
    s = Schema([('top', [], 'type', top)] + rules)
    out = []
    for _ in range(8):
        i = r.choice([0, 1, n - 1, n - 1, n - 2, n // 2, 7, 8, 15, 16, r.randrange(n)])
        v = vals[i] if i < n else n
        if top[0] == 'array':
            out.append(r.choice([[v], [v, v], [v, 1], [i]]))
        elif top[0] == 'map':
            out.append(r.choice([M([['k%d' % i, i]]), M([[v, 1]]), M([['k%d' % i, i + 1]])]))
        else:
            out.append(r.choice([v, v, i, 'k%d' % i, -i - 1]))
    return vcase(r, s.text(), out)


def cify(r):
    """& in all positions"""
    def member(d):
        v = r.choice([lit(r.choice([1, 2, 3, 'a', 'b'])), prel(r.choice(['int', 'tstr', 'nil', 'uint'])),
                      ('choice', [lit(5), lit('e')]), ('array', [[ent(prel('int'), None, '*')]]),
                      ('map', [[ent(prel('int'), ('bare', 'a'))]])])
        x = r.random()
        if d and x < .25:
            n = 'g%d' % len(rules)
            rules.append(None)
            i = len(rules) - 1
            rules[i] = (n, [], 'group', gent([[member(d - 1) for _ in range(r.randint(2, 3))]]))
            return ent(ref(n))
        if x < .5:
            return ent(v)
        if x < .8:
            return ent(v, ('bare', r.choice('abc')))
        return ent(v, ('t1', lit(r.choice([1, 'a'])), r.random() < .5))
    rules = []
    def amp():
        if r.random() < .5:
            return ('cin', [[member(1) for _ in range(r.randint(1, 3))]])
        n = 'h%d' % len(rules)
        rules.append(None)
        i = len(rules) - 1
        rules[i] = (n, [], 'group', gent([[member(1) for _ in range(r.randint(2, 3))]]))
        if r.random() < .2:
            n2 = 'al%d' % len(rules)
            rules.append((n2, [], 'type', ref(n)))
            n = n2
        if r.random() < .15:
            rules.append(('gg%d' % len(rules), ['p'], 'type', ('cify', 'p', [])))
            return ref(rules[-1][0], ref(n))
        return ('cify', n, [])
    where = r.random()
    if where < .35:
        top = amp()
    elif where < .53:
        top = ('array', [[ent(amp(), r.choice([None, ('bare', 'k')]), r.choice([None, '*', '+', '?', '2*3']))] +
                         r.choice([[], [ent(prel('int'), None, '*')]])])
    elif where < .68:
        top = ('map', [[ent(amp(), ('bare', 'a'), r.choice([None, '?'])), ent(prel('any'), ('t1', prel('tstr'), False), '*')]])
    elif where < .78:
        top = ('map', [[ent(prel('int'), ('t1', amp(), r.random() < .5), '*')]])
    elif where < .96:
        # as a member of a map: the group's values are themselves groups
        def gmem():
            n = 'q%d' % len(rules)
            rules.append((n, [], 'group', gent([[ent(prel(r.choice(['int', 'tstr'])), ('bare', r.choice('abc'))),
                                                 ent(prel('int'), ('bare', r.choice('def')), r.choice([None, '?']))]])))
            return ent(ref(n), ('bare', r.choice('xyz')))
        mem = [gmem() for _ in range(r.randint(1, 3))]
        if r.random() < .4:
            # a group of such members, by name, and once more
            n = 'nn%d' % len(rules)
            rules.append((n, [], 'group', gent([[gmem() for _ in range(r.randint(1, 3))]])))
            if r.random() < .4:
                rules.append((n + 'b', [], 'group', gent([[ent(ref(n)), gmem()]])))
                n += 'b'
            mem.insert(r.randrange(len(mem) + 1), ent(ref(n)))
        if r.random() < .3:
            mem = [ent(('unwrap', 'um', []))] + mem
            rules.append(('um', [], 'type', ('map', [[ent(prel('int'), ('bare', 'a'))]])))
        if r.random() < .5:
            a = ('cin', [mem])
        else:
            rules.append(('hh', [], 'group', gent([mem + ([gmem()] if len(mem) < 2 else [])])))
            a = ('cify', 'hh', [])
        top = ('map', [[ent(a, None, r.choice([None, '?', '*']))] + r.choice([[], [ent(prel('any'), ('t1', prel('any'), False), '*')]])])
        s = Schema([('top', [], 'type', top)] + rules)
        vals = [M([[k, r.choice([1, 1, 'x'])] for k in r.sample('abcdef', r.randint(0, 3))]) for _ in range(12)]
        return vcase(r, s.text(), vals)
    else:
        top = ('choice', [amp(), amp(), lit('zz')])
    s = Schema([('top', [], 'type', top)] + rules)
    g = new_gen(r, pool=Pool(r, **SMALL))
    return vcase(r, s.text(), docs_for(s, g, r, 10, mut=.5))


# ------------------------------------------------------------------ C07

def fault(r, rules):
    """a type that is faulty when reached"""
    x = r.randrange(18)
    add = lambda n, t: (rules.append((n, [], 'type', t)) if n not in [q[0] for q in rules] else None)
    if x == 0:
        return ref('undefined')
    if x == 1:
        return ('ctl', prel('int'), 'size', lit(1))
    if x == 2:
        return ('range', lit(1), lit(2.5), True)
    if x == 3:
        add('iv', prel('int'))
        return ('range', lit(0), ref('iv'), True)
    if x == 4:
        if 'two' not in [q[0] for q in rules]:
            rules.append(('two', [], 'group', gent([[ent(prel('int'), ('bare', 'a')), ent(prel('int'), ('bare', 'b'))]])))
        return ref('two')
    if x == 5:
        return ('ctl', prel('tstr'), 'lt', lit(3))
    if x == 6:
        return ('ctl', prel('bstr'), 'cbor', prel('int'))
    if x == 7:
        add('lst', ('array', [[ent(prel('int'))]]))
        return ('unwrap', 'lst', [])
    if x == 8:
        add('iv', prel('int'))
        return ('cify', 'iv', [])
    if x == 9:
        add('tx', lit('x'))
        return ('ctl', prel('uint'), r.choice(['lt', 'ge', 'size']), ref('tx'))
    if x == 10:
        add('loop', ref('loop'))
        return ref('loop')
    if x == 11:
        if 'gen' not in [q[0] for q in rules]:
            rules.append(('gen', ['t'], 'type', ('array', [[ent(ref('t'))]])))
        return r.choice([ref('gen'), ref('gen', prel('int'), prel('int'))])
    if x == 12:
        return ('ctl', prel('uint'), 'size', lit(-1))
    if x == 13:
        return ('range', lit('a'), lit(1), True)
    if x == 14:
        return ref('iv2', prel('int')) if add('iv2', prel('int')) is None else None
    if x == 15:
        add('fl', lit(1.5))
        return ('ctl', prel('tstr'), 'size', ref('fl'))
    if x == 16:
        add('nosuch', ('choice', [ref('missing1'), prel('int')]))
        return ref('nosuch')
    return ('ctl', prel('bool'), r.choice(['le', 'gt']), lit(1))


def faults(r):
    g = new_gen(r, pool=Pool(r, ints=(0, 1, 2, -1), texts=('a', 'b'), byts=(b'\x01', b'\xff', b'\x18', b'\x61\x61')),
                w=dict(cbor=.4, choice=3), maxrules=5)
    extra = []
    orig = g.leaf
    p = r.choice([.08, .15, .3])
    def leaf():
        if r.random() < p:
            return fault(r, extra)
        return orig()
    g.leaf = leaf
    x = r.random()
    if x < .4:
        top = lambda: ('map', g.group(2, 'map'))
    elif x < .8:
        top = lambda: ('array', g.group(2, 'array'))
    else:
        top = lambda: ('choice', [g.type(2), g.type(2), g.type(1)])
    s = g.schema(top)
    names = {q[0] for q in s.rules}
    s = Schema(s.rules + [q for q in extra if q[0] not in names])
    vals = docs_for(s, g, r, 10)
    return vcase(r, s.text(), vals)


def fault_spots(r):
    """one fault at one chosen place, data that does or does not reach it"""
    extra = []
    f = fault(r, extra)
    ok = prel(r.choice(['int', 'any', 'tstr']))
    place = r.randrange(14)
    vals = [0, 1, 'a', None, True, 1.5, b'', b'\xff', b'\x01', b'\x82\x01', [], [1], ['a'], [1, 1], ['a', 1], M([]), M([['a', 1]]),
            M([['a', 'x']]), M([['b', 1]]), M([['a', 1], ['b', 2]]), M([['b', b'\xff']]), M([['a', b'\x1f']]), [b'\xff'], M([[1, 1]]), -1, 300]
    t = [
        ('choice', [f, ok]), ('choice', [ok, f]),
        ('array', [[ent(f, None, '?'), ent(ok, None, '*')]]), ('array', [[ent(ok, None, '*'), ent(f)]]),
        ('array', [[gent([[ent(f)], [ent(ok)]], r.choice([None, '*']))]]),
        ('map', [[ent(f, ('bare', 'a'), '?'), ent(prel('any'), ('t1', prel('any'), False), '*')]]),
        ('map', [[ent(prel('any'), ('t1', f, r.random() < .5), r.choice(['?', '*'])), ent(prel('any'), ('t1', prel('any'), False), '*')]]),
        ('map', [[gent([[ent(f, ('bare', 'a'))], [ent(prel('any'), ('t1', prel('any'), False), '*')]])]]),
        ('map', [[ent(f, ('t1', prel('tstr'), False), '*'), ent(prel('any'), ('t1', prel('any'), False), '*')]]),
        ('ctl', prel('bstr'), 'cbor', ('choice', [f, prel('any')])),
        ('cin', [[ent(f, ('bare', 'a')), ent(prel('any'), ('bare', 'b'))]]),
        ('choice', [('array', [[ent(f)]]), prel('any')]),
        ('choice', [('map', [[ent(f, ('bare', 'a'))]]), prel('any')]),
        ('map', [[ent(ok, ('bare', 'a')), ent(f, ('bare', 'b'), '?')]]),
    ][place]
    if r.random() < .3:
        extra.append(('w1', [], 'type', t))
        t = ref('w1')
        if r.random() < .5:
            t = ('choice', [t, prel('any')])
    s = Schema([('top', [], 'type', t)] + extra)
    return vcase(r, s.text(), r.sample(vals, 12))


# ------------------------------------------------------------------ C08

def expand(t, s, d=0):
    """Replace uses of generic rules by their definitions."""
    if d > 12:
        raise RecursionError
    k = t[0]
    if k == 'ref':
        b = s.by.get(t[1])
        if b is not None and b[1] and len(b[1]) == len(t[2]) and b[2] == 'type':
            return ('paren', expand(subst(b[3], {**dict(zip(b[1], [('paren', a) if a[0] not in ('ref', 'lit') else a
                                                                for a in t[2]])), '!': None}), s, d + 1))
        return t
    if k == 'choice':
        return (k, [expand(x, s, d) for x in t[1]])
    if k == 'cin' and any('v' in e and e['key'] is None and strip(e['v'])[0] == 'ref' for e in gentries(t[1])):
        raise RecursionError        # & ( name ): the name has to be that of a group
    if k in ('array', 'map', 'cin'):
        return (k, expand_g(t[1], s, d))
    if k == 'paren':
        return (k, expand(t[1], s, d))
    if k in ('range', 'ctl') and any(x[0] == 'ref' and x[2] for x in (t[1], t[2] if k == 'range' else t[3])):
        raise RecursionError
    if k == 'ctl':
        return (k, t[1], t[2], expand(t[3], s, d) if t[2] == 'cbor' else t[3])
    return t


def expand_g(g, s, d):
    return [[expand_e(e, s, d) for e in a] for a in g]


def expand_e(e, s, d):
    if 'g' in e:
        return dict(occ=e['occ'], g=expand_g(e['g'], s, d))
    k = e['key']
    if k is not None and k[0] == 't1':
        k = ('t1', expand(k[1], s, d), k[2])
    return dict(occ=e['occ'], key=k, v=expand(e['v'], s, d))


def expanded(s):
    out = []
    for n, ps, kind, b in s.rules:
        if ps:
            continue
        out.append((n, ps, kind, expand(b, s) if kind == 'type' else expand_e(b, s, 0)))
    return Schema(out)


def agree_case(r, s1, s2, vals, rule='top', rule2=None, st1=PLAIN, st2=PLAIN):
    c = Case()
    t, u = c.text(s1.text(st1)), c.text(s2.text(st2))
    for v in vals:
        d = c.doc(v if isinstance(v, dict) else doc(v, r))
        if t == u:
            c.add('one', t=t, rule=rule, d=d)
        else:
            c.add('agree', t=t, u=u, rule=rule, rule2=rule2 or rule, d=d)
    return c


def generics(r):
    g = new_gen(r, pool=Pool(r, **SMALL), w=dict(generic=6, ref=1, re=0, cify=0, cin=.3, cbor=.2), maxrules=6, recursive=0,
                unwrapp=0)
    x = r.random()
    top = (lambda: g.t_generic(2)) if x < .4 else (lambda: ('array', g.group(2, 'array'))) if x < .7 else \
        (lambda: ('map', g.group(2, 'map')))
    s = g.schema(top)
    vals = docs_for(s, g, r, 8)
    try:
        return agree_case(r, s, expanded(s), vals)
    except RecursionError:
        return vcase(r, s.text(), vals)


def generic_scopes(r):
    """shadowing, nested uses, arguments that are parameters, group arguments, alias arguments"""
    T = [
        # parameter shadows a rule only inside the definition
        ('foo = int\nother = [foo]\ng<foo> = [foo, other]\ntop = g<tstr>', [['a', [1]], [1, [1]], ['a', ['a']], ['a', []]]),
        ('t = int\ng<t> = [t, h<t>]\nh<u> = {k: u, t: t}\ntop = g<tstr>', [['a', M([['k', 'a'], ['t', 1]])], ['a', M([['k', 1], ['t', 1]])], ['a', M([['k', 'a'], ['t', 'a']])]]),
        ('x = int\ng<x> = h<x>\nh<y> = [x, y]\ntop = g<tstr>', [[1, 'a'], ['a', 'a'], [1, 1]]),
        ('g<t, u> = [t, ? h<u, t>]\nh<t, u> = (t / u)\ntop = g<int, tstr>', [[1], [1, 1], [1, 'a'], ['a', 1]]),
        ('g<t> = [* t]\ntop = g<g<g<int>>>', [[[[1]]], [[1]], [[[1, 2], []], []], [[['a']]]]),
        ('pair = (int, tstr)\nrow<p> = [+ p]\ntop = row<pair>', [[1, 'a'], [1], [1, 'a', 2, 'b'], [1, 'a', 2]]),
        ('pair = (a: int, b: tstr)\nm<p> = {p, ? c: nil}\ntop = m<pair>', [M([['a', 1], ['b', 'x']]), M([['a', 1]]), M([['a', 1], ['b', 'x'], ['c', None]])]),
        ('lst = [int, tstr]\nw<l> = [bool, ~l]\ntop = w<lst>', [[True, 1, 'a'], [True], [True, [1, 'a']], [True, 1]]),
        ('al = lst\nlst = [int, tstr]\ntop = [bool, ~al]', [[True, 1, 'a'], [True], [True, [1, 'a']], [True, 1]]),
        ('w<l> = [bool, ~l]\ntop = w<[int, tstr]>', [[True, 1, 'a'], [True], [True, [1, 'a']]]),
        ('mp = {a: int}\nw<l> = {b: int, ~l}\ntop = w<mp>', [M([['a', 1], ['b', 1]]), M([['b', 1]]), M([['b', 1], ['a', 'x']])]),
        ('lo = 1\nhi = 5\nr<a, b> = a..b\ntop = r<lo, hi>', [0, 1, 3, 5, 6, 1.0]),
        ('r<a, b> = a...b\ntop = r<1, 5>', [0, 1, 4, 5, 1.5]),
        ('s<n> = tstr .size n\ntop = s<3>', ['abc', 'ab', 'abcd', '\u00e9a']),
        ('s<t, n> = t .size n\ntop = s<tstr, 3>', ['abc', 'ab', 5]),
        ('s<t, n> = t .lt n\ntop = s<uint, 3>', [2, 3, -1]),
        ('c<t> = bstr .cbor t\ntop = c<[int, c<tstr>]>', [to_cbor([1, to_cbor('a')]), to_cbor([1, to_cbor(1)]), to_cbor([1, 'a'])]),
        ('k<t> = {t => int}\ntop = k<tstr>', [M([['a', 1]]), M([]), M([[1, 1]])]),
        ('k<t> = {* t => t}\ntop = k<(int / tstr)>', [M([['a', 1]]), M([[1, 'a'], ['b', 'b']]), M([[1.5, 1]])]),
        ('g<t> = [t]\ntop = g', [[1]]), ('g<t> = [t]\ntop = g<int, int>', [[1]]), ('g = [int]\ntop = g<int>', [[1]]),
        ('top<t> = [t]', [[1], 1]), ('top<t> = int', [1]),
        ('g<t> = [? t, ? g<t>]\ntop = g<int>', [[1], [], [1, [1]], [[[]]], [1, [1, ['a']]]]),
        ('n<t> = {v: t, ? next: n<t>}\ntop = n<int>', [M([['v', 1]]), M([['v', 1], ['next', M([['v', 2]])]]), M([['v', 1], ['next', M([['v', 'a']])]])]),
        ('c<a, b> = &(x: a, y: b)\ntop = c<1, 2>', [1, 2, 3]),
        ('gr = (x: 1, y: 2)\nc<g> = &g\ntop = c<gr>', [1, 2, 3]),
        ('g<t> = (a: t, b: t)\ntop = {g<int>}', [M([['a', 1], ['b', 2]]), M([['a', 1]])]),
        ('g<t> = (t, t)\ntop = [* g<int>, tstr]', [[1, 1, 'a'], [1, 'a'], ['a'], [1, 1, 1, 1, 'a']]),
        ('m<k, v> = {* k => v}\ntop = m<tstr, m<int, bool>>', [M([['a', M([[1, True]])]]), M([['a', M([['b', True]])]]), M([])]),
        ('a<t> = b<t, int>\nb<u, t> = [u, t]\ntop = a<tstr>', [['a', 1], [1, 'a'], [1, 1]]),
        ('e = 5\nf<e> = [e, g<e>]\ng<f> = [f, e]\ntop = f<tstr>', [['a', ['a', 5]], ['a', ['a', 'a']], [5, [5, 5]]]),
        ('maybe<t> = t / nil\ntop = {a: maybe<int>, ? b: maybe<maybe<tstr>>}', [M([['a', None]]), M([['a', 1], ['b', None]]), M([['a', 'x']])]),
        ('g<a, a> = [a]\ntop = g<int, tstr>', [[1], ['a']]),
        ('g<t> = [t, undefinedx]\ntop = g<int>', [[1], [1, 1], ['a', 1]]),
        ('g<t> = int / t\ntop = g<undefinedx>', [1, 'a']),
        ('g<t> = [~t]\ntop = g<h<int>>\nh<u> = [u, u]', [[1, 1], [1], [[1, 1]]]),
        ('g<t> = [* ~t]\ntop = g<al>\nal = l\nl = [int, tstr]', [[1, 'a', 2, 'b'], [], [1, 'a', 2]]),
    ]
    text, vals = r.choice(T)
    names = [('foo', 'fq'), ('t', 'tt'), ('x', 'xx'), ('g', 'ga')]
    vals = list(vals) + [mutate(v, Pool(r, **SMALL), r) for v in vals for _ in range(2)]
    return vcase(r, text + '\n', r.sample(vals, min(10, len(vals))))


# ------------------------------------------------------------------ C37

def chead(major, n):
    return [major * 32 + n] if n < 24 else [major * 32 + 24, n] if n < 256 else [major * 32 + 25, n >> 8, n & 255]


AROUND = {
    'self': lambda x: x, 'arr': lambda x: [129] + x, 'arrb': lambda x: [130, 244] + x, 'barr': lambda x: [130] + x + [244],
    'map': lambda x: [161, 97, 97] + x, 'map2': lambda x: [162, 97, 97] + x + [97, 98, 97, 122], 'map3': lambda x: [162, 97, 98, 97, 122, 97, 97] + x,
    'key': lambda x: [161] + x + [1], 'key2': lambda x: [162] + x + [1, 97, 122, 1], 'bytes': lambda x: chead(2, len(x)) + x,
    'two': lambda x: [130] + x + x, 'twom': lambda x: [162, 97, 97] + x + [97, 98] + x,
}
AROUND_TYPES = [
    ('(@)', 'self'), ('[@]', 'arr'), ('[* @]', 'two'), ('[+ @]', 'arr'), ('[? (@)]', 'arr'), ('[1*2 (k: @)]', 'two'), ('[@ // bool]', 'arr'), ('[bool // @]', 'arr'),
    ('[* bool, @]', 'arrb'), ('[? (bool, @)]', 'arrb'), ('[@, * bool]', 'barr'), ('{a: @}', 'map'), ('{? "a" => @}', 'map'), ('{* tstr => @}', 'twom'),
    ('{* tstr => @, * tstr => "z"}', 'map2'), ('{* tstr => (@ / "z")}', 'map2'), ('{* (tstr => (@ / "z"))}', 'map3'), ('{* k<@>}', 'map2'), ('{+ tstr => ("z" / @)}', 'map3'),
    ('{* (@ / "z") => int}', 'key2'), ('{* ("z" / @) ^ => int}', 'key2'), ('{* tstr => "z", * tstr => @}', 'map3'), ('{? b: tstr, * tstr => @}', 'map2'), ('{a: @ // b: bool}', 'map'),
    ('{b: bool // a: @}', 'map'), ('{@ => int}', 'key'), ('(@ / nil)', 'self'), ('([bool] / {* tstr => bool} / @)', 'self'), ('&(bool, k: @)', 'self'), ('(bstr .cbor @)', 'bytes'),
    ('g<@>', 'arr'), ('w<@>', 'self'), ('h<@>', 'map'), ('v<@, bool>', 'arr'), ('v<bool, @>', 'self'), ('{* (tstr => @, ? int => bool)}', 'map'), ('{(a: @ // a: bool), ? b: "z"}', 'map2'),
]


def mixed_nest(r):
    """types of all kinds around each other in any order, and data of the same nesting"""
    fs = [r.choice(AROUND_TYPES) for _ in range(r.choice([1, 2, 3, 4, 5, 6]))]
    core, leaf = r.choice([('int', [1]), ('int', [97, 98]), ('(1 / 2)', [3]), ('tstr', [97, 122]), ('[* int]', [128]), ('bool', [244]), ('bool', [1]), ('nil', [246]), ('float', [246])])
    text, rules = core, ''
    cut = r.randrange(len(fs) + 1) if r.random() < .6 else -1
    for i, (f, _) in enumerate(reversed(fs)):
        if i == cut:
            rules += ' r%d = %s' % (i, text)
            text = 'r%d' % i
        text = f.replace('@', text)
    c = Case()
    t = c.text('t = ' + text + rules + ' g<x> = [x] w<x> = x h<x> = {? a: x} v<x, y> = [x] / y k<x> = (tstr => x / "z")')
    for n in range(r.choice([2, 3])):
        x = leaf if n == 0 else r.choice([[1], [97, 122], [128], [246], [160]])
        gs = list(fs)
        if n == 2 and len(gs) > 1:
            k = r.randrange(len(gs))
            gs[k] = r.choice(AROUND_TYPES)
        for _, d in reversed(gs):
            if len(x) < 120:
                x = AROUND[d](x)
        c.add('one', t=t, rule='t', d=c.doc({'cbor': x}))
    return c


# ------------------------------------------------------------------ C09

def nested_data(kind, depth, leaf):
    v = leaf
    for _ in range(depth):
        if kind == 'array':
            v = [v]
        elif kind == 'map':
            v = M([['a', v]])
    return v


def depth_chain(r):
    """n names one inside another, in every position a name can stand"""
    n = r.choice([1, 2, 25, 46, 47, 48, 49, 50, 50, 51, 51, 52, 53, 60])
    kinds = ['plain', 'plain', 'array', 'map', 'choice1', 'choice2', 'group', 'mgroup', 'unwrap', 'munwrap', 'occ', 'paren',
             'cin', 'gen', 'key', 'cbor', 'alias']
    mix = [r.choice(kinds) for _ in range(3)] if r.random() < .5 else [r.choice(kinds)]
    vals = {'v': 1}
    rules = []
    end = r.choice([prel('int'), lit(1), ('choice', [lit(1), lit('a')])])
    good, bad = 1, 'zz'
    # build from the innermost rule outwards, keeping the context a rule is used in
    body, ctx = end, 'value'
    maxnest = 20
    rules_out = []
    for i in range(n, 0, -1):
        name = 'n%d' % i
        rules_out.append((name, [], 'type', body))
        k = r.choice(mix)
        if i == 1:
            k = 'plain'
        this = ref(name)
        if k in ('array', 'map', 'key', 'cbor', 'occ', 'unwrap', 'munwrap', 'group', 'mgroup') and maxnest <= 0:
            k = 'plain'
        if k == 'array' or k == 'occ':
            body = ('array', [[ent(this, None, '*' if k == 'occ' else None)]])
            good, bad = [good], [bad]
            maxnest -= 1
        elif k == 'group':
            body = ('array', [[gent([[ent(this), ent(prel('nil'), None, '?')]])]])
            good, bad = [good], [bad]
            maxnest -= 1
        elif k == 'map':
            body = ('map', [[ent(this, ('bare', 'a'))]])
            good, bad = M([['a', good]]), M([['a', bad]])
            maxnest -= 1
        elif k == 'mgroup':
            body = ('map', [[gent([[ent(this, ('bare', 'a')), ent(prel('nil'), ('bare', 'b'), '?')]])]])
            good, bad = M([['a', good]]), M([['a', bad]])
            maxnest -= 1
        elif k == 'choice1':
            body = ('choice', [this, prel('nil')])
        elif k == 'choice2':
            body = ('choice', [prel('nil'), this])
        elif k == 'paren':
            body = ('paren', this)
        elif k == 'cin':
            body = ('cin', [[ent(this, ('bare', 'a'))]])
        elif k == 'gen' and i > 2:
            rules_out.append(('q%d' % i, ['t'], 'type', r.choice([ref('t'), ('choice', [ref('t'), prel('nil')])])))
            body = ref('q%d' % i, this)
        elif k == 'cbor':
            body = ('ctl', prel('bstr'), 'cbor', this)
            good, bad = to_cbor(good), to_cbor(bad)
            maxnest -= 4
        elif k == 'unwrap':
            rules_out[-1] = (name, [], 'type', ('array', [[ent(body)]]))
            body = ('array', [[ent(('unwrap', name, []))]])
            good, bad = [good], [bad]
            maxnest -= 1
        elif k == 'munwrap':
            rules_out[-1] = (name, [], 'type', ('map', [[ent(body, ('bare', 'a'))]]))
            body = ('map', [[ent(('unwrap', name, []))]])
            good, bad = M([['a', good]]), M([['a', bad]])
            maxnest -= 1
        elif k == 'key':
            body = this
        else:
            body = this
    rules_out.append(('top', [], 'type', body))
    rules_out.reverse()
    return vcase(r, Schema(rules_out).text(), [good, bad, None, [], 2], mode=r.choice(['one', 'call']))


def depth_points(r):
    """names of limits and operands"""
    n = r.choice([1, 10, 48, 49, 50, 51, 52])
    k = r.randrange(6)
    chain = lambda last: [('n%d' % i, [], 'type', ref('n%d' % (i + 1))) for i in range(1, n)] + [('n%d' % n, [], 'type', last)]
    if k == 0:
        top, rs, vals = ('range', lit(0), ref('n1'), True), chain(lit(5)), [3, 5, 6, 'a']
    elif k == 1:
        top, rs, vals = ('range', ref('n1'), lit(9), r.random() < .5), chain(lit(5)), [3, 5, 9, 'a']
    elif k == 2:
        top, rs, vals = ('ctl', prel('tstr'), 'size', ref('n1')), chain(lit(2)), ['ab', 'a', 3]
    elif k == 3:
        top, rs, vals = ('ctl', ref('n1'), r.choice(['lt', 'ge', 'le', 'gt']), lit(2)), chain(prel('uint')), [1, 2, 3, -1, 'a']
    elif k == 4:
        rs = chain(ref('grp')) + [('grp', [], 'group', gent([[ent(lit(1), ('bare', 'a')), ent(lit(2), ('bare', 'b'))]]))]
        top, vals = ('cify', 'n1', []), [1, 2, 3]
    else:
        rs = chain(('array', [[ent(prel('int'))]]))
        top, vals = ('array', [[ent(('unwrap', 'n1', []))]]), [[1], [], ['a']]
    return vcase(r, Schema([('top', [], 'type', top)] + rs).text(), vals)


RECUR = [
    ('top = top', [1, [], None]), ('top = a\na = b\nb = a', [1]), ('top = [* top]', None), ('top = {? a: top}', None),
    ('top = [* a]\na = [? top] / int', None), ('top = (top)', [1]), ('top = int / top', [1, 'a', []]),
    ('top = top / int', [1, 'a']), ('top = [g]\ng = (int, ? g)', None), ('top = [g]\ng = (g, int)', [[], [1]]),
    ('top = {g}\ng = (? a: int, g)', [M([]), M([['a', 1]])]), ('top = [~top]', [[], [1]]), ('top = {~top}', [M([])]),
    ('top = [? int, ~top]', [[], [1]]), ('top = &g\ng = (a: 1, g)', [1, 2]), ('top = g<int>\ng<t> = g<t>', [1]),
    ('top = g<int>\ng<t> = g<[t]>', [1, [1]]), ('top = g<int>\ng<t> = t / g<[t]>', None), ('top = g<int>\ng<t> = [? t, ? g<t>]', None),
    ('top = top..5', [1]), ('top = int .lt top', [1]), ('top = a .size 3\na = a', ['a']), ('top = tstr .size a\na = a', ['a']),
    ('top = bstr .cbor top', None), ('top = {* tstr => top} / int', None), ('top = {* top => int} / int', None),
    ('top = [a, b]\na = [? b]\nb = [? a]', None), ('top = [top] / [int]', None), ('top = [? top // int]', None),
    ('top = [* (? top)]', None), ('top = [+ (* top)]', None), ('top = {+ (? a: top)}', None), ('top = any / top', None),
    ('top = [* (* (* int))]', None), ('top = [2*3 (* int, ? tstr)]', None),
    ('top = a<top>\na<t> = [? t]', None), ('top = a<int>\na<t> = b<t>\nb<t> = a<t> / nil', [1, None]),
]


def recursion(r):
    text, vals = r.choice(RECUR)
    pool = Pool(r, **SMALL)
    k = r.choice([1, 2, 3, 5, 10, 20, 24, 25, 26, 47, 48, 49, 50, 51, 52])
    own = [nested_data('array', k, 1), nested_data('array', k, []), nested_data('map', k, 1), nested_data('map', k, M([]))]
    if 'cbor' in text:
        b = b'\x01'
        for _ in range(min(k, 50)):
            b = to_cbor(b)
        own.append({'cbor': list(b)})
        own.append({'cbor': list(to_cbor(to_cbor(to_cbor(b'\xff'))))})
    vals = list(vals or []) + own + [1, [], [1, 2], [[1], [[]]], 'a', M([['a', M([])]])]
    return vcase(r, text + '\n', r.sample(vals, min(len(vals), 7)))


def completed(r):
    """many references one after another"""
    n = r.choice([30, 49, 50, 51, 60, 80])
    k = r.randrange(5)
    if k == 0:
        text, v = 'top = [* a]\na = b\nb = int', [1] * n
    elif k == 1:
        text, v = 'top = [%s]\na = int' % ', '.join(['a'] * n), [1] * n
    elif k == 2:
        text, v = 'top = {* a => b}\na = tstr\nb = c\nc = int', M([['k%d' % i, 1] for i in range(n)])
    elif k == 3:
        text, v = 'top = %s / z\na = tstr\nz = int' % ' / '.join(['a'] * n), 1
    else:
        text, v = 'top = [* g]\ng = (a, ~l)\na = int\nl = [int]', [1] * (n // 2 * 2)
    return vcase(r, text + '\n', [v, mutate(v, Pool(r), r)])


# ------------------------------------------------------------------ C10..C15

def big_pool(r):
    return Pool(r, ints=I64, texts=TEXTS, byts=(b'', b'a', b'\x00', b'ab'), floats=TFLOATS)


def around(v, r):
    if isinstance(v, float):
        return near_float(v, r)
    return max(-2**64, min(2**64 - 1, v + r.choice([-1, 0, 0, 1])))


def wrap(r, t, rules):
    """the type itself, or as part of something; a function to wrap values"""
    x = r.random()
    if x < .6:
        return t, lambda v: v
    if x < .7:
        return ('array', [[ent(t, None, '*')]]), lambda v: [v]
    if x < .78:
        return ('map', [[ent(t, ('bare', 'a'))]]), lambda v: M([['a', v]])
    if x < .84:
        return ('map', [[ent(prel('any'), ('t1', t, False))]]), lambda v: M([[v, 1]])
    if x < .9:
        rules.append(('wr', [], 'type', t))
        return ref('wr'), lambda v: v
    if x < .95:
        return ('choice', [t, lit('none of these')]), lambda v: v
    rules.append(('wg', ['t'], 'type', ref('t')))
    return ref('wg', t), lambda v: v


def ranges(r):
    fl = r.random() < .4
    src = TFLOATS if fl else I64 if r.random() < .5 else [-3, -2, -1, 0, 1, 2, 3, 10]
    a, b = r.choice(src), r.choice(src)
    if r.random() < .85 and a > b:
        a, b = b, a
    if r.random() < .15:
        b = a
    x = r.random()
    if x < .1:
        b = r.choice(TFLOATS if not fl else I64)            # kinds differ
    elif x < .16:
        b = r.choice(['a', b'a'])
        if r.random() < .5:
            a = r.choice(['a', b'', 'b'])
    if isinstance(a, float) and str(a) == '-0.0':
        a = 0.0
    rules = []
    def point(v, n):
        y = r.random()
        if y < .65 or isinstance(v, (str, bytes)) and y < .8:
            return lit(v)
        rules.append((n, [], 'type', lit(v)))
        if y < .85:
            return ref(n)
        if y < .95:
            rules.append((n + 'x', [], 'type', ref(n)))
            return ref(n + 'x')
        if y < .98:
            rules[-1] = (n, [], 'type', r.choice([prel('int'), ('array', [[]]), ('choice', [lit(v), lit(v)])]))
        return ref(n) if r.random() < .8 else ref('undef')
    t = ('range', point(a, 'lo'), point(b, 'hi'), r.random() < .5)
    if r.random() < .1:
        rules.append(('gr', ['p', 'q'], 'type', ('range', ref('p'), ref('q'), t[3])))
        t = ref('gr', t[1], t[2])
    t, w = wrap(r, t, rules)
    vals = []
    for _ in range(9):
        y = r.random()
        e = r.choice([a, b])
        if isinstance(e, (str, bytes)) or y < .12:
            v = r.choice(['a', None, True, [1], b'a', 1, 1.0, M([])])
        elif y < .75:
            v = around(e, r)
        elif y < .85:
            v = r.choice(I65 if not fl else FLOATS)
        elif y < .93 and isinstance(e, int):
            v = float(e) if abs(e) < 2**1000 else 1.0
        elif isinstance(e, float) and e == e and abs(e) < 1e15 and e == int(e):
            v = int(e)
        else:
            v = e
        vals.append(w(v))
    return vcase(r, Schema([('top', [], 'type', t)] + rules).text(), vals)


def compare(r):
    n = r.choice(I64 if r.random() < .5 else [-3, -2, -1, 0, 1, 2, 3, 10])
    op = r.choice(['lt', 'le', 'gt', 'ge'])
    rules = []
    tn = r.choice(['int', 'uint', 'nint'])
    t = prel(tn)
    x = r.random()
    if x < .2:
        rules.append(('tt', [], 'type', t))
        t = ref('tt')
        if r.random() < .3:
            rules.append(('tu', [], 'type', t))
            t = ref('tu')
    elif x < .28:
        t = prel(r.choice(['tstr', 'float', 'bstr', 'bool', 'any']))
    elif x < .32:
        rules.append(('tt', [], 'type', r.choice([prel('tstr'), lit(3), ('choice', [prel('int'), prel('nil')]), ref('undef')])))
        t = ref('tt')
    a = lit(n)
    y = r.random()
    if y < .2:
        rules.append(('lim', [], 'type', a))
        a = ref('lim')
        if r.random() < .3:
            rules.append(('lim2', [], 'type', a))
            a = ref('lim2')
    elif y < .28:
        rules.append(('lim', [], 'type', r.choice([lit(1.5), lit('a'), prel('int'), ref('undef'), ('range', lit(1), lit(3), True)])))
        a = ref('lim')
    elif y < .31:
        a = r.choice([lit(1.5), lit('a'), ('paren', ('range', lit(1), lit(3), True)), ref('undef')])
    elif y < .36:
        a = ('paren', a)
    t = ('ctl', t, op, a)
    if r.random() < .08:
        rules.append(('gc', ['p', 'q'], 'type', ('ctl', ref('p'), op, ref('q'))))
        t = ref('gc', t[1], t[3])
    t, w = wrap(r, t, rules)
    vals = []
    for _ in range(9):
        y = r.random()
        if y < .6:
            v = around(n, r)
        elif y < .75:
            v = r.choice(I65)
        elif y < .85:
            v = r.choice([0, -1, 1, 5, -5])
        elif y < .92:
            v = float(n)
        else:
            v = r.choice(['a', None, True, [1], b'a', 1.5])
        vals.append(w(v))
    return vcase(r, Schema([('top', [], 'type', t)] + rules).text(), vals)


def sizes(r):
    rules = []
    kind = r.choice(['tstr', 'bstr', 'uint', 'uint', 'tstr'])
    t = prel(kind)
    x = r.random()
    if x < .15:
        rules.append(('tt', [], 'type', t))
        t = ref('tt')
    elif x < .2:
        t = prel(r.choice(['text', 'bytes', 'any', 'int', 'float', 'nint', 'bool']))
    elif x < .25:
        rules.append(('tt', [], 'type', r.choice([prel('int'), ref('undef'), ('choice', [prel('tstr'), prel('bstr')]), lit('a')])))
        t = ref('tt')
    y = r.random()
    n, m = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 255, 256, 2**64 - 1] if r.random() < .3 else [0, 1, 2, 3, 4, 8]), None
    if y < .45:
        a = lit(n)
        ns = [n]
    elif y < .85:
        m = r.choice([0, 1, 2, 3, 4, 5, 8, 9, 12] + ([2**64 - 1, 256] if r.random() < .2 else []))
        if kind == 'uint' and m == n:
            m = n + 1 if n < 2**63 else n - 1
        if m < n and r.random() < .8:
            n, m = m, n
        a = ('paren', ('range', lit(n), lit(m), r.random() < .5))
        ns = [n, m]
        if kind == 'uint' and a[1][3] is False and n + 1 == m and False:
            pass
    else:
        a = r.choice([lit(-1), lit(1.5), lit('a'), lit(b'a'), ref('undef'), prel('int'),
                      ('paren', ('range', lit(-1), lit(3), True)), ('paren', ('range', lit(0.5), lit(3.5), True)),
                      ('paren', ('range', lit(0), lit('a'), True))])
        ns = [1]
    if a[0] in ('lit', 'paren') and r.random() < .2:
        rules.append(('lim', [], 'type', a))
        a = ref('lim')
        if r.random() < .3:
            rules.append(('lim2', [], 'type', a))
            a = ref('lim2')
    elif r.random() < .04:
        rules.append(('nn', [], 'type', lit(n)))
        a = ('paren', ('range', ref('nn'), lit(9), True))
    t = ('ctl', t, 'size', a)
    t, w = wrap(r, t, rules)
    vals = []
    for _ in range(10):
        k = r.choice(ns)
        y = r.random()
        if y < .12:
            v = r.choice(['a', None, True, [1], b'a', 1.5, 0, -1, 255, 256, '', b''])
        elif kind == 'uint':
            e = max(0, min(9, k + r.choice([0, 0, 0, -1, 1])))
            v = clamp(256 ** e + r.choice([0, 0, -1, -1, 1]))
            if y < .2:
                v = -v
            elif y < .3:
                v = r.choice(I64)
        else:
            j = max(0, min(40, k + r.choice([0, 0, 0, 1, -1])))
            v = sized_text(j, r) if kind == 'tstr' else bytes(r.randrange(256) for _ in range(j))
            if y < .2:
                v = v.encode() if isinstance(v, str) else v.hex()
        vals.append(w(v))
    return vcase(r, Schema([('top', [], 'type', t)] + rules).text(), vals)


def cbors(r):
    g = new_gen(r, pool=Pool(r, **SMALL), w=dict(cbor=5, re=0, size=.2, cmp=.2, cify=.2, cin=.2), maxrules=4)
    x = r.random()
    if x < .55:
        top = lambda: ('ctl', prel('bstr'), 'cbor', g.type(2))
    elif x < .7:
        top = lambda: ('array', [[ent(('ctl', prel('bstr'), 'cbor', g.type(2)), None, r.choice([None, '*', '?']))]])
    elif x < .85:
        top = lambda: ('map', [[ent(('ctl', prel('bstr'), 'cbor', g.type(2)), r.choice([('bare', 'a'), ('t1', prel('tstr'), False)]), r.choice([None, '*']))]])
    else:
        top = lambda: ('map', [[ent(prel('any'), ('t1', ('ctl', prel('bstr'), 'cbor', g.type(1)), r.random() < .5))]])
    s = g.schema(top)
    vals = docs_for(s, g, r, 8, mut=.5)
    s = dressed(s, r, .4)
    def spoil(v):
        """replace some byte strings by broken ones"""
        if isinstance(v, bytes):
            y = r.random()
            if y < .3 and v:
                return v[:-1]
            if y < .5:
                return r.choice([b'', b'\x1c', b'\xff', b'\x5f\x41', b'\x81', b'\xa1\x01', b'\x61\xff', b'\xc0\x01', b'\xf8\x18',
                                 b'\x9f\x01', b'\x3b' + b'\xff' * 8, b'\x5f\x61a\xff', b'\xfd\x00', b'\xf7', b'\xf9\x7c\x00'])
            return v
        if isinstance(v, list):
            return [spoil(q) for q in v]
        if isinstance(v, M):
            return M([[spoil(k), spoil(q)] for k, q in v.p])
        return v
    vals = [spoil(v) if r.random() < .35 else v for v in vals]
    vals = [nontag(v) for v in vals]
    return vcase(r, s.text(), vals, form='cbor' if r.random() < .9 else None)


def nontag(v):
    return v


def cbor_top(r):
    """judged as at top level: the item as a document and embedded"""
    g = new_gen(r, pool=Pool(r, **SMALL), w=dict(cbor=.5, re=.1), maxrules=4)
    s = g.schema(lambda: g.type(2))
    vals = docs_for(s, g, r, 6)
    emb = Schema(s.rules + [('emb', [], 'type', ('ctl', prel('bstr'), 'cbor', ref('top')))])
    emb = dressed(emb, r, .3)
    c = Case()
    t = c.text(emb.text())
    for v in vals:
        b = to_cbor(v, r)
        c.add('one', t=t, rule='top', d=c.doc({'cbor': list(b)}))
        c.add('one', t=t, rule='emb', d=c.doc({'cbor': list(to_cbor(b, r))}))
    return c


def regexps(r):
    x = r.random()
    if x < .6:
        re = r.choice(REGEXES)
    else:
        def atom(d):
            y = r.random()
            if y < .5:
                return r.choice('abc1')
            if y < .6:
                return '.'
            if y < .7:
                return r.choice(['[ab]', '[^a]', '[a-c1]', '\\d', '\\w', '[0-9]', '\\D', '\\s'])
            if d and y < .9:
                return r.choice(['(', '(', '(?:']) + seq(d - 1) + ')'
            return r.choice(['^', '$', '\\.', '\\\\', '-', '\u00e9', '\\*'])
        def seq(d):
            s = ''.join(atom(d) + r.choice(['', '', '', '*', '+', '?', '{2}', '{1,2}', '{0,1}', '{2,}', '*?']) if r.random() < .8 else
                        atom(d) for _ in range(r.randint(1, 3)))
            return s + ('|' + seq(d - 1) if d and r.random() < .3 else '')
        re = seq(2)
        import re as _re
        re = _re.sub(r'(\^|\$)([*+?{])', r'\1a\2', re)
    if x > .93:
        re = r.choice(['(', '[', 'a{2,1}', '*', ')', 'a**'[:1] + '(', '[b-a]', '\\', 'a|*', '(?:', '+a', 'x{'])
    rules = []
    t = ('ctl', prel('tstr'), 'regexp', lit(re))
    y = r.random()
    if y < .04:
        t = ('ctl', prel(r.choice(['bstr', 'int', 'any', 'uint'])), 'regexp', lit(re))
    elif y < .07:
        t = ('ctl', prel('tstr'), 'regexp', r.choice([lit(1), lit(b'a'), prel('tstr'), ref('re1'), lit(1.5)]))
        rules.append(('re1', [], 'type', lit('a')))
    elif y < .12:
        t = ('ctl', prel('text'), 'regexp', lit(re))
    from cddl import sample_regex
    top, w = wrap(r, t, rules)
    vals = [w(sample_regex(lit(re), r)) for _ in range(9)] + [w(r.choice([1, None, b'a', ['a'], M([])]))]
    return vcase(r, Schema([('top', [], 'type', top)] + rules).text(), vals)


PRELS = sorted(PREL_KIND)


def preludes(r):
    rules = []
    if r.random() < .5:
        t = prel(r.choice(PRELS))
    else:
        v = r.choice(I64 + TFLOATS + TEXTS[:12] + [b'', b'a', b'ab', '\u00e9'.encode(), b'\x00'])
        if isinstance(v, str) and any(ord(c) < 32 or ord(c) == 127 for c in v):
            v = 'a'
        if isinstance(v, float) and math.copysign(1, v) < 0 and v == 0:
            v = 0.0
        t = lit(v)
    top, w = wrap(r, t, rules)
    vals = []
    for _ in range(10):
        x = r.random()
        if t[0] == 'lit' and x < .5:
            v = t[2]
            y = r.random()
            if y < .3:
                v = around(v, r) if isinstance(v, (int, float)) else v + v[:1]
            elif y < .55:
                if isinstance(v, int):
                    v = float(v)
                elif isinstance(v, float):
                    v = int(v) if abs(v) < 2**63 else v
                elif isinstance(v, str):
                    v = r.choice([v.encode(), v.upper(), [v]])
                else:
                    v = v.decode('latin1')
        else:
            v = r.choice([None, True, False, 0, 1, -1, r.choice(I65), r.choice(I65), r.choice(FLOATS), r.choice(FLOATS),
                          r.choice(TEXTS), r.choice([b'', b'a', b'\xff']), [], [1], M([]), M([['a', 1]]), '0', b'0', 'true'])
        vals.append(w(v))
    if r.random() < .1:
        vals.append({'cbor': [0xf7]})
    return vcase(r, Schema([('top', [], 'type', top)] + rules).text(), vals)


# ------------------------------------------------------------------ C16, C27

def routes(r):
    """the same value as JSON and CBOR, one call and prepared"""
    g = new_gen(r, pool=Pool(r, ints=(0, 1, -1, 2**53 + 1, 2**63, 2**64 - 1, -2**63, 10), texts=('a', 'b', '\u00e9'),
                             floats=(0.0, 1.0, 1.5, 1e300, 0.1)), json=True, w=dict(cbor=0, re=.2), maxrules=5)
    x = r.random()
    top = (lambda: ('map', g.group(2, 'map'))) if x < .4 else (lambda: ('array', g.group(2, 'array'))) if x < .8 else \
        (lambda: g.type(2))
    s = g.schema(top)
    c = Case()
    t = c.text(s.text())
    c.add('load', h=1, t=t)
    for v in docs_for(s, g, r, 5):
        if not json_able(v):
            v = jsonize(v)
        a, b = c.doc(doc(v, r, 'json')), c.doc(doc(v, r, 'cbor'))
        for d in (a, b):
            c.add('one', t=t, rule='top', d=d)
            c.add('call', h=1, rule='top', d=d)
    return c


def jsonize(v):
    if isinstance(v, bytes):
        return v.hex()
    if isinstance(v, list):
        return [jsonize(x) for x in v]
    if isinstance(v, M):
        return M([[k if isinstance(k, str) else 'k', jsonize(x)] for k, x in v.p])
    if isinstance(v, (int, float, str)) or v is None:
        return v if json_able(v) else 0
    return 0


BADTEXT = ['top = ', '', '   ', '; nothing\n', 'top = [', 'top = int x', 'top = {a: int', '= int', 'top int', 'top = 1..', 'top = a b c',
           'top = "a', 'top = h\'1\'', 'top = b64\'*\'', 'top = 18446744073709551616', 'top = int\nfoo', 'top = int,\nb = int', '\u00e9 = int',
           'top = {a: }', 'top = int /', 'top = (int', 'top == int', 'top = int ; \nfoo =', 'top = 0x1.8p1', 'top = #6.1(int)', 'top /= int']
BADBUILD = ['top = int\nu = tdate2 .bits 3', 'top = int\nu = number', 'top = time', 'top = undefined / int', 'top = int\nq = int<3>',
            'top = int .bits 3', 'top = &int', 'top = [~tstr]', 'top = tstr .regexp "("', 'top = int .regexp "a"', 'top = tstr .cbor int',
            'top = int .lt "a"', 'top = [int]..3', 'top = 1..int', 'top = bigint', 'top = [* unsigned]', 'u = {integer: integer}\ntop = int',
            'top = int .eq 3', 'top = tstr .size "a"', 'top = a<undefined>\na<t> = t', 'top = decfrac', 'top = &( a: bigfloat )',
            'top = {number => int}', 'top = int\nx = int .lt 1..2', 'top = int .and uint', 'top = 3..tstr', 'top = "a" .regexp "a"',
            'top = bstr .cbor number', 'top = time .size 3', 'top = 1 .size (1...2)', 'top = int<int>', 'top = ~int<3>', 'top = int .lt [1]',
            'top = uint .size [1]', 'top = int .size 1.5']
BADJSON = ['', '{', '[1,]', '{"a":}', 'nul', '01', '1 2', '"a', "'a'", '[1}', '{"a" 1}', '{a:1}', '\ufeff1', '1.', '.5', '1e', '-', '"\\x"',
           '"\\ud800"', '[1,,2]', '{"a":1,}', '1e999', 'NaN', '// c\n1', '+1', '"\n"']
BADCBOR = [[], [0x18], [0x1c], [0xff], [0x81], [0xa1, 0x01], [0x61, 0xff], [0x62, 0x61], [0x5f, 0x41], [0x9f, 0x01], [0xbf, 0x01, 0xff],
           [0xc1, 0x00], [0xf8, 0x20], [0x3b] + [0xff] * 7, [0xfc], [0x5f, 0x61, 0x61, 0xff]]


def precedence(r):
    """several faults at once: the first counts"""
    c = Case()
    texts = []
    for _ in range(3):
        x = r.random()
        if x < .3:
            texts.append(r.choice(BADTEXT))
        elif x < .5:
            texts.append(r.choice(BADBUILD))
        elif x < .7:
            texts.append(r.choice(['top<t> = [t]', 'top = g\ng<t> = t', 'top = undefd', 'top = [undefd]']))
        else:
            texts.append(r.choice(['top = int', 'top = [* any]', 'top = {* tstr => any}', 'top = any', 'top = (int, tstr)', 'top = (a: int)',
                                   'top = ? int', 'top = * (int, tstr)', 'top = (a: int, b: tstr)', 'top = ~foo\nfoo = [int]']))
    docs = []
    for _ in range(4):
        x = r.random()
        if x < .3:
            docs.append({'json': r.choice(BADJSON)})
        elif x < .6:
            docs.append({'cbor': r.choice(BADCBOR)})
        else:
            docs.append(doc(r.choice([1, 'a', [], [1], M([]), M([['a', 1]]), None]), r))
    for d in docs:
        c.doc(d)
    for t in texts:
        i = c.text(t)
        c.add('load', h=i, t=i)
        for d in range(1, len(docs) + 1):
            rule = r.choice(['top', 'top', 'nope', 'g', 'int', ''])
            c.add('one', t=i, rule=rule, d=d)
            if r.random() < .4:
                c.add('call', h=i, rule=rule, d=d)
    return c


def numbers(r):
    """numbers across formats"""
    t = r.choice(['int', 'uint', 'nint', 'float', '0..18446744073709551615', '-9223372036854775808..0', 'int .lt 0', 'uint .size 8',
                  '0.0..1e300', '1', '1.0', '-1', '18446744073709551615', '-9223372036854775808', '0', '0.0', '100', '1e2', 'any',
                  '9223372036854775808', '9007199254740993', '0.1', '-0.5', '1.5', 'float16', 'uint .size 4', 'uint .size 1'])
    text = 'top = %s\n' % t if r.random() < .7 else 'top = [* %s]\n' % t
    arr = '[*' in text
    c = Case()
    i = c.text(text)
    toks = ['0', '1', '-1', '1.0', '1e0', '100', '1e2', '1E+2', '10e1', '1.5', '0.1', '1e-1', '18446744073709551615', '18446744073709551616',
            '-9223372036854775808', '-9223372036854775809', '9223372036854775807', '9223372036854775808', '4294967296', '255', '256', '-0.5',
            '1e300', '0.0', '0e0', '9007199254740993', '9007199254740992.0', '2e0', '-1e0', '-1.0', '1.25', '-128', '65536', '123456789']
    for _ in range(6):
        k = r.choice(toks)
        d = c.doc({'json': '[' + k + ']' if arr else k})
        c.add('one', t=i, rule='top', d=d)
    for _ in range(6):
        v = r.choice(I65 + FLOATS)
        c.add('one', t=i, rule='top', d=c.doc({'cbor': list(to_cbor([v] if arr else v, r))}))
    return c


def orderings(r):
    """the same map written in several ways"""
    g = new_gen(r, pool=Pool(r, ints=(0, 1, 2, 24, 300), texts=('a', 'b', 'c', 'aa'), floats=(0.0, 1.5, 1.0)),
                json=r.random() < .5, w=dict(cbor=.2, re=0, map=4), maxrules=4)
    s = g.schema(lambda: ('map', g.group(2, 'map')) if r.random() < .8 else ('array', [[ent(('map', g.group(1, 'map')), None, '*')]]))
    c = Case()
    t = c.text(s.text())
    for v in docs_for(s, g, r, 3, mut=.5):
        for _ in range(4):
            w = rearrange(v, r)
            c.add('one', t=t, rule='top', d=c.doc(doc(w, r)))
    return c


def rearrange(v, r):
    if isinstance(v, list):
        return [rearrange(x, r) for x in v]
    if isinstance(v, M):
        p = []
        seen = {}
        for k, x in v.p:
            seen[to_cbor(k)] = (k, x)
        for k, x in seen.values():
            p.append([rearrange(k, r), rearrange(x, r)])
        r.shuffle(p)
        if p and r.random() < .35:      # an earlier value that is overwritten
            i = r.randrange(len(p))
            k = p[i][0]
            p.insert(r.randint(0, i), [k, r.choice([None, 'zz', 7, [], -1])])
        return M(p)
    return v


def dup_search(r):
    """wildcards with an order of entries that matters to a matcher that forgets it"""
    ks = r.sample(['a', 'b', 'c', 'aa', 'z', '', '\u00e9', 1, 2, 10, 100, 256, -1, -2, 1.5, True, None, b'a', b'b'], r.randint(2, 5))
    e = []
    for _ in range(r.randint(1, 3)):
        k = r.choice([prel('tstr'), prel('int'), prel('any'), prel('uint'), ('range', lit(0), lit(50), True)])
        v = r.choice([prel('int'), lit(1), prel('any'), ('choice', [lit(1), lit(2)])])
        e.append(ent(v, ('t1', k, r.random() < .6), r.choice([None, '?', '*', '2*3', '+'])))
    if r.random() < .5:
        e.append(ent(prel('any'), ('t1', prel('any'), False), '*'))
    s = Schema([('top', [], 'type', ('map', [e]))])
    c = Case()
    t = c.text(s.text())
    for _ in range(3):
        v = M([[k, r.choice([1, 1, 2, 'x'])] for k in ks])
        for _ in range(4):
            c.add('one', t=t, rule='top', d=c.doc(doc(rearrange(v, r), r)))
    return c


# ------------------------------------------------------------------ C17..C21

def rich(r, **kw):
    """a schema with every construct"""
    a = dict(pool=Pool(r, ints=(0, 1, 2, 15, -1, 300), texts=('a', 'b', 'x y', '\u00e9'), floats=(1.5, 0.25, -2.0)),
             w=dict(generic=1.5, cbor=1, re=.7, range=1, cmp=1, size=1, cify=.7, cin=.7, paren=2, choice=3), maxrules=5, recursive=.2)
    a.update(kw)
    g = new_gen(r, **a)
    s = g.schema(lambda: g.type(r.choice([1, 2, 2, 3])))
    if r.random() < .3:
        s.rules.append(('gx', [], 'group', gent(g.group(1, 'map'), r.choice([None, None, '*', '?']))))
        s = Schema(s.rules)
    return g, s


def wild(r):
    return Style(r, wild=r.choice([0, .2, .5]), comma=r.choice([1, .5, 0]), trail=r.choice([0, .5, 1]))


def grammar(r):
    g, s = rich(r)
    c = Case()
    t = c.text(s.text(wild(r)))
    c.add('parse', t=t)
    if r.random() < .4:
        c.add('build', t=t)
    return c


def grammar_broken(r):
    """a small change somewhere in a text"""
    g, s = rich(r, maxrules=2)
    text = s.text(wild(r))
    c = Case()
    for _ in range(4):
        u = text
        for _ in range(r.choice([1, 1, 2])):
            u = mutate_text(u, r)
        if len(u) < 400:
            c.add('parse', t=c.text(u))
    return c if c.ev else grammar(r)


CHARS = list('abz019 \n,:=<>/()[]{}~&?*+.^;"\'-_$@#\\|!%') + ['\t', '\r', '\r\n', 'h\'', '..', '...', '//', '=>', '0x', '0b1', 'b64\'',
                                                          ' .size ', '1*2', '\u00e9', ' ; c\n', '^ =>', '""', "''", '//', '/=', '1.5', '1e3']


def mutate_text(u, r):
    x = r.random()
    i = r.randint(0, len(u))
    if x < .35:
        return u[:i] + u[i + r.choice([1, 1, 2]):]
    if x < .7:
        return u[:i] + r.choice(CHARS) + u[i:]
    if x < .85:
        return u[:i] + r.choice(CHARS) + u[i + 1:]
    if x < .93:
        j = r.randint(0, len(u))
        a, b = min(i, j), min(max(i, j), min(i, j) + 12)
        return u[:b] + u[a:b] + u[b:]
    j = min(len(u), i + r.randint(1, 4))
    return u[:i] + u[i:j][::-1] + u[j:]


TOKS = ['a', 'b', 'int', 'tstr', '1', '-1', '1.5', '"s"', "h'00'", "'x'", "b64'AA=='", '[', ']', '{', '}', '(', ')', '<', '>', '=', '/', '//', ',',
        ':', '=>', '^', '~', '&', '?', '*', '+', '2*3', '..', '...', '.size', '.lt', '.', ';c\n', '\n', ' ', '0x1f', '0b1', '1e2', 'a-b', '#', '$$x', '@', '\u00e9']


def soup(r):
    c = Case()
    for _ in range(5):
        n = r.randint(1, 14)
        u = ''.join(r.choice(TOKS) + r.choice(['', ' ', ' ']) for _ in range(n))
        if r.random() < .8:
            u = r.choice(['a = ', 'a= ', 'a<t> = ', 'a = [', 'a = {', 'a = (', 'x = 1 a = ']) + u
            opens = [ch for ch in u if ch in '[{(']
            if r.random() < .5:
                u += ''.join({'[': ']', '{': '}', '(': ')'}[ch] for ch in reversed(opens))
        c.add('parse', t=c.text(u))
    return c


def tiny_exact(r):
    """short rules from a grammar of corner cases"""
    T = ['a=1', 'a = 1b = 2', 'a=b c=d', 'a = [1*2 int]', 'a = [1 * 2 int]', 'a = [2 *int]', 'a = [*2 int]', 'a = [* 2]', 'a = [*2]', 'a = [2*]',
         'a = [2* int]', 'a = [2*3]', 'a = [0x2*0b11 int]', 'a = [a 2*3 b]', 'a = [1,2,,3]', 'a = [,1]', 'a = [1,]', 'a = (1,)', 'a = (1)', 'a = ()',
         'a = {}', 'a = []', 'a = {//}', 'a = {a: 1 // b: 2}', 'a = {a: 1 //}', 'a = [// 1]', 'a = [1 // // 2]', 'a = {a: 1 / 2}', 'a = {a / b: 1}',
         'a = {a => 1}', 'a = {a ^ => 1}', 'a = {a ^=> 1}', 'a = {a^=>1}', 'a = {a = > 1}', 'a = {a ^ : 1}', 'a = {1: 2}', 'a = {"x": 2}',
         'a = {1.5: 2}', "a = {h'00': 2}", 'a = {(a): 1}', 'a = {[1]: 2}', 'a = {[1] => 2}', 'a = {1..2 => 2}', 'a = {int .lt 3 => 2}',
         'a = {(1/2) => 2}', 'a = {1/2 => 2}', 'a = {a<b>: 2}', 'a = {a<b> => 2}', 'a = a<b>', 'a = a <b>', 'a = a< b , c >', 'a = a<b,>', 'a = a<>',
         'a<> = b', 'a<b> = c', 'a <b> = c', 'a<b,c>=d', 'a<b c> = d', 'a< b , c > = d', 'a<1> = b', 'a = 1..2', 'a = 1 ..2', 'a = 1.. 2', 'a = 1...2',
         'a = 1....2', 'a = 1 . . 2', 'a = b..c', 'a = b ..c', 'a = b.. c', 'a = b .. c', 'a = b ... c', 'a = 1..2..3', 'a = (1..2)..3', 'a = 1.5..2.5',
         'a = 1..b', 'a = [1]..2', 'a = b .size c', 'a = b.size c', 'a = b .size(1..2)', 'a = b .size 1..2', 'a = b .size', 'a = b . size c', 'a = b .Size 1',
         'a = b .x .y', 'a = b .x c .y d', 'a = b .x-y 1', 'a = b .$x 1', 'a = "x" .size 1', 'a = 1.size 2', 'a = 1 .size 2', 'a = ~b', 'a = ~ b', 'a = ~~b',
         'a = ~b<c>', 'a = ~(b)', 'a = ~1', 'a = &b', 'a = & b', 'a = &(1)', 'a = & (a: 1, b: 2)', 'a = &b<c>', 'a = &(b // c)', 'a = &&b', 'a = &()',
         'a = b / c', 'a = b/c', 'a = b / / c', 'a = b // c', 'a = / b', 'a = b /', 'a = (b / c) / d', 'a = [b / c, d]', 'a = (b // c)', 'a = (b: 1 // c: 2)',
         'a = ? b', 'a = + b', 'a = * b', 'a = 1*2 b', 'a = ?b: 1', 'a = b: 1', 'a = (b: 1)', 'a = ?(b: 1)', 'a = * (b, c)', 'a = ? ? b', 'a = [? ? b]',
         'a = [? (b)]', 'a = [? (b, c)]', 'a = [(b)]', 'a = [(b,)]', 'a = [((b, c))]', 'a = [(b) c]', 'a = [b c]', 'a = [b, c]', 'a = [b: c d: e]',
         'a = [b : c]', 'a = [b :c]', 'a = {b : c, d:e}', 'a = {? b : c}', 'a = {?b:c}', 'a = {+b=>c}', 'a = {* b => c}', 'a={*b=>c}', 'a = b;c\n', 'a = b;c', 'a = b ;',
         ';c\na = b', '; c', 'a ; c\n = b', 'a = ; c\n b', 'a = [ ; c ]\n b ]', 'a = b ;c\r\nd = e', 'a = b ;c\rd = e', ';;;\n;\na=b', 'a = "x;y"', "a = 'x;y'",
         'a = "x\ny"', 'a = "x\ty"', 'a = "\\n"', "a = '\\''", "a = '\"'", 'a = "\'"', 'a = "\\""', 'a = "\\', 'a = "', "a = '", "a = h'", "a = h'0", "a = h'0'", "a = h' 0 0 '",
         "a = h'0g'", "a = H'00'", "a = b64'AA=='", "a = b64'AA'", "a = b64'A'", "a = b64''", "a = h''", "a = ''", 'a = ""', 'a = b c', 'a = b,', 'a = b, c = d', 'a = b c =',
         'a = b c = d', 'a = b c=d e=f', 'a', 'a =', '= b', 'a == b', 'a := b', 'a /= b', 'a //= b', 'a = #', 'a = #6.1(b)', 'a = #1', 'a = 1.', 'a = .1', 'a = 01', 'a = 1e5',
         'a = 1e+5', 'a = 1e-5', 'a = 1e', 'a = 1E5', 'a = 1.5e3', 'a = -1', 'a = - 1', 'a = +1', 'a = --1', 'a = -0', 'a = -0.0', 'a = 0x', 'a = 0xg', 'a = 0x1F', 'a = 0X1f', 'a = 0b2',
         'a = 0b', 'a = 0b01', 'a = 0b102', 'a = 0x1.5', 'a = 0x1p3', 'a = 0x1e5', 'a = -0x1', 'a = -0b1', 'a = 0b1e1', 'a = 00', 'a = 1_0', 'a- = b', '-a = b', 'a-b = c', 'a.b = c', 'a. = b',
         '.a = b', 'a--b = c', 'a-.b = c', '$a = b', '$$a = b', '@a = b', '_ = a', 'a_ = b', 'a$ = b', 'a1 = b', '1a = b', 'a@b = c', 'A = b', 'a = a', 'a\n=\nb', '\n\na=b\n\n', '\ta=b', 'a=b\r\n', 'a=b\r',
         'a\u00a0= b', 'a = b\u2003', '\ufeffa = b', 'a = b\x00', 'a = "\x00"', 'a = "\x7f"', 'a = "\x80"', 'a = \'\x7f\'', ';\x00\na=b', ';\x7f\na = b', 'a = "\U0010ffff"', 'a = "\U0010fffd"',
         'a = {b: {c: [d: ~e, * f]}}', 'a = [[[[1]]]]', 'a = ((((1))))', 'a = {{a: 1} => [b]}', 'a = {[b] ^ => c}', 'a = {~b => c}', 'a = {&b => c}', 'a = {b c}', 'a = {b}', 'a = {~b}', 'a = {&b}', 'a = {b / c}',
         'a = {b: c / d, e: f // g: h}', 'a = [b // c // d]', 'a = [(b // c) // d]', 'a = [? b // + c]', 'a = b<c / d>', 'a = b<(c / d)>', 'a = b<1..2>', 'a = b<"x">', 'a = b<[c]>', 'a = b<c<d>>', 'a = b<c<d> >',
         'a = b<c>..d', 'a = b<c> .size d', 'a = b<c', 'a = b<c>d = e', 'a<b>=c d<e>=f', 'int = tstr', 'a = int<b>', 'true = 1', 'a = 1 / "x" / h\'00\'', 'a = b .cbor [c]', 'a = b .regexp "x"', 'a = 1: b', 'a = "k": b',
         'a = k: b', 'a = k => b', 'a = ? k => b', 'a = (k => b)', 'a = 5*6 b', 'a = 5* b', 'a = *6 b', 'a = (5*6 b)', 'a = [3 4]', 'a = [3 -4]', 'a = [3-4]', 'a = [a-4]', 'a = [a -4]', 'a = ["x""y"]', 'a = ["x" "y"]',
         'a = [b"x"]', "a = [b'x']", "a = [h 'x']", "a = [h: 'x']", "a = [h'00']", 'a = [b64]', 'a = [h]', 'h = h', 'b64 = b64', 'h=\'00\'', 'a = [b{c: 1}]', 'a = [b[c]]', 'a = [b(c)]', 'a = b(c)', 'a = b[c]']
    c = Case()
    for u in r.sample(T, 6):
        c.add('parse', t=c.text(u))
    return c


N_TINY = None


def spacing(r):
    """one schema put together in two ways"""
    g, s = rich(r, maxrules=4)
    c = Case()
    t = c.text(s.text(Style(r, wild=0, comma=1)))
    u = c.text(s.text(Style(r, wild=r.choice([.3, .7, 1]), comma=r.choice([1, .5, 0]), trail=r.choice([0, .5, 1]))))
    c.add('parse', t=t).add('parse', t=u)
    if t != u:
        c.add('same', t=t, u=u)
    for v in docs_for(s, g, r, 3):
        d = c.doc(doc(v, r))
        c.add('one', t=t, rule='top', d=d).add('one', t=u, rule='top', d=d)
    return c


def comments(r):
    """comments anywhere, with anything in them"""
    body = r.choice(['', ' ', ';', '"', "'", '[', '}', 'a = b', '\\', '\\n', '\u00e9\U0001f600', '\x00', '\x7f', '\t', '//', 'x\ty', "h'", ' = ', ',', '\ufeff', '\u2028', '\x0b', '\x0c', '\x85', '\xa0'])
    end = r.choice(['\n', '\n', '\r\n', '\n\n'])
    cm = ';' + body + end
    toks = r.choice([['top', '=', 'int'], ['top', '=', '[', 'int', ',', 'tstr', ']'], ['top', '=', '{', 'a', ':', 'int', ',', 'b', '=>', 'tstr', '}'],
                     ['top', '=', '(', 'int', '/', 'tstr', ')'], ['top', '=', '[', '*', 'int', '//', 'tstr', ']'], ['top', '=', '1', '..', '2'],
                     ['top', '=', 'tstr', '.size', '3'], ['top', '=', '[', '2*3', '(', 'a', ',', 'b', ')', ']', 'a', '=', 'int', 'b', '=', 'int'],
                     ['top', '=', '~', 'b', 'b', '=', '[', 'int', ']'], ['top', '=', '&', '(', 'a', ':', '1', ')'], ['top', '=', 'g<', 'int', '>', 'g<', 't', '>', '=', '[', 't', ']'],
                     ['top', '=', '{', 'int', '^', '=>', 'tstr', '}'], ['g<', 't', ',', 'u', '>', '=', 't', '/', 'u', 'top', '=', 'g<', '1', ',', '2', '>'],
                     ['top', '=', '{', '?', 'a', ':', '1', '//', 'b', ':', '2', ',', '}']])
    c = Case()
    t = c.text(' '.join(toks) + '\n')
    out = []
    p = r.choice([.15, .5, 1])
    for i, k in enumerate(toks):
        if r.random() < p:
            out.append(cm if r.random() < .7 else r.choice([' ', '\n', '\r\n', '\t', '  ']))
        out.append(k)
        out.append(' ')
    tail = r.choice(['', cm, ';' + body if '\r' not in body else '', '\n'])
    u = c.text(''.join(out) + tail)
    c.add('parse', t=u)
    if u != t:
        c.add('same', t=t, u=u)
    d = c.doc(doc(r.choice([1, [1], [1, 'a'], M([['a', 1]]), 'abc', 2, [[1]]]), r))
    c.add('one', t=u, rule='top', d=d)
    return c


def slices(r):
    g, s = rich(r, maxrules=4)
    if r.random() < .2 and len(s.rules) > 1:
        s.rules.append((s.rules[0][0], [], 'type', prel('int')))
        s = Schema(s.rules)
    c = Case()
    st = Style(r, wild=r.choice([0, .3, .8]), comma=r.choice([1, .5, 0]), trail=r.choice([0, .5, 1]))
    text = s.text(st)
    if r.random() < .15:
        text = mutate_text(text, r)
    if r.random() < .2:
        text = r.choice(BADTEXT + BADBUILD) + r.choice(['', '\n', ' ; c'])
    if r.random() < .2:
        text = '\n'.join(q + ' ' for q in text.split('\n'))
    t = c.text(text)
    c.add('slices', t=t).add('sbuild', t=t)
    if r.random() < .3:
        c.add('sbuild2', t=t).add('parse', t=t)
    return c


def no_crash(r):
    c = Case()
    k = r.random()
    for _ in range(4):
        x = r.random()
        if x < .25:
            u = r.choice(BADTEXT + BADBUILD)
        elif x < .5:
            n = r.randint(1, 30)
            u = ''.join(r.choice(CHARS) for _ in range(n))
        elif x < .6:
            n = r.choice([3, 5, 8])
            o, e = r.choice([('(', ')'), ('[', ']'), ('{a:', '}'), ('&(', ')'), ('b<', '>'), ('[(', ')]'), ('[? (', ')]'), ('~', ''), ('&', '')])
            u = 'a = ' + o * n + r.choice(['1', '', 'x', '1,']) + e * r.choice([n, n, n - 1, n + 1])
        elif x < .8:
            g, s = rich(r, maxrules=2)
            u = mutate_text(s.text(wild(r)), r)
        else:
            u = 'a = ' + r.choice(LITS(r))
        if len(u) > 400:
            continue
        t = c.text(u)
        c.add('parse', t=t).add('build', t=t).add('build2', t=t).add('slices', t=t).add('sbuild', t=t).add('sbuild2', t=t)
        if r.random() < .5:
            c.add('one', t=t, rule='a', d=1).add('load', h=1, t=t)
    c.doc(doc(r.choice([1, 'a', [1]]), r))
    return c


def LITS(r):
    return [r.choice(['1e400', '-1e400', '1e-400', '99999999999999999999', '-99999999999999999999', '0xfffffffffffffffff', '0b' + '1' * 65,
                      '18446744073709551616*3 int', '[3*18446744073709551616 int]', '"\\u12"', '"\\ud800"', '"\\q"', "h'123'", "h'xx'", "b64'!'",
                      "'\\q'", '1.7976931348623157e308', '1.8e308', '2.2e-308', '4e-324', '1e-1000', '0.' + '0' * 30 + '1', '-9223372036854775809',
                      '-9223372036854775808', '18446744073709551615', '[18446744073709551615* int]', '[*18446744073709551615 int]'])]


def esc_text(r, n=6):
    """body of a quoted text and what surrounds it"""
    out = ''
    for _ in range(r.randint(0, n)):
        x = r.random()
        if x < .45:
            out += r.choice(list('aZ0 /\'~;{[') + ['\u00e9', '\u4e2d', '\U0001f600', '\x80', '\ud7ff', '\ue000', '\U0010fffd'])
        elif x < .7:
            out += '\\' + r.choice('"\\/bfnrt')
        elif x < .85:
            cp = r.choice([0x41, 0xe9, 0x4e2d, 0, 0x7f, 0xffff, 0x20, 0xd7ff, 0xe000, 0xfdd0])
            out += '\\u' + (('%04x' if r.random() < .5 else '%04X') % cp)
        elif x < .92:
            cp = r.choice([0x1f600, 0x10000, 0x10ffff]) - 0x10000
            out += '\\u%04x\\u%04X' % (0xd800 + (cp >> 10), 0xdc00 + (cp & 0x3ff))
        else:
            out += r.choice(['\\q', '\\x41', '\\ud800', '\\udc00', '\\u12', '\\uD83D\\u0041', '\\U0041', '\\', "\\'", '\\a', '\\u00g0', '\\0', '\\ud83dx', '\x1f', '\n', '\x7f', '\\u{41}'])
    return out


def literals(r):
    x = r.random()
    if x < .3:                                     # integers
        n = r.choice(I64 + [r.getrandbits(64), r.getrandbits(63), r.getrandbits(32), -r.getrandbits(62), 2**64, 2**64 + 1, 2**65, -2**63 - 1, 10**30, -10**25, r.getrandbits(70)])
        s = '-' if n < 0 else ''
        a = abs(n)
        u = r.choice([str(n), str(n), s + '0x%x' % a, s + '0x%X' % a, s + '0b' + bin(a)[2:], s + '0x' + '0' * r.randint(1, 20) + '%x' % a, s + '0b0' + bin(a)[2:]])
        if r.random() < .05:
            u = r.choice(['-0', '-0x0', '-0b0', '0x', '0b', '0b2', '0xG', '00', '01', '-01', '0x1f', '0X1F', '0B1', '+1', '- 1', '1_000'])
        vals = [clamp(n), clamp(n + 1), clamp(n - 1), clamp(-n), float(clamp(n)), str(n)]
    elif x < .55:                                  # floats
        y = r.random()
        if y < .4:
            f = struct.unpack('>d', struct.pack('>Q', r.getrandbits(64)))[0]
            if f != f or abs(f) == math.inf:
                f = 1.5
            u = float_tok(f)
            if r.random() < .3:
                u = '%.*e' % (r.choice([3, 10, 16, 20, 25]), f)
                if 'e+' in u and r.random() < .5:
                    u = u.replace('e+', 'e')
        elif y < .6:
            u = r.choice(['1e400', '-1e400', '1e-400', '1.7976931348623157e308', '1.7976931348623158e308', '1.7976931348623159e308', '4.9e-324', '2.4e-324', '2.5e-324', '2.2250738585072011e-308',
                          '0.1', '0.30000000000000004', '9007199254740993.0', '9007199254740992.5', '1e23', '8.5e22', '1.0e0', '-0.0', '0.0', '0e0', '1e0', '1E5', '1e+5', '1e05', '1.5e-3', '5e-324',
                          '123456789012345678901234567890.0', '0.000000000000000000000000000001', '1.e5', '.5', '1.', '1.0.0', '1e', '1e+', '0x1.8p3', '0b1.1', '0x1e3.5', '1.5e3.2', '3.0000000000000004440892098500626'])
        else:
            u = '%d.%d' % (r.choice([0, 1, 12, 9007199254740992, 123456789]), r.choice([0, 5, 25, 123456789, 1]))
            if r.random() < .4:
                u += 'e%s%d' % (r.choice(['', '+', '-']), r.choice([0, 1, 5, 20, 300, 308, 310]))
            if r.random() < .3:
                u = '-' + u
        try:
            f = float(u)
        except ValueError:
            f = 1.5
        vals = [f, near_float(f, r) if abs(f) != math.inf and f == f else 1.0, int(f) if abs(f) < 2**63 else 1, -f]
        if abs(f) == math.inf:
            vals += [float('inf'), 1.7976931348623157e308]
    elif x < .75:                                  # text
        b = esc_text(r)
        u = '"' + b + '"'
        if r.random() < .1:
            u = u[:-1] if r.random() < .5 else u + '"'
        try:
            import json
            v = json.loads(u)
        except ValueError:
            v = 'a'
        if any(0xd800 <= ord(ch) < 0xe000 for ch in v):
            v = 'b'
        vals = [v, v + 'a', v[:-1], v.encode(), v.swapcase()]
    else:
        y = r.random()
        if y < .3:
            b = esc_text(r, 4)
            if r.random() < .3:
                b += r.choice(['"', "\\'", '\\"'])
            u = "'" + b + "'"
            try:
                import json
                v = json.loads('"' + b.replace("\\'", "'").replace('"', '\\"') + '"').encode()
            except (ValueError, UnicodeEncodeError):
                v = b'a'
        elif y < .65:
            v = bytes(r.randrange(256) for _ in range(r.randint(0, 5)))
            h = v.hex() if r.random() < .6 else v.hex().upper()
            if r.random() < .4:
                h = ''.join(ch + r.choice(['', '', ' ', '  ']) for ch in h)
            if r.random() < .15:
                k = r.randint(0, len(h))
                h = r.choice([h + '0', h + 'g', h[:-1], '0x' + h, h[:k] + r.choice('\n\t\r-_:,.\u00a0+gG/@`"#;') + h[k:],
                              h[:k] + ' ' + h[k:], ' ' + h, h + ' '])
            u = "h'" + h + "'"
        else:
            import base64
            v = bytes(r.randrange(256) for _ in range(r.randint(0, 7)))
            e = base64.urlsafe_b64encode(v).decode()
            if r.random() < .2:
                e = r.choice([e.rstrip('='), e + '=', e[:-1], e + '!', e.replace('-', '+').replace('_', '/'), ' ' + e, e + ' ', e[:2] + '=' + e[2:], e + '====', e + 'A', e + '\u00e9', e[:1]])
            u = "b64'" + e + "'"
        vals = [v, v + b'\x00', v[:-1], v.hex(), v.decode('latin1')]
    if '\\u+' in u:
        u = '"x"'
    form = r.random()
    text = {0: 'top = %s', 1: 'top = [* %s]', 2: 'top = {%s: int}', 3: 'top = {a: %s}', 4: 'top = %s / nil', 5: 'top = {%s => int}', 6: 'top = g<%s>\ng<t> = t'}[
        0 if form < .6 else r.randint(1, 6)] % u
    w = {'top = [*': lambda v: [v], 'top = {a:': lambda v: M([['a', v]]), 'top = {%s' % u[:1]: lambda v: M([[v, 1]])}
    f = next((w[k] for k in w if text.startswith(k)), lambda v: v)
    c = vcase(r, text + '\n', [f(v) for v in vals if not isinstance(v, str) or all(not 0xd800 <= ord(q) < 0xe000 for q in v)], mode='one')
    c.ev.insert(0, dict(a='parse', t=1))
    return c


# ------------------------------------------------------------------ C22, C24, C25

def map_types(t, f, path=()):
    """f applied to every type, outermost last"""
    k = t[0]
    if k == 'choice':
        t = (k, [map_types(x, f) for x in t[1]])
    elif k in ('array', 'map', 'cin'):
        t = (k, map_g(t[1], f, k == 'cin'))
    elif k == 'paren':
        t = (k, map_types(t[1], f))
    elif k in ('ref', 'unwrap', 'cify'):
        t = (k, t[1], [map_types(x, f) for x in t[2]])
    elif k == 'range':
        t = (k, map_point(t[1], f), map_point(t[2], f), t[3])
    elif k == 'ctl':
        t = (k, map_point(t[1], f), t[2], map_types(t[3], f) if t[2] == 'cbor' else map_point(t[3], f))
    return f(t)


def map_point(t, f):
    return f(t) if t[0] in ('ref',) else t


def map_g(g, f, cin=False):
    return [[map_e(e, f, cin) for e in a] for a in g]


def map_e(e, f, cin=False):
    if 'g' in e:
        return dict(occ=e['occ'], g=map_g(e['g'], f, cin))
    k = e['key']
    if cin and k is None:               # a name there has to be that of a group
        return e
    if k is not None and k[0] == 't1':
        k = ('t1', map_types(k[1], f), k[2])
    if k is None and e['v'][0] in ('unwrap', 'cify'):
        return dict(e, v=(e['v'][0], e['v'][1], [map_types(x, f) for x in e['v'][2]]))
    return dict(occ=e['occ'], key=k, v=map_types(e['v'], f))


def map_rules(rules, f):
    return [(n, ps, k, map_types(b, f) if k == 'type' else map_e(b, f)) for n, ps, k, b in rules]


def rename_t(m):
    def f(t):
        if t[0] in ('ref', 'unwrap', 'cify'):
            return (t[0], m.get(t[1], t[1]), t[2])
        return t
    return f


def rename_all(rules, m):
    """rename rules everywhere (bare member keys are not names of rules)"""
    def g_(g):
        return [[e_(e) for e in a] for a in g]
    def e_(e):
        if 'g' in e:
            return dict(occ=e['occ'], g=g_(e['g']))
        k = e['key']
        if k is not None and k[0] == 't1':
            k = ('t1', t_(k[1]), k[2])
        return dict(occ=e['occ'], key=k, v=t_(e['v']))
    def t_(t):
        k = t[0]
        if k in ('ref', 'unwrap', 'cify'):
            return (k, m.get(t[1], t[1]), [t_(x) for x in t[2]])
        if k == 'choice':
            return (k, [t_(x) for x in t[1]])
        if k in ('array', 'map', 'cin'):
            return (k, g_(t[1]))
        if k == 'paren':
            return (k, t_(t[1]))
        if k == 'range':
            return (k, t_(t[1]), t_(t[2]), t[3])
        if k == 'ctl':
            return (k, t_(t[1]), t[2], t_(t[3]))
        return t
    return [(m.get(n, n), ps, k, t_(b) if k == 'type' else e_(b)) for n, ps, k, b in rules]


def refactor(r):
    g = new_gen(r, pool=Pool(r, **SMALL), w=dict(re=.3, cbor=.3, ref=3), maxrules=5)
    x = r.random()
    top = (lambda: ('map', g.group(2, 'map'))) if x < .4 else (lambda: ('array', g.group(2, 'array'))) if x < .8 else (lambda: g.type(2))
    s = g.schema(top)
    vals = docs_for(s, g, r, 6)
    if r.random() < .15:                       # a name defined twice: the last one counts
        n = r.choice(s.rules)
        at = r.randint(0, len(s.rules))
        rules = list(s.rules)
        ps = n[1] if r.random() < .6 else r.choice([[], ['p'], ['p', 'q'], ['int-x']])
        dup = (n[0], ps, 'type', r.choice([prel('int'), prel('any'), ('array', [[]])] + [ref(p) for p in ps]))
        if r.random() < .15:
            dup = (n[0], ps, 'group', gent([[ent(prel('int'), ('bare', 'a')), ent(prel('tstr'))]]))
        rules.insert(at, dup)
        lastdef = Schema([q for i, q in enumerate(rules) if all(z[0] != q[0] for z in rules[i + 1:])])
        return agree_case(r, Schema(rules), lastdef, vals)
    rules, rule2 = s.rules, 'top'
    for _ in range(r.choice([1, 1, 2, 3])):
        how = r.choice(['name', 'name', 'paren', 'rename', 'order', 'unused'])
        if how == 'name':
            new = []
            p = r.choice([.15, .4])
            def named(t):
                n = 'nw%d-%d' % (len(rules), len(new))
                new.append((n, [], 'type', t))
                return ref(n)
            def f(t):
                # what an operator is applied to, its argument, the ends of a range
                if t[0] == 'ctl' and t[2] in ('size', 'lt', 'le', 'gt', 'ge'):
                    t = (t[0], named(t[1]) if r.random() < p else t[1], t[2],
                         named(t[3]) if r.random() < p and unparen(t[3])[0] != 'range' else t[3])     # whose ends have to be written out
                elif t[0] == 'ctl' and t[2] == 'cbor' and r.random() < p:
                    t = (t[0], t[1], t[2], named(t[3]))
                elif t[0] == 'range':
                    t = (t[0], named(t[1]) if r.random() < p else t[1], named(t[2]) if r.random() < p else t[2], t[3])
                if t[0] in ('ref', 'unwrap', 'lit', 'prel', 'range', 'ctl', 'array', 'map', 'choice', 'cin', 'cify', 'paren') and r.random() < p and len(new) < 4:
                    return named(t)
                return t
            # a group name stays where it is: only types are moved
            rules = map_rules(rules, f) + new
        elif how == 'paren':
            p = r.choice([.2, .5])
            def par(t):
                return ('paren', t) if r.random() < p and t[0] not in ('paren',) else t
            def f(t):
                if t[0] == 'ctl':
                    t = (t[0], par(t[1]), t[2], par(t[3]))
                return par(t)
            def nopt(t):
                return t
            rules = [(n, ps, k, map_types(b, f) if k == 'type' else map_e(b, f)) for n, ps, k, b in
                     [(n, ps, k, b) for n, ps, k, b in rules]]
            rules = [(n, ps, k, fix_points(b) if k == 'type' else fix_points_e(b)) for n, ps, k, b in rules]
        elif how == 'rename':
            ns = [q[0] for q in rules]
            m = {n: 'zz%d-%s' % (i, n) for i, n in enumerate(ns) if r.random() < .6}
            if r.random() < .3 and len(ns) > 1:         # swap two names
                a, b = r.sample(ns, 2)
                m = {a: b, b: a}
            rules = rename_all(rules, m)
            rule2 = m.get(rule2, rule2)
        elif how == 'order':
            rules = list(rules)
            r.shuffle(rules)
        else:
            rules = list(rules)
            for j in range(r.randint(1, 3)):
                n = 'unused%d-%d' % (len(rules), j)
                rules.insert(r.randint(0, len(rules)), r.choice([(n, [], 'type', ref('nowhere')), (n, [], 'type', prel('int')), (n, ['t'], 'type', ref('t')),
                                                                (n, [], 'group', gent([[ent(prel('int'), ('bare', 'a')), ent(ref('q'))]])), (n, [], 'type', ref(n))]))
    return agree_case(r, s, Schema(rules), vals, rule2=rule2, st2=r.choice([PLAIN, wild(r)]))


def fix_points(t):
    """parentheses are not allowed around range endpoints and around the left side of .regexp/.cbor they change nothing"""
    k = t[0]
    if k == 'range':
        return (k, unparen(t[1]), unparen(t[2]), t[3])
    if k == 'choice':
        return (k, [fix_points(x) for x in t[1]])
    if k in ('array', 'map', 'cin'):
        return (k, [[fix_points_e(e) for e in a] for a in t[1]])
    if k == 'paren':
        return (k, fix_points(t[1]))
    if k in ('ref', 'unwrap', 'cify'):
        return (k, t[1], [fix_points(x) for x in t[2]])
    if k == 'ctl':
        return (k, t[1], t[2], fix_points(t[3]))
    return t


def fix_points_e(e):
    if 'g' in e:
        return dict(occ=e['occ'], g=[[fix_points_e(x) for x in a] for a in e['g']])
    k = e['key']
    if k is not None and k[0] == 't1':
        k = ('t1', fix_points(k[1]), k[2])
    return dict(occ=e['occ'], key=k, v=fix_points(e['v']))


def unparen(t):
    while t[0] == 'paren':
        t = t[1]
    return t


def unwraps(r):
    """~name and its contents in place"""
    ctx = r.choice(['array', 'map'])
    g = new_gen(r, pool=Pool(r, ints=(1, 2), texts=('a', 'b')), w=dict(re=0, cify=.1, cin=.1, size=0, cmp=0), unwrapp=0, maxrules=3,
                json=r.random() < .6, groupp=.3)
    inner = g.group(r.choice([1, 1, 2]), ctx)
    kind = ctx if r.random() < .92 else ('map' if ctx == 'array' else 'array')
    occ = r.choice([None, None, None, '?', '*', '+', '2*3', '*2'])
    def place(e):
        pre = [g.entry(1, ctx)] if r.random() < .4 else []
        post = [g.entry(1, ctx)] if r.random() < .5 else []
        return pre, post
    pre, post = place(None)
    alt = [g.entry(1, ctx) for _ in range(r.randint(1, 2))] if r.random() < .4 else None
    def build(e):
        a = [pre + [e] + post]
        if alt is not None:
            a.append(alt)
        if alt is not None and len(a) > 1 and nest:
            return (ctx, [[gent(a)] + tail])
        return (ctx, a)
    nest = r.random() < .5
    tail = [g.entry(1, ctx)] if r.random() < .4 else []
    how = r.random()
    rules = list(g.rules)
    if how < .6:
        rules.append(('uu', [], 'type', (kind, inner)))
        u = ('unwrap', 'uu', [])
    elif how < .75:
        rules.append(('uu', [], 'type', (kind, inner)))
        rules.append(('ul', [], 'type', ref('uu')))
        u = ('unwrap', 'ul', [])
    else:
        rules.append(('uu', ['t'], 'type', (kind, inner + [])))
        u = ('unwrap', 'uu', [prel('int')])
    s1 = Schema([('top', [], 'type', build(ent(u, None, occ)))] + rules)
    s2 = Schema([('top', [], 'type', build(gent(inner, occ)))] + list(g.rules))
    vals = docs_for(s1, g, r, 10)
    if kind == ctx:
        return agree_case(r, s1, s2, vals)
    return vcase(r, s1.text(), vals)


def unwrap_wrong(r):
    T = ['top = ~a\na = [int]', 'top = {k: ~a}\na = [int]', 'top = [~a]\na = {b: int}', 'top = {~a}\na = [int]', 'top = [~a]\na = int', 'top = {~a}\na = (b: int, c: int)',
         'top = [~a]\na = (int, int)', 'top = {~a => int}\na = [int]', 'top = int / ~a\na = [int]', 'top = [~a / int]\na = [int]', 'top = [k: ~a]\na = [int]',
         'top = [~a]\na = ~b\nb = [int]', 'top = [~a]\na = [int] / [tstr]', 'top = [~a]', 'top = {? ~a, * tstr => any}\na = {b: int, c: int}', 'top = [? ~a, * any]\na = [int, tstr]',
         'top = [(~a // ~b), ? int]\na = [int, tstr]\nb = [int]', 'top = {(~a // ~b), ? c: int}\na = {a: int, b: int}\nb = {a: int}', 'top = {~a, * tstr => any}\na = {? b: int}',
         'top = [* ~a]\na = [int, ? tstr]', 'top = [* ~a]\na = []', 'top = {* ~a}\na = {? b: int}', 'top = [~g<int>]\ng<t> = [t, * t]', 'top = {~g<tstr>}\ng<k> = {* k => int}',
         'top = [~ a]\na = [* int]', 'top = [~a, ~a]\na = [? int]', 'top = [~a, int]\na = [* int]', 'top = [~a]\na = ([int])', 'top = [w]\nw = ~a\na = [int, tstr]',
         'top = {w}\nw = ~a\na = {b: int}', 'top = [w, int]\nw = (~a, ? tstr)\na = [int]', 'top = &(x: ~a)\na = [int]', 'top = bstr .cbor ~a\na = [int]', 'top = {a: int, ~a}\na = {a: int}',
         'top = {~m, b: tstr}\nm = {? b: int}', 'top = {? ~m, b: tstr}\nm = {b: int}', 'top = {(~m // b: tstr)}\nm = {b: int}', 'top = {~a}\na = b\nb = {b: int}', 'top = [~p<l>]\np<t> = t\nl = [int]']
    text = r.choice(T)
    vals = [[], [1], [1, 2], [1, 'a'], ['a'], [1, 'a', 1], [1, 'a', 1, 'b'], [[1]], M([]), M([['b', 1]]), M([['b', 1], ['c', 1]]), M([['b', 'x']]), M([['a', 1]]), M([['a', 1], ['b', 1]]),
            M([['k', [1]]]), 1, 'a', None, M([['b', 1], ['c', 'x']]), b'\x81\x01', M([['a', 1], ['c', 1]])]
    return vcase(r, text + '\n', r.sample(vals, 12))


def names(r):
    """which definition a name means"""
    P = r.choice(['int', 'tstr', 'any', 'nil', 'true', 'bytes', 'uint', 'float16', 'tdate', 'cbor-any', 'mime-message', 'null', 'bool', 'text'])
    near = r.choice([P + '1', P + '-x', P.upper(), '_' + P, P + '_', P[:-1] or 'x', 'x' + P, P + 'er', 'Int', 'TSTR', 'uint8', 'float8', 'time2', 'numbers', 'undefined1', 'bigints', 'encoded', 'eb64'])
    unsupp = r.choice(['time', 'bigint', 'integer', 'unsigned', 'number', 'decfrac', 'bigfloat', 'undefined'])
    body = r.choice([lit(7), prel('tstr'), ('array', [[]]), prel('nil')])
    k = r.randrange(9)
    c = None
    t7 = text_of([('qq', [], 'type', body)]).split('=')[1].strip()
    T = [
        '%s = %s\ntop = %s' % (P, t7, P), '%s = %s\ntop = %s' % (near, t7, near), 'top = %s' % near, 'top = int / %s' % near,
        '%s = %s\ntop = g<%s>\ng<%s> = [%s]' % (P, t7, near, near, near), 'top = g<tstr>\ng<%s> = [%s]' % (P, P),
        'top = int\nunusedx = %s' % unsupp, '%s = int\ntop = %s' % (unsupp, unsupp), 'top = int\nunusedx = [* {a: %s}]' % unsupp,
        'top = int\nunusedx = int .%s 3' % r.choice(['bits', 'eq', 'ne', 'default', 'within', 'and', 'sizes', 'Size', 'l', 'regex', 'cborseq', 'pcre', 'abnf']),
        'top = %s<int>' % P, 'top = [? %s<int>]' % P, 'top = int\nunusedx = %s<3>' % P, 'top = g<int>\ng<t> = [u]\nu = t', 'top = g<int>\ng<t> = [h<t>]\nh<u> = [t, u]',
        'top = [g<int>, g<tstr>]\ng<t> = t', 'top = int / undefd', 'top = undefd / int', 'top = [? undefd]', 'top = {? a: undefd, * tstr => any}', 'top = [int, undefd]', 'top = {undefd}', 'top = {a: int, undefd}',
        'top = [* undefd]', 'top = ~undefd', 'top = [~undefd]', 'top = &undefd', 'top = 1..undefd', 'top = int .lt undefd', 'top = tstr .size undefd', 'top = undefd .size 3', 'top = bstr .cbor undefd', 'top = g<undefd>\ng<t> = int / t',
        'top = g<undefd>\ng<t> = t', 'top = undefd<int>', 'top = {undefd => int}', 'top = {* undefd => int}', 'top = [~%s]' % P, 'top = &%s' % P, 'top = %s..3' % P, 'top = 3..%s' % P, 'top = tstr .size %s' % P, 'top = int .lt %s' % P,
        'top = {%s: %s}' % (P, P), 'top = {%s => int}' % P, 'top = [%s: int]' % P, 'top = {%s: int}' % near, 'top = {%s: 1}\n%s = 2' % (near, near), 'top = {%s => 1}\n%s = "a"' % (near, near),
        'top = TOP\nTOP = int', 'top = Top\ntop = int', 'Top = int\ntop = Top', 'top = a\na = b\nb = c\nc = int', 'top = g<h<int>>\ng<h> = h\nh<g> = [g]', 'a = int\na = tstr\ntop = a', 'a = tstr\ntop = a\na = int',
        'top = int\ntop = tstr', 'top = g<int>\ng<t> = t\ng = int', 'top = g\ng<t> = t\ng = int', 'top = tstr .regexp "a" / %s' % near, 'top = %s / %s' % (unsupp, P), 'top = %s .size 1' % unsupp, 'top = 1..%s' % unsupp,
        'top = g<%s>\ng<t> = int' % unsupp, 'top = ~%s' % unsupp, 'top = &%s' % unsupp, 'top = {%s: int}' % unsupp, 'top = [%s: int]' % unsupp, 'top = {%s => int}' % unsupp, 'top = bstr .cbor %s' % unsupp,
    ]
    text = r.choice(T) if r.random() < .75 else T[r.randrange(13)]
    vals = [0, 7, 'a', None, True, [], [1], [7], ['a'], [[]], M([]), M([['a', 1]]), M([[P, 1]]), M([[near, 1]]), b'a', 1.5, [1, 1], [None], M([[unsupp, 1]]), [[1, 1]], b'\x01', 2, 3]
    c = vcase(r, text + '\n', r.sample(vals, 8))
    c.ev.insert(0, dict(a='build', t=1))
    return c


PRELUDE_ALL = PRELS + ['time', 'bigint', 'integer', 'unsigned', 'number', 'decfrac', 'bigfloat', 'undefined']


def prelude_all(r):
    """every prelude name, alone and in a rule of that name"""
    p = r.choice(PRELUDE_ALL)
    text = r.choice(['top = %s', '%s = 7\ntop = %s', 'top = [* %s]', 'top = {a: %s}', 'x = [%s]\ntop = int', 'top = g<%s>\ng<t> = t', 'top = {%s: 1}', '%s<t> = t\ntop = %s<int>', 'top = %s<int>', 'top = g<tstr>\ng<%s> = %s'])
    text = text.replace('%s', p)
    vals = [0, 7, -1, 'a', None, True, False, [], [1], ['a'], M([]), M([['a', 1]]), M([['a', 'x']]), M([[p, 1]]), b'a', 1.5, [1.5], [None], [True], M([['a', None]]), M([['a', b'']]), [b'']]
    c = vcase(r, text + '\n', r.sample(vals, 10))
    c.ev.insert(0, dict(a='build', t=1))
    return c


# ------------------------------------------------------------------ C23, C28

def session(r):
    """one loaded schema, many calls, failing ones included, several threads"""
    g = new_gen(r, pool=Pool(r, **SMALL), w=dict(cbor=.5, generic=1.5, re=.3), maxrules=6)
    orig = g.leaf
    extra = []
    def leaf():
        return fault(r, extra) if r.random() < .04 else orig()
    g.leaf = leaf
    x = r.random()
    s = g.schema((lambda: ('map', g.group(2, 'map'))) if x < .5 else (lambda: ('array', g.group(2, 'array'))))
    names_ = {q[0] for q in s.rules}
    s = Schema(s.rules + [q for q in extra if q[0] not in names_])
    c = Case()
    t = c.text(s.text())
    c.add('load', h=1, t=t)
    ds = [c.doc(doc(v, r)) for v in docs_for(s, g, r, 4)]
    rs = ['top'] + [q[0] for q in s.rules if not q[1]][:3] + ['nope']
    calls = [(r.choice(rs) if r.random() < .4 else 'top', r.choice(ds)) for _ in range(5)]
    for ru, d in calls:
        c.add('call', h=1, rule=ru, d=d)
    if r.random() < .6:
        c.add('par', h=1, calls=[dict(rule=ru, d=d) for ru, d in calls])
    for ru, d in r.sample(calls, 3):
        c.add(r.choice(['call', 'one']), h=1, rule=ru, d=d, t=t)
    c.add('intact', h=1, t=t)
    for e in c.ev:
        if e['a'] == 'one':
            e.pop('h')
        elif e['a'] == 'call':
            e.pop('t', None)
    return c


def soak(r):
    """one call made over and over, among others"""
    T = [('top = [* u]\nu = int', [[1, 2, 3, 4, 5, 6, 7, 8], ['x'], [1, 'x']]),
         ('top = {? a: u, * tstr => v}\nu = int\nv = u / nil', [M([['a', 1], ['b', None]]), M([['a', 'x']]), M([])]),
         ('top = [t, ? u, w]\nt = g<int>\ng<a> = [a, ? a]\nu = nope\nw = r\nr = r', [[[1], 2], [[1]], [['x']]]),
         ('top = e / [* top]\ne = [0*0 int]\n', [[[[[]]]], [[], [[1]]]]),
         ('top = tstr .regexp "^a+$" / bstr .cbor top / 1...u\nu = 9', ['aaa', 'b', 4, 9, b'\x63aaa'])]
    text, vals = r.choice(T)
    c = Case()
    c.add('load', h=1, t=c.text(text))
    ds = [c.doc(doc(v, r)) for v in vals]
    c.add('call', h=1, rule='top', d=ds[0])
    for _ in range(3):
        c.add('call', h=1, rule='top', d=r.choice(ds), rep=r.choice([60, 300, 3000, 20000]))
        c.add('call', h=1, rule='top', d=ds[0])
    return c


def marathon(r):
    """more than a million references in one context"""
    c = Case()
    c.add('load', h=1, t=c.text('top = [* u]\nu = v\nv = int / nil'))
    d1, d2 = c.doc(doc([1, None, 2] * 12, r)), c.doc(doc([1, 'x'], r))
    c.add('call', h=1, rule='top', d=d2)
    c.add('call', h=1, rule='top', d=d1, rep=20000)
    c.add('call', h=1, rule='top', d=d2)
    c.add('call', h=1, rule='u', d=d1)
    return c


def twins(r):
    """schemas that differ in little, loaded side by side"""
    x = r.random()
    if x < .3:
        p = r.choice(['a', 'ab', '^a', 'a$', '[a-c]', 'a|b', '\\\\w', '\\\\d+', '(ab)+', 'a.c', 'A', '^ab?$', 'a b', 'a{2}', '\\u00e9'])
        def tweak(q):
            return r.choice([q.upper() if '\\' not in q else q, q.lower(), q.swapcase() if '\\' not in q else q, q + ' ', ' ' + q, q + '$', '^' + q, '(' + q + ')',
                             q + '?', q.replace('a', 'b'), q.replace('\\\\w', '\\\\W').replace('\\\\d', '\\\\D')])
        texts = ['top = tstr .regexp "%s"' % q for q in [p] + [tweak(p) for _ in range(3)]]
        vals = ['a', 'A', 'ab', 'AB', 'b', 'a b', 'ab ', ' a', 'abab', 'aa', 'ac', 'a1', '12', '', '_']
    elif x < .6:
        # the same names with other meanings
        T = ['int', 'tstr', 'nil / int', '[int]', '[* b]', '{? k: int}', '{* tstr => b}', '1', '"x"', '1..3', 'int .lt 2', 'tstr .size 1', 'b', '[~b]', '(k: int)', '(b, ? int)', 'h<b>', '&b', 'bstr .cbor b']
        def one():
            h = r.choice(['h<t> = [t]', 'h<t> = t', 'h<t> = {k: t}', 'h<a> = [? a, b]'])
            return 'top = %s\nb = %s\na = %s\n%s' % (r.choice(['a', 'a', '[a]', '[* a]', '{k: a}', '{a => any}', 'a / b', 'h<a>']), r.choice(T[:12]), r.choice(T), h)
        texts = [one() for _ in range(r.randint(2, 4))]
        vals = [1, 2, 'x', 'xy', None, [], [1], [[1]], [1, 1], ['x'], M([]), M([['k', 1]]), M([['k', 'x']]), M([['x', 1]]), [None], b'\x01', M([['k', [1]]])]
    else:
        g = new_gen(r, pool=Pool(r, **SMALL), w=dict(generic=1.5, re=.2), maxrules=5)
        s = g.schema((lambda: ('map', g.group(2, 'map'))) if x < .8 else (lambda: ('array', g.group(2, 'array'))))
        u = s.text()
        texts = [u]
        for _ in range(r.randint(1, 3)):
            a, b = r.choice([('int', 'tstr'), ('tstr', 'int'), ('tstr', 'bstr'), ('*', '+'), ('?', '*'), ('1', '2'), ('2', '3'), ('"a"', '"b"'), ('a', 'A'), (' /', ' //'), ('uint', 'nint'), (':', '=>'), ('..', '...'),
                             ('lt', 'le'), ('nil', 'any'), ('~', ''), ('0', '00'), ('-1', '1'), ('"', "'")])
            spots = [i for i in range(len(u)) if u.startswith(a, i)]
            if spots:
                i = r.choice(spots)
                texts.append(u[:i] + b + u[i + len(a):])
        vals = docs_for(s, g, r, 6)
    c = Case()
    ts = [c.text(u) for u in texts]
    ds = [c.doc(doc(v, r)) for v in r.sample(vals, min(6, len(vals)))]
    for h, t in enumerate(ts):
        c.add('load', h=h + 1, t=t)
    for d in ds:
        for h, t in r.sample(list(enumerate(ts)), len(ts)):
            if r.random() < .25:
                c.add('one', t=t, rule='top', d=d)
            else:
                c.add('call', h=h + 1, rule='top', d=d)
    if r.random() < .3:
        h = r.randrange(len(ts))
        c.add('load', h=h + 1, t=r.choice(ts))
        for d in ds[:3]:
            c.add('call', h=h + 1, rule='top', d=d)
    return c


LONG = [('', 'a = int\n', ''), ('t = [', 'int, ', ']'), ('t = int', ' / int', ''), ('t = [int', ' // int', ']'), ('t = [', 'int\n', ']'),
        ('t = int', ' ', ''), ('t = int ;', '; ', ''), ('t = int', ' ; c\n', ''), ('t = "', 'a', '"'), ("t = h'", '00 ', "'"),
        ("t = b64'", 'AAAA', "'"), ('t = 0.', '0', '1'), ('t = [', '(int, ? b: int) ', ']'), ('t', '-t', ' = int'),
        ('t = a<int', ', int', '>'), ('t = {', 'a: int ', '}'), ('t = {', '? a: [int] / {b: int} ', '}'), ('t = (', '(int) ', ')'),
        ('t = [int', ',', ']'), ('t<a', ', a', '> = int'), ("t = 'a", '\\u0041', "'"), ('t = [', 'a => ', ']'),
        ('t = [(int', ', (int, int)', ')]'), ('', 'a = [b, ? c] ; x\r\n', ''), ('t = {', '* tstr ^ => any, ', '}'),
        ('t = [', '(int) / [(tstr)], ', ']'), ('t = &(', 'a: 1, ', ')'), ('t = 1', ' / 1..2 / a .size 3', ''),
        ('t = [', '"a" => 1 ', ''), ('t = {', '(a: int // b: int) ', ' 0x }'), ('', 'a = [~b<int>] ', '='), ('t = ', '(int) / ', 'int')]


def long_text(r):
    c = Case()
    p, m, q = r.choice(LONG)
    if r.random() < .5:
        m = m * r.randint(1, 3)
    if r.random() < .3:
        m += r.choice([' ', '\n', ';x\n', '  ; y\n '])
    if r.random() < .2:
        q += r.choice([' ', '\n', '\nb = int', ' ; z', '?', ')', '9'])
    if r.random() < .2:
        p = r.choice([' ', '; c\n', 'z = int\n']) + p
    c.add('bulk', p=c.text(p), m=c.text(m), q=c.text(q), n=r.choice([100, 1000, 60000 // max(4, len(m))]))
    return c


def nests(r):
    """nested texts of every kind, put together at random"""
    P = [('(', ')'), ('[', ']'), ('{', '}'), ('(', ', b: int)'), ('(', ' // int)'), ('(int, ', ')'), ('(int // ', ')'), ('{a: ', '}'), ('{a: (', ')}'),
         ('&(', ')'), ('a<', '>'), ('a<int, ', '>'), ('{', ' => int}'), ('{(', ') => int}'), ('{? [', '] ^ => int}'), ('[', ' / int]'), ('(', ' / int)'),
         ('(', ') .. 1'), ('[', ' .. 1]'), ('[int, ', ']'), ('(int / ', ')'), ('{[', '] => [int], * a: {}}'), ('(? (', '))'), ('(~a<', '> .size 1)'),
         ('( ', ' ,)'), ('[* ', ']'), ('(2*3 [', '], "k": 1)'), ('{ "k" : ', '}'), ('((', ') => a)'), ('([', '] ^ => 1)'), ('[ ; c\n', ' ]'), ('&(k: ', ')')]
    k = r.randint(1, 4)
    fs = r.sample(P, k)
    # fewer letters grow faster
    if r.random() < .3:
        fs = [f for f in fs if f[0][0] in '([{'] or fs
    depth = r.choice([20, 40, 60])
    pre, post = '', ''
    for i in range(depth):
        f = fs[i % len(fs)] if r.random() < .97 else r.choice(P)
        pre, post = pre + f[0], f[1] + post
    core = r.choice(['int', 'a: int', '1 => int', '', '?', '* (int // a: 1)', '0x', 'a, b', 'a b', ';', '"', "h'0'", '~a', '1..2', '(', ')', '99999999999999999999'])
    head, tail = r.choice([('t = ', ''), ('t = [', ']'), ('t = {a: 1, ', '}'), ('a = int\nt = ', '\nb = int'), ('t = (', ')'), ('t = ? ', '')])
    if r.random() < .15:
        cut = r.randrange(len(post) + 1)
        post = post[:cut]
    c = Case()
    e = c.text('')
    c.add('bulk', p=c.text(head + pre + core + post + tail), m=e, q=e, n=1)
    return c


def contexts(r):
    """layers, renaming and errors in a context of the caller's own"""
    g = new_gen(r, pool=Pool(r, **SMALL), w=dict(ref=6, generic=2, cify=1, range=1, cmp=1, size=1, re=0, cbor=.3, prel=3), maxrules=7, unwrapp=.2, grefp=.3)
    x = r.random()
    s = g.schema((lambda: ('map', g.group(2, 'map'))) if x < .45 else (lambda: ('array', g.group(2, 'array'))) if x < .9 else (lambda: g.type(3)))
    c = Case()
    rules = list(s.rules)
    # deal the rules out to layers; some names defined in several of them
    nl = r.choice([1, 2, 2, 3])
    layers = [[] for _ in range(nl)]
    for q in rules:
        layers[r.randrange(nl)].append(q)
    for q in rules:
        if r.random() < .25 and nl > 1:
            i = r.randrange(nl)
            if all(z[0] != q[0] for z in layers[i]):
                layers[i].append((q[0], q[1], 'type', r.choice([prel('any'), prel('int'), ('array', [[ent(prel('any'), None, '*')]])])))
    for l in layers:
        if not l:
            l.append(('filler', [], 'type', prel('int')))
    ts = [c.text(text_of(l)) for l in layers]
    ns = [q[0] for q in rules]
    rename, errs = {}, {}
    if r.random() < .4:
        for _ in range(r.randint(1, 2)):
            rename[r.choice(ns + ['ghost'])] = r.choice(ns + ['gone'])
    if r.random() < .4:
        errs[r.choice(ns)] = r.choice(['structural', 'unsupported', 'value', 'generic', 'missing'])
    c.add('custom', h=1, layers=ts, rename=rename, errs=errs)
    for v in docs_for(s, g, r, 6):
        c.add('call', h=1, rule='top' if r.random() < .8 else r.choice(ns + ['nope', 'ghost']), d=c.doc(doc(v, r)))
    return c


def context_spots(r):
    """the context asked in every position a name can stand; prelude and parameter names never asked"""
    T = ['top = a', 'top = [a]', 'top = [* a]', 'top = {k: a}', 'top = {a => any}', 'top = {* a => any}', 'top = a / nil', 'top = nil / a', 'top = [~a]', 'top = {~a}', 'top = &a', 'top = {&a}', 'top = [a // int]',
         'top = 0..a', 'top = a..9', 'top = int .lt a', 'top = a .ge 0', 'top = tstr .size a', 'top = a .size 2', 'top = bstr .cbor a', 'top = g<a>\ng<t> = [t]', 'top = g<a>\ng<t> = [int, ? t]', 'top = g<int>\ng<a> = [a]',
         'top = g<int>\ng<t> = a', 'top = [? a, int]', 'top = {? k: a, * tstr => any}', 'top = {a}', 'top = [(a, ? int)]', 'top = &(x: a, y: int)', 'top = [2*3 a]', 'top = int\nint = a', 'top = a<int>', 'top = [b]\nb = (a, ? nil)',
         'top = g<int>\ng<t> = h<t>\nh<u> = [t, u]', 'top = g<tstr>\ng<int> = [int]', 'top = {k: (a)}', 'top = g<a>\ng<t> = int .lt t', 'top = g<a>\ng<t> = [~t]', 'top = {a ^ => any}']
    D = ['a = int', 'a = 3', 'a = tstr', 'a = [int]', 'a = {k: int}', 'a = (x: 1, y: 2)', 'a = (k: int, ? j: int)', 'a<t> = [t]', 'a = b\nb = int', 'a = nope', 'a = "k"', 't = 5\nu = 6\nint = 7']
    c = Case()
    top, d = r.choice(T), r.choice(D)
    lay = [top, d]
    if r.random() < .3:
        lay.insert(r.randint(0, 2), r.choice(D))
    if r.random() < .3:
        lay = [top + '\n' + d]
    ts = [c.text(q + '\n') for q in lay]
    x = r.random()
    rename = {} if x < .7 else {'a': r.choice(['b', 'zz', 'a', 'top2', 'int'])}
    errs = {} if r.random() < .7 else {r.choice(['a', 'a', 'b', 'g', 'int', 't', 'top']): r.choice(['structural', 'unsupported', 'value', 'generic', 'missing'])}
    c.add('custom', h=1, layers=ts, rename=rename, errs=errs)
    vals = [0, 3, 'a', 'ab', None, [], [1], [3], ['a'], [1, 1], [[1]], M([]), M([['k', 1]]), M([['k', 3]]), M([['k', [1]]]), b'\x01', b'\x03', 9, M([[3, 1]]), M([['a', 1]]), M([['k', 1], ['j', 1]])]
    for v in r.sample(vals, 8):
        c.add('call', h=1, rule='top', d=c.doc(doc(v, r)))
    return c


# ------------------------------------------------------------------ C26

def any_profile(r):
    return r.choice([arrays, maps, cuts, choices, generics, ranges, compare, sizes, cbors, regexps, preludes, numbers, precedence, literals,
                     unwraps, names, faults, fault_spots, orderings])(r)


def feature(r):
    c = any_profile(r)
    if r.random() < .3:
        c.ev.insert(0, dict(a='parse', t=1))
        c.ev.insert(0, dict(a='build', t=1))
    return c


def cbor_reach(r):
    """.cbor reached or not"""
    T = ['top = bstr .cbor int', 'top = int / bstr .cbor int', 'top = [? bstr .cbor int, * any]', 'top = {? a: bstr .cbor any}', 'top = [* int, ? bstr .cbor any]', 'top = {* bstr .cbor int => any, * any => any}',
         'top = any / bstr .cbor int', 'top = [a]\na = bstr .cbor tstr', 'top = g<bstr .cbor int>\ng<t> = nil / t', 'top = {a: bstr .cbor any // b: int}', 'top = bstr / bstr .cbor int', 'top = [k: bstr .cbor int]', 'top = (tstr / (bstr .cbor int))']
    vals = [1, 'a', b'\x01', b'\xff', None, [], [1], [b'\x01'], ['a'], M([]), M([['a', 1]]), M([['a', b'\x01']]), M([['b', 1]]), [1, b'\x01'], b'', M([[b'\x01', 1]])]
    return vcase(r, r.choice(T) + '\n', r.sample(vals, 10))


# ------------------------------------------------------------------ C30, C31

def pointed(r):
    """what errors in texts point at"""
    c = r.choice([literals, no_crash, grammar_broken, soup, tiny_exact])(r)
    c.ev = [dict(a='where', t=t + 1) for t in range(len(c.texts))]
    c.docs = []
    return c


def lost(r):
    """names that are not there, led to in all ways"""
    T = ['top = @', 'top = [@]', 'top = [* @]', 'top = {k: @}', 'top = {@ => any}', 'top = nil / @', 'top = [~@]', 'top = {~@}', 'top = &@', 'top = {&@}',
         'top = [nil // @]', 'top = 0..@', 'top = @..9', 'top = int .lt @', 'top = @ .ge 0', 'top = tstr .size @', 'top = bstr .cbor @', 'top = g<@>\ng<t> = [t]',
         'top = g<@, nil>\ng<t, u> = [u, ? t] / t', 'top = a\na = b\nb = [? @, any]', 'top = g<int>\ng<t> = @ / t', 'top = g<int>\ng<t> = @<t>', 'top = @<@2>', 'top = {? a: @, * tstr => @2}',
         'top = [@, @2] / @3', 'top = &(x: @, y: @2)', 'top = g<h<@>>\ng<t> = [t]\nh<t> = t / nil', 'top = {* @ => any, "k" => @2}', 'top = (@)', 'top = [2*3 @]', 'top = g<@>\ng<t> = {? t => any} / [~t]',
         'top = [a, b]\na = int\nb = @ / int', 'top = bstr .cbor [@]', 'top = g<@>\ng<t> = h<t>\nh<t> = {k: t}', 'top = {@2 ^ => @}', 'top = @ .size 3', 'top = [x: @]']
    ns = ['a', 'zz', 'Int', 'text2', 'x-y', 'a.b', '$s', '_', 'top2', 'topp', 'to', 't', 'u', 'toplevel', 'e'] + ['n%d' % k for k in range(8)]
    t = r.choice(T)
    used = set(re.findall(r'[a-z]+', t)) - {'at'}
    ns = [n for n in ns if n not in used]
    r.shuffle(ns)
    for k in (3, 2):
        t = t.replace('@%d' % k, ns[k])
    t = t.replace('@', ns[0])
    vals = [1, 'k', None, [], [1], [1, 2], ['a'], M([]), M([['k', 1]]), M([['a', 1]]), b'\x01', b'\x81\x01', [None, 1], M([['b', 'x']]), 'abc']
    return vcase(r, t + '\n', r.sample(vals, 9), rule=r.choice(['top'] * 9 + ['nope', 'Top', 'g', 'k']))


def trees(r):
    """the trees built from all kinds of texts"""
    f = r.choice([arrays, maps, cuts, choices, generics, ranges, compare, sizes, cbors, regexps, preludes, literals, unwraps, names, faults, fault_spots, grammar,
                  refactor, spacing, slices, occurrences, cify, generic_scopes, prelude_all, contexts, grammar_broken])
    c = f(r)
    c.ev = [dict(a='tree', t=t + 1) for t in range(len(c.texts))]
    c.docs = []
    return c


# ------------------------------------------------------------------ table

PROFILES = {
    'C01': one_of((4, arrays), (4, arrays_small), (1, not_container), (1, rewinds)),
    'C02': one_of((3, maps), (3, maps_small), (3, odd_keys), (1, not_container)),
    'C03': rewinds,
    'C04': one_of((400, occurrences), (80, rewinds), (1, occurrences_long)),
    'C05': one_of((5, cuts), (1, maps_small)),
    'C06': one_of((4, choices), (8, cify), (1, choices_wide)),
    'C07': one_of((3, faults), (4, fault_spots)),
    'C08': one_of((3, generics), (2, generic_scopes)),
    'C09': one_of((4, depth_chain), (2, depth_points), (3, recursion), (1, completed)),
    'C10': ranges,
    'C11': compare,
    'C12': sizes,
    'C13': one_of((3, cbors), (1, cbor_top)),
    'C14': regexps,
    'C15': preludes,
    'C16': one_of((3, routes), (2, precedence), (2, numbers)),
    'C17': one_of((3, grammar), (3, grammar_broken), (2, soup), (3, tiny_exact)),
    'C18': one_of((3, spacing), (2, comments)),
    'C19': literals,
    'C20': no_crash,
    'C29': one_of((5, nests), (1, long_text)),
    'C21': slices,
    'C22': refactor,
    'C23': one_of((10, session), (8, twins), (.5, soak)),
    'C24': one_of((3, unwraps), (2, unwrap_wrong)),
    'C25': one_of((3, names), (2, prelude_all)),
    'C26': one_of((4, feature), (1, cbor_reach)),
    'C27': one_of((2, orderings), (2, dup_search)),
    'C28': one_of((2, contexts), (3, context_spots)),
    'C30': one_of((3, lost), (2, pointed), (2, contexts), (2, context_spots), (1, faults), (1, fault_spots), (1, session), (1, precedence)),
    'C31': trees,
    'C32': lambda r: hand.hands(Case(), r),
    'C33': lambda r: hand.asts(Case(), r),
    'C34': lambda r: hand.datas(Case(), r),
    'C35': lambda r: hand.orders(Case(), r),
    'C36': lambda r: hand.nodes(Case(), r),
    'C37': one_of((8, mixed_nest), (1, maps_small), (1, arrays_small)),
}


# cases every run has
FIRST = {
    'C04': [lambda r, o=o, k=k: occurrences_long(r, 300, o, k) for o in ('*', '+', '1*', '*300', '300*300', '*299', '301*') for k in (0, 1)],
    'C23': [marathon],
}


def cases(prop, seed, n):
    r = random.Random('%s/%s' % (prop, seed))
    f = PROFILES[prop]
    out = []
    seen = set()
    tries = 0
    while len(out) < n and tries < 4 * n:
        tries += 1
        first = FIRST.get(prop, ())
        c = first[tries - 1](r) if tries <= len(first) else f(r)
        if sum(len(t) for t in c.texts) > 3000:
            continue
        o = c.out()
        if any('json' in d and not json_exact(d['json']) for d in o['docs']):
            continue
        k = repr(o)
        if k in seen:
            continue
        seen.add(k)
        o['id'] = len(out) + 1
        out.append(o)
    return out


if __name__ == '__main__':
    import sys, json
    for c in cases(sys.argv[1], sys.argv[2], int(sys.argv[3])):
        print(json.dumps(c, ensure_ascii=False))
