"""Random schemas."""
from cddl import (M, Pool, PREL_KIND, Sampler, Schema, ent, gent, lit, mutate, prel, ref, doc, to_cbor)

RULE_NAMES = ['a1', 'b1', 'c1', 'foo', 'bar', 'baz', 'x', 'y', 'item', 'list', 'entry', 'a-b', 'a.b', '_u', '$s', '@q',
              'int-x', 'uints', 'tstr2', 'h', 'b64', 'size', 'Foo', 'a-1', 'e', 'true-ish', 'x0', 'nill', 'cbor', 'e1']

REGEXES = ['a', '^a', 'b$', '^ab?$', 'a.b', '[abc]+', '^[a-c]*$', 'a|b', '^(ab)+$', '\\d+', '^\\d{2,3}$', '^$', '',
           '[^a]', 'a{2}', '(a|b)c', '^a.*b$', '\\w', '\\.', '[0-9]{1,2}:[0-9]{2}', 'x*', '^(?:a|bc)$', 'a+?b',
           '^[^b]+$', '\u00e9', '^.$', '\\s', 'a\\+', '^\\D$']

DEF_W = dict(lit=6, prel=6, ref=2, choice=2, array=2, map=2, paren=1, range=.5, cmp=.3, size=.3, cbor=0, re=.2,
             cify=.3, cin=.3, generic=0)


class Gen:
    def __init__(self, r, pool=None, w=None, kinds=('int', 'int', 'text', 'bool', 'nil'),
                 prels=('int', 'uint', 'tstr', 'bool', 'any', 'nil', 'float'), occs=None, maxrules=6,
                 json=False, arrays=True, maps=True, cutp=.5, occp=.45, groupp=.25, choicep=.2, unwrapp=.12,
                 grefp=.15, recursive=.15, wide=3, emptyg=.08):
        self.r = r
        self.pool = pool or Pool(r)
        self.w = dict(DEF_W)
        self.w.update(w or {})
        if not arrays:
            self.w['array'] = 0
        if not maps:
            self.w['map'] = 0
        self.kinds, self.prels = kinds, prels
        self.occs = occs or ['?', '*', '+', '?', '*', '+', '2*3', '1*', '*2', '2*2', '0*1', '*1', '0*', '1*1']
        self.rules, self.names = [], list(RULE_NAMES)
        r.shuffle(self.names)
        self.maxrules = maxrules
        self.open = []              # names of container rules being written
        self.parms = []             # parameters in scope
        self.cutp, self.occp, self.groupp, self.choicep = cutp, occp, groupp, choicep
        self.unwrapp, self.grefp, self.recursive, self.wide, self.emptyg = unwrapp, grefp, recursive, wide, emptyg
        self.json = json

    def pick(self, d):
        ks = [k for k in d if d[k] > 0]
        return self.r.choices(ks, [d[k] for k in ks])[0]

    # -------------------------------------------------- rules
    def fresh(self):
        return self.names.pop() if self.names else 'r%d' % len(self.rules)

    def room(self):
        return len(self.rules) + len(self.open) < self.maxrules

    def new_rule(self, kind, make, parms=()):
        n = self.fresh()
        self.open.append(n)
        keep, self.parms = self.parms, list(parms)
        body = make()
        self.parms = keep
        self.open.remove(n)
        self.rules.append((n, list(parms), kind, body))
        return n

    def existing(self, pred):
        c = [x for x in self.rules if pred(x)]
        return self.r.choice(c) if c else None

    def schema(self, top):
        """top(): the entry rule's type"""
        t = top()
        self.rules.insert(0, ('top', [], 'type', t))
        rest = self.rules[1:]
        self.r.shuffle(rest)
        if self.r.random() < .5:
            self.rules = [self.rules[0]] + rest
        else:
            self.rules = rest + [self.rules[0]]
        return Schema(self.rules)

    # -------------------------------------------------- types
    def literal(self):
        return lit(self.pool.kind(self.r.choice(self.kinds)))

    def leaf(self):
        x = self.r.random()
        if self.parms and x < .4:
            return ref(self.r.choice(self.parms))
        k = self.pick({k: self.w[k] for k in ('lit', 'prel', 'range', 'cmp', 'size', 're')})
        return getattr(self, 't_' + k)(1)

    def type(self, d):
        if d <= 0:
            return self.leaf()
        if self.parms and self.r.random() < .3:
            return ref(self.r.choice(self.parms))
        k = self.pick(self.w)
        return getattr(self, 't_' + k)(d)

    def t_lit(self, d):
        return self.literal()

    def t_prel(self, d):
        return prel(self.r.choice(self.prels))

    def t_ref(self, d):
        r = self.r
        if self.open and r.random() < self.recursive:
            return ref(r.choice(self.open)) if not self.parms else self.leaf()
        e = self.existing(lambda x: x[2] == 'type' and not x[1])
        if e and (r.random() < .4 or not self.room()):
            return ref(e[0])
        if not self.room():
            return self.leaf()
        return ref(self.new_rule('type', lambda: self.type(d - 1)))

    def t_choice(self, d):
        n = self.r.choice([2, 2, 3])
        return ('choice', [self.type(d - 1) for _ in range(n)])

    def t_array(self, d):
        return ('array', self.group(d - 1, 'array'))

    def t_map(self, d):
        return ('map', self.group(d - 1, 'map'))

    def t_paren(self, d):
        return ('paren', self.type(d - 1))

    def t_range(self, d):
        r = self.r
        if r.random() < .3:
            a, b = r.choice(self.pool.floats), r.choice(self.pool.floats)
        else:
            a, b = r.choice(self.pool.ints), r.choice(self.pool.ints)
        if a > b and r.random() < .8:
            a, b = b, a
        return ('range', self.point(a), self.point(b), r.random() < .5)

    def point(self, v):
        if self.room() and self.r.random() < .2:
            return ref(self.new_rule('type', lambda: lit(v)))
        return lit(v)

    def t_cmp(self, d):
        r = self.r
        return ('ctl', prel(r.choice(['int', 'uint', 'nint'])), r.choice(['lt', 'le', 'gt', 'ge']),
                self.point(r.choice(self.pool.ints)))

    def t_size(self, d):
        r = self.r
        t = prel(r.choice(['tstr', 'uint'] if self.json else ['tstr', 'bstr', 'uint']))
        a, b = sorted([r.randint(0, 4), r.randint(0, 4)])
        if r.random() < .6 or a == b:
            return ('ctl', t, 'size', lit(b))
        return ('ctl', t, 'size', ('range', lit(a), lit(b), r.random() < .5))

    def t_re(self, d):
        return ('ctl', prel('tstr'), 'regexp', lit(self.r.choice(REGEXES)))

    def t_cbor(self, d):
        return ('ctl', prel('bstr'), 'cbor', self.type(d - 1))

    def t_cin(self, d):
        return ('cin', [[self.member(d - 1, 'map' if self.r.random() < .5 else 'array', occ=False)
                         for _ in range(self.r.randint(1, 3))]])

    def t_cify(self, d):
        e = self.existing(lambda x: x[2] == 'group' and not x[1] and 'g' in x[3] and len(x[3]['g']) == 1
                          and not x[3]['occ'])
        if e and self.r.random() < .5:
            return ('cify', e[0], [])
        if not self.room():
            return self.leaf()
        n = self.new_rule('group', lambda: gent([[self.member(d - 1, 'map', occ=False)
                                                  for _ in range(self.r.randint(2, 3))]]))
        return ('cify', n, [])

    def t_generic(self, d):
        r = self.r
        e = self.existing(lambda x: x[2] == 'type' and x[1])
        if e is None or (self.room() and r.random() < .5):
            if not self.room():
                return self.leaf()
            ps = r.sample(['t', 'k', 'v', 'foo', 'item', 'x', 'T-1'], r.choice([1, 1, 2]))
            self.new_rule('type', lambda: self.type(d), ps)
            e = self.rules[-1]
        return ref(e[0], *[self.argument(d - 1) for _ in e[1]])

    def argument(self, d):
        t = self.type(min(d, 1))
        return ('paren', t) if t[0] == 'choice' else t

    # -------------------------------------------------- groups
    def group(self, d, ctx, width=None):
        r = self.r
        if r.random() < self.emptyg:
            return [[]]
        alts = 1
        if r.random() < self.choicep:
            alts = r.choice([2, 2, 3])
        return [self.alt(d, ctx) for _ in range(alts)]

    def alt(self, d, ctx):
        r = self.r
        n = r.randint(1, self.wide)
        if r.random() < .03:
            n = 0
        return [self.entry(d, ctx) for _ in range(n)]

    def occ(self):
        return self.r.choice(self.occs) if self.r.random() < self.occp else None

    def entry(self, d, ctx):
        r = self.r
        x = r.random()
        if d > 0 and x < self.groupp:
            return gent(self.group(d - 1, ctx), self.occ())
        x = r.random()
        if d > 0 and x < self.grefp:
            e = self.existing(lambda q: q[2] == 'group' and not q[1] and q[0] in self.gctx and self.gctx[q[0]] == ctx)
            if e and (r.random() < .5 or not self.room()):
                return ent(ref(e[0]), None, self.occ())
            if self.room():
                n = self.new_rule('group', lambda: gent(self.group(d - 1, ctx)))
                self.gctx[n] = ctx
                return ent(ref(n), None, self.occ())
        elif d > 0 and x < self.grefp + self.unwrapp and self.room():
            other = r.random() < .08
            n = self.new_rule('type', lambda: (('map' if (ctx == 'map') != other else 'array'),
                                               self.group(d - 1, ctx if not other else ('array' if ctx == 'map' else 'map'))))
            return ent(('unwrap', n, []), None, self.occ())
        return self.member(d, ctx)

    gctx = None

    def member(self, d, ctx, occ=True):
        r = self.r
        o = self.occ() if occ else None
        if ctx == 'array':
            k = None
            if r.random() < .25:
                k = self.key(ctx)
            return ent(self.type(d), k, o)
        return ent(self.type(d), self.key(ctx), o)

    def key(self, ctx):
        r = self.r
        x = r.random()
        texts = [t for t in self.pool.texts if t and t[0].isalpha() and t.isascii() and t.isalnum()] or ['a']
        if x < .4:
            return ('bare', r.choice(texts))
        if x < .55:
            return ('val', lit(r.choice(self.pool.texts)))
        if x < .6 and not self.json:
            return ('val', lit(r.choice(self.pool.ints)))
        cut = r.random() < self.cutp
        if x < .7:
            return ('t1', lit(r.choice(self.pool.texts if self.json or r.random() < .7 else self.pool.ints)), cut)
        if x < .9:
            t = prel('tstr') if self.json or r.random() < .7 else prel(r.choice(['int', 'uint', 'any', 'bool']))
            if self.w['re'] and r.random() < .1:
                t = self.t_re(1)
            return ('t1', t, cut)
        t = self.type(1)
        return ('t1', ('paren', t) if t[0] == 'choice' else t, cut)


def new_gen(r, **kw):
    g = Gen(r, **kw)
    g.gctx = {}
    return g


def docs_for(schema, gen, r, n, rule='top', form=None, mut=.6):
    s = Sampler(schema, gen.pool, r)
    out = []
    for _ in range(n):
        try:
            v = s.rule(rule)
        except RecursionError:
            v = gen.pool.value()
        k = 0
        while r.random() < mut and k < 3:
            v = mutate(v, gen.pool, r)
            k += 1
        out.append(v)
    return out
