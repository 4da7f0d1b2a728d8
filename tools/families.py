"""The specification's own cases: TLC walks through a family of spec/Space.tla
and says what each result has to be (spec/Enum.tla); the real code is asked."""
import json
import re

CASE = re.compile(r'<<"(CASE|DOCS)", (".*")>>')

# family -> stride in the quick tier (1: the whole family), by property
PLAN = {
    'C01': {'arr1': 1, 'arr2': 1, 'arr2r': 3, 'growA': 11, 'nearv@1-3': 9, 'nearv@9-9': 7, 'nearv@21-21': 7, 'kinds@1-28': 31},
    'C02': {'deep': 41, 'map2': 2, 'map3': 1, 'growM': 19, 'dupj': 10, 'nearv@4-8': 13, 'nearv@20-20': 7, 'nearv@22-22': 13, 'kinds@29-67': 37},
    'C03': {'deep': 41, 'arr3': 1, 'map22': 450, 'growA': 29, 'growM': 61, 'nearv@2-3': 13, 'nearv@5-6': 13, 'kinds@12-24': 41, 'kinds@46-61': 53},
    'C04': {'arr1': 1, 'arr2r': 1, 'map2': 3, 'growA@3-5': 3, 'growA@12-14': 5, 'growM@6-6': 3, 'nearv@1-4': 17, 'kinds@2-9': 23, 'kinds@14-24': 41, 'kinds@34-36': 23},
    'C05': {'map3': 1, 'map2': 2, 'growM@3-5': 5, 'growM@13-15': 5, 'nearv@6-7': 7, 'kinds@30-33': 11, 'kinds@40-41': 11, 'kinds@48-67': 37},
    'C06': {'err': 1, 'arr3': 1, 'growR@1-3': 5, 'growR@10-12': 5, 'growA@6-6': 4, 'growM@9-10': 9, 'nearv@12-14': 11, 'kinds@12-18': 37, 'kinds@60-64': 23, 'kinds@70-74': 23, 'kinds@96-103': 23},
    'C07': {'err': 1, 'nearv': 61, 'kinds': 79},
    'C08': {'deep': 41, 'gen': 1, 'growR@4-4': 2, 'growR@13-14': 3, 'nearv@10-11': 7, 'kinds@75-81': 17, 'kinds@66-67': 11, 'kinds@28-28': 7},
    'C09': {'deep': 31, 'rec': 1, 'growR@5-6': 2, 'growR@13-14': 5, 'growA@12-12': 3, 'growM@13-13': 3},
    'C10': {'range': 1, 'num': 2, 'growV@8-10': 4, 'nearv@15-15': 5, 'kinds@93-95': 7},
    'C11': {'num': 1, 'growV@9-9': 2, 'nearv@17-17': 5, 'kinds@87-88': 11, 'kinds@92-92': 3},
    'C12': {'num': 2, 'sizer': 3, 'growV@4-5': 2, 'growV@11-11': 2, 'chars': 40, 'bys': 20, 'nearv@16-16': 5, 'kinds@86-89': 13},
    'C13': {'err': 2, 'cbw': 1, 'growV@12-14': 2, 'nearv@19-19': 5, 'kinds@84-85': 7, 'kinds@91-91': 3},
    'C14': {'rx': 1, 'growV@6-7': 3, 'chars': 40, 'nearv@18-18': 5, 'kinds@90-90': 5},
    'C15': {'num': 2, 'prel': 1, 'growV@1-3': 2, 'chars': 40, 'bys': 20, 'kinds@68-74': 17},
    'C16': {'cbor3': 4, 'json': 1, 'jsonc': 4, 'chars': 50, 'growA@10-10': 3, 'growM@8-8': 3, 'nearv@20-23': 31, 'kinds': 401},
    'C17': {'tok': 25, 'growP': 3, 'near': 23},
    'C18': {'tok': 25, 'growP@15-16': 1, 'growP@25-26': 1, 'growP@8-8': 1, 'near': 29},
    'C19': {'lnum': 4, 'lbig': 1, 'ltxt': 1, 'lhex': 1, 'lb64': 10, 'growP': 2},
    'C20': {'tok': 25, 'ltxt': 4, 'growP': 1, 'near': 23},
    'C21': {'src+slices': 12, 'tok+slices': 60, 'growP+slices': 7, 'near+slices': 31},
    'C22': {'rec': 1, 'gen': 2, 'defs': 1, 'growR@5-10': 7, 'growR@15-15': 3, 'nearv': 67, 'kinds@82-83': 11},
    'C24': {'deep': 41, 'unw': 1, 'growA@16-16': 2, 'nearv@8-9': 7, 'kinds@101-106': 17, 'kinds@23-24': 11, 'kinds@58-59': 11},
    'C25': {'prel': 1, 'defs': 2, 'growR@9-9': 2, 'nearv': 71, 'kinds': 307},
    'C26': {'err': 12, 'prel': 6, 'tok': 240, 'rec': 12, 'num': 12, 'range': 12, 'cbw': 32, 'json': 20, 'growP': 40, 'chars': 400, 'kinds': 2003, 'growR@5-6': 1, 'growR': 7, 'growV': 5, 'nearv': 401, 'growA': 61, 'growM': 61},
    'C27': {'cbor3': 4, 'json': 2, 'dupj': 3, 'dupc': 15, 'growM@1-2': 7, 'growM@11-12': 5, 'kinds@29-67': 211},
    'C28': {'rec+own': 1, 'gen+own': 1, 'unw+own': 2, 'err+own': 4, 'prel+own': 2, 'defs+own': 4, 'growR+own': 37, 'nearv+own': 67, 'kinds+own': 151},
    'C29': {'nest': 16, 'nestg': 16, 'long': 1},
    'C30': {'err': 2, 'gen': 2, 'rec': 3, 'unw': 2, 'prel': 2, 'defs': 2, 'growR': 7, 'nearv': 101, 'rec+own': 3, 'lnum+where': 9, 'lbig+where': 2,
            'ltxt+where': 2, 'lhex+where': 2, 'lb64+where': 41, 'tok+where': 61, 'near+where': 41, 'growP+where': 7, 'kinds': 211},
    'C32': {'hand': 41, 'handw': 1},
    'C33': {'ast': 7},
    'C35': {'cmp': 1},
    'C36': {'node': 1},
    'C37': {'deep': 6},
    'C34': {'cbor3+value': 8, 'json+value': 4, 'jsonc+value': 40, 'dupj+value': 3, 'dupc+value': 7, 'chars+value': 40, 'bys+value': 20, 'growM+value': 5, 'growA+value': 11, 'nearv@20-23+value': 61},
    'C31': {'err+tree': 1, 'gen+tree': 1, 'unw+tree': 2, 'prel+tree': 1, 'defs+tree': 1, 'near+tree': 31, 'nearv+tree': 23, 'map3+tree': 3, 'arr3+tree': 1, 'num+tree': 2,
            'range+tree': 2, 'sizer+tree': 9, 'rx+tree': 3, 'lnum+tree': 9, 'ltxt+tree': 2, 'lhex+tree': 2, 'tok+tree': 61, 'growR+tree': 5, 'growA+tree': 11, 'growM+tree': 11, 'kinds+tree': 41},
}
# the small-step machine (spec/Machine.tla), with its strides in the quick tier
MACHINES = {
    'C01': {'arr2': 16}, 'C02': {'map2': 150}, 'C03': {'arr22': 4000, 'map22': 60000}, 'C04': {'arr1': 3, 'map2': 200},
    'C05': {'map3': 60, 'kinds': 9001}, 'C06': {'arr3': 20}, 'C07': {'err': 30, 'kinds': 9001}, 'C08': {'gen': 25}, 'C09': {'rec': 30},
    'C13': {'err': 60}, 'C24': {'unw': 20, 'kinds': 20000},
}
# random walks through the session (spec/History.tla) in the quick tier
HISTORIES = {'C23': 4000, 'C28': 4000, 'C30': 2000}
# families worth more than their quick share, for the thorough tier
DEEP = {
    'C37': ['deep'],
    'C01': ['arr2r', 'arr3', 'arr22', 'growA', 'kinds'], 'C02': ['map2', 'map22', 'growM', 'kinds'], 'C03': ['map22', 'arr22', 'kinds'], 'C04': ['arr22', 'map2'],
    'C05': ['map22', 'kinds'], 'C12': ['sizer', 'num', 'chars', 'bys', 'kinds'], 'C13': ['cbw', 'growV@12-14'], 'C14': ['rx4', 'chars'], 'C15': ['chars', 'bys', 'growV'],
    'C22': ['nearv', 'defs', 'growR', 'kinds'], 'C08': ['growR', 'gen', 'kinds'], 'C09': ['growR', 'rec'], 'C06': ['growR', 'err', 'kinds'], 'C16': ['cbor3', 'cbor2', 'jsonc'],
    'C17': ['tok', 'near', 'tok4'], 'C18': ['near', 'tok'], 'C19': ['lnum', 'lb64'], 'C20': ['near', 'tok', 'tok4', 'growP'], 'C27': ['cbor2', 'cbor3', 'dupj', 'dupc', 'growM'], 'C29': ['nest', 'nestg'], 'C21': ['src+slices', 'near+slices', 'tok+slices'], 'C28': ['kinds+own', 'nearv+own', 'map2+own', 'arr2+own', 'err+own'],
    'C07': ['nearv', 'err', 'kinds'], 'C10': ['range', 'nearv@15-15'], 'C11': ['num', 'nearv@17-17'], 'C24': ['unw', 'nearv@8-9'], 'C25': ['nearv', 'prel', 'kinds'],
    'C32': ['hand', 'handw'], 'C33': ['ast'], 'C35': ['cmp'], 'C36': ['node'], 'C34': ['cbor2+value', 'cbor3+value', 'json+value', 'jsonc+value', 'dupc+value', 'chars+value', 'growM+value'],
    'C30': ['kinds', 'nearv', 'err', 'gen', 'near+where', 'tok+where'], 'C31': ['kinds+tree', 'near+tree', 'nearv+tree', 'tok+tree', 'map2+tree', 'arr22+tree'],
}

# Wide, by kinds of shapes
WIDE = {
    'C01': '1-12 53 55-56 72 77', 'C02': '13-19 54 72-76', 'C03': '8-12', 'C04': '2-6 12 14', 'C05': '15-16 45 51 71', 'C06': '9 18 20-21 46 69 72', 'C07': '68-70', 'C08': '25 66', 'C10': '49', 'C11': '48',
    'C12': '28-30 35', 'C13': '34', 'C14': '31 50', 'C15': '26-27 38 41 57-60', 'C16': '17 41-43 53 60-61 67', 'C17': '36-40', 'C18': '36-37', 'C19': '26-27 32-33 38-39 58 62-63', 'C20': '22 24 36-39 64',
    'C22': '10 22-24 40 65', 'C24': '47', 'C25': '22 24 40 64-65', 'C27': '13 15 17 19 54 67', 'C29': '7 15 20 22-26 32 36-40', 'C09': '22 52', 'C37': '1-77', 'C34': '17 19 26 35 41-43 53-57 59-62 67',
}
for _p, _s in WIDE.items():
    _f = 'wide@' + _s.replace(' ', '.')
    PLAN[_p][_f] = 4
    DEEP.setdefault(_p, []).append(_f)


def points(tlc, counts, ToolError, unquote, cfg, family, stride, offset, limit, mode=''):
    """(header, [case]) of one residue class of a family"""
    fam, _, part = family.partition('@')
    env = {'FAMILY': fam, 'STRIDE': str(stride), 'OFFSET': str(offset)}
    if part:                            # family@lo-hi or @lo-hi.lo-hi: part of the first dimension
        rs = [tuple(map(int, (r + '-' + r).split('-')[:2])) for r in part.split('.')]
        env['LO'], env['HI'] = str(min(r[0] for r in rs)), str(max(r[1] for r in rs))
        if len(rs) > 1:
            env['PICK'] = ''.join('01'[any(r[0] <= i <= r[1] for r in rs)] for i in range(1, max(r[1] for r in rs) + 1))
    if mode == 'tree':
        env['TREES'] = '1'
    if mode == 'value':
        env['VALUES'] = '1'
    out = tlc(cfg, 'Enum.tla', env, limit=limit)
    if 'Model checking completed. No error' not in out:
        raise ToolError('TLC failed on family %s\n%s' % (family, out[-4000:]))
    head, cases = None, []
    for m in CASE.finditer(out):
        x = json.loads(unquote(m.group(2)))
        if m.group(1) == 'DOCS':
            head = x
        else:
            cases.append(x)
    gen, dist = counts(out)
    if dist != 2 * len(cases) or head is None:
        raise ToolError('family %s: %d states but %d cases' % (family, dist, len(cases)))
    return head, cases, gen


def text(cps):
    return ''.join(map(chr, cps))


def doc(d):
    return {'json': text(d['s'])} if d['k'] == 'json' else {'cbor': d['s']}


def head(n):
    """of a CBOR integer"""
    return [n] if n < 24 else [24, n] if n < 256 else [25, n >> 8, n & 255] if n < 65536 else [26, *n.to_bytes(4, 'big')]


def filled(pattern, cbor):
    """a pattern of Wide"""
    out = []
    for p in pattern:
        if cbor:
            for i in range(p['lo'], p['hi'] + 1):
                for c in p['c']:
                    out.extend(head(i) if c == -2 else map(ord, str(i)) if c == -1 else [c])
        else:
            s = ''.join('{}' if c == -1 else {'{': '{{', '}': '}}'}.get(chr(c), chr(c)) for c in p['c'])
            k = p['c'].count(-1)
            out.extend(s.format(*[i] * k) for i in range(p['lo'], p['hi'] + 1))
    return out if cbor else ''.join(out)


def build_cases(head, cases, mode=''):
    """the cases as the harness takes them, with the results expected of their events.
    Modes: value (what data are represented as), own (in a context of the caller's own), slices (keeping the sources of the rules), tree (the rules built),
    where (what errors point at)"""
    out = []
    for n, x in enumerate(cases):
        if mode == 'tree':
            out.append(({'id': n, 'texts': [text(x['x'])], 'docs': [], 'ev': [{'a': 'tree', 't': 1}]}, [x['n']]))
            continue
        if mode == 'value':
            docs = [doc(d) for d in x['d']]
            out.append(({'id': n, 'texts': [], 'docs': docs, 'ev': [{'a': 'data', 'd': d + 1} for d in range(len(docs))]}, x['r']))
            continue
        if head['kind'] == 'hand':
            docs = [doc(d) for d in head['docs']]
            ev = [{'a': 'hand', 'rules': x['x'], 'rule': 't', 'ds': [d + 1 for d in range(len(docs))]}]
            out.append(({'id': n, 'texts': [], 'docs': docs, 'ev': ev}, [x['r']]))
            continue
        if head['kind'] == 'node':
            out.append(({'id': n, 'texts': [], 'docs': [], 'ev': [{'a': 'node', 'n': x['x'][0], 'm': x['x'][1]}]}, [x['n']]))
            continue
        if head['kind'] == 'cmp':
            docs = [doc(d) for d in head['docs']]
            out.append(({'id': n, 'texts': [], 'docs': docs, 'ev': [{'a': 'cmp', 'd': x['x'], 'ds': [d + 1 for d in range(len(docs))]}]}, [x['r']]))
            continue
        if head['kind'] == 'wide':
            docs = [{d['k']: filled(d['s'], d['k'] == 'cbor')} for d in x['d']]
            ev = [{'a': 'ones', 'rule': 't', 'tds': [[1, d + 1] for d in range(len(docs))]}]
            out.append(({'id': n, 'texts': [filled(x['x'], False)], 'docs': docs, 'ev': ev}, [[d['r'] for d in x['d']]]))
            continue
        if head['kind'] == 'ast':
            out.append(({'id': n, 'texts': [], 'docs': [], 'ev': [{'a': 'flat', 'rules': x['x']}]}, [x['n']]))
            continue
        if head['kind'] in ('val', 'both'):
            docs = [doc(d) for d in (x['d'] if head['kind'] == 'both' else head['docs'])]
            if mode == 'own':
                ev = [{'a': 'owns', 't': 1, 'rule': 't', 'ds': [d + 1 for d in range(len(docs))]}]
                out.append(({'id': n, 'texts': [text(x['x'])], 'docs': docs, 'ev': ev}, [{'r': x['r'], 'asked': x['f']}]))
                continue
            ev = [{'a': 'ones', 'rule': 't', 'tds': [[1, d + 1] for d in range(len(docs))]}]
            out.append(({'id': n, 'texts': [text(x['x'])], 'docs': docs, 'ev': ev}, [x['r']]))
        elif head['kind'] == 'doc':
            ev = [{'a': 'ones', 'rule': 't', 'tds': [[t + 1, 1] for t in range(len(head['texts']))]}]
            out.append(({'id': n, 'texts': [text(t) for t in head['texts']],
                         'docs': [doc({'k': x['k'], 's': x['x']})], 'ev': ev}, [x['r']]))
        else:
            if mode == 'where':
                ev = [{'a': 'where', 't': 1}]
                want = [dict(x['w'], x=x['x'])]
            elif mode == 'slices':
                ev = [{'a': 'slices', 't': 1}, {'a': 'sbuild', 't': 1}]
                want = [x['r'], x['b']]
            else:
                ev = [{'a': 'parse', 't': 1}, {'a': 'build', 't': 1}]
                want = [{'e': x['r']['e'], 'rules': x['r']['rules']}, x['b']]
            out.append(({'id': n, 'texts': [text(x['x'])], 'docs': [], 'ev': ev}, want))
    return out


def symbol_limits(s):
    """as written in CDDL"""
    if s in ('?', '+'):
        return [0, 1] if s == '?' else [1, 2**64 - 1]
    a, _, b = s.partition('*')
    return [int(a or 0), int(b or 2**64 - 1)] if '*' in s and (a + b).isdigit() or s == '*' else None


def agrees(ev, want, got):
    if ev['a'] == 'owns':
        return isinstance(got, dict) and got['r'] == want['r'] and set(got['asked']) <= set(want['asked'])
    if ev['a'] == 'where':
        # the malformed literal, or what is left of the text
        return isinstance(got, dict) and got['e'] == want['e'] and (
            want['e'] == '' or got['ctx'] == want['at'] or
            want['at'] == [-1] and (text(want['x']).endswith(text(got['ctx'])) or text(got['ctx']) == 'Bareword with generic arguments'))
    if ev['a'] == 'node':
        return isinstance(got, dict) and got['copy'] and all(got[k] == want[k] for k in ('lim', 'size', 'same')) and \
            (want['lim'] == [] or symbol_limits(text(got['sym'])) == [int.from_bytes(x, 'big') for x in want['lim']]) and \
            want['show'] in ([-1], got['show']) and (want['own'] == [-1] or got['sym'] + want['own'] == got['own'])
    if ev['a'] in ('tree', 'flat'):
        return isinstance(got, dict) and got['e'] == want['e'] and \
            {r['name']: {'parms': r['parms'], 'node': r['node']} for r in got['rules']} == (want['rules'] or {}) and \
            len(got['rules']) == len(want['rules'])
    if ev['a'] in ('build', 'sbuild'):
        return isinstance(got, dict) and got.get('e') == want
    if ev['a'] == 'ones' and isinstance(got, list):
        return len(got) == len(want) and all(a == b or b == 'n/a' for a, b in zip(want, got))
    return want == got


def narrow(case, ev, want, got):
    """what to report: for a list of calls, those that went wrong"""
    if ev['a'] != 'ones' or not isinstance(got, list):
        return {'case': case, 'event': ev, 'expected': want, 'observed': got}
    bad = [k for k in range(len(want)) if k >= len(got) or (got[k] != want[k] and got[k] != 'n/a')][:5]
    t, d = ev['tds'][bad[0]]
    return {'case': {'id': case['id'], 'texts': [case['texts'][t - 1]], 'docs': [case['docs'][d - 1]],
                     'ev': [{'a': 'one', 't': 1, 'd': 1, 'rule': ev['rule']}]},
            'expected': want[bad[0]], 'observed': got[bad[0]] if bad[0] < len(got) else 'none',
            'others': [{'text': case['texts'][ev['tds'][k][0] - 1], 'doc': case['docs'][ev['tds'][k][1] - 1],
                        'expected': want[k], 'observed': got[k] if k < len(got) else 'none'} for k in bad[1:]]}


def size(tlc, ToolError, unquote, family):
    out = tlc('Enum.cfg', 'Enum.tla', {'FAMILY': family.partition('@')[0], 'STRIDE': '1000000000', 'OFFSET': '0'}, limit=120)
    for m in CASE.finditer(out):
        if m.group(1) == 'DOCS':
            return json.loads(unquote(m.group(2)))['size']
    raise ToolError('TLC failed on family %s\n%s' % (family, out[-3000:]))


# --- histories (spec/History.tla) ------------------------------------------------

def histories(tlc, counts, ToolError, unquote, n, seed, limit):
    """[(case, results expected)]: random walks through the specification of a session"""
    out = tlc('History.cfg', 'History.tla', {'FAMILY': 'arr1', 'STRIDE': '1', 'OFFSET': '0'}, workers=1, limit=limit,
              extra=['-simulate', 'num=%d' % n, '-depth', '18', '-seed', str(seed)])
    head, hs = None, []
    for m in CASE.finditer(out):
        x = json.loads(unquote(m.group(2)))
        if m.group(1) == 'DOCS':
            head = x
        else:
            hs.append(x)
    if 'Error' in out or len(hs) != n or head is None:
        raise ToolError('TLC failed on histories: %d of %d\n%s' % (len(hs), n, out[-4000:]))
    texts, docs = [text(t) for t in head['texts']], [doc(d) for d in head['docs']]
    both = []
    for k, h in enumerate(hs):
        ev = [dict(x['ev']) for x in h]
        for e in ev:
            for f in ('rename', 'errs'):
                if f in e:
                    e[f] = dict(e[f])
        both.append(({'id': k, 'texts': texts, 'docs': docs, 'ev': ev}, [x['r'] for x in h]))
    return both, sum(len(h) for h in hs)


def history_agrees(ev, want, got):
    if ev['a'] == 'call' and isinstance(got, dict):
        return got['r'] == want and set(got['asked']) <= set(ev['free'])
    if ev['a'] == 'par' and isinstance(got, list):
        return got == [[w] for w in want]
    return got == want
