#!/usr/bin/env python3
"""Decides one property:  check.py PROP  (VERIF_TIER, VERIF_SEED).

Builds the harness against /repo's working tree, drives the real code through
the behaviours that gen.py makes for the property, records what it did, and
has TLC check every recorded behaviour against the specification
(spec/Trace.tla).  Exit 0: all of them are behaviours of the specification;
1: a VIOLATION line for each that is not; 2: a tool failed."""
import concurrent.futures
import itertools
import json
import os
import re
import select
import shutil
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import families  # noqa: E402
import gen  # noqa: E402

REPO = os.environ.get('CDDL_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
SPEC = os.path.join(ROOT, 'spec')
TLA = '/opt/veriftools/tla/'
CP = TLA + 'tla2tools.jar:' + TLA + 'CommunityModules-deps.jar'
TIMEOUT = 40          # seconds one case may take (they take milliseconds)

FEATURES = {
    'both': (['json', 'cbor'], 'Trace.cfg'),
    'json': (['json'], 'TraceNoCbor.cfg'),
    'cbor': (['cbor'], 'Trace.cfg'),
    'none': ([], 'TraceNoCbor.cfg'),
}


MACHINE = 'Outcome Conserved Paired Depth Ends Restores FaultsStay, no deadlock'


UNIQUE = itertools.count()


class ToolError(Exception):
    pass


def note(*a):
    print(*a, file=sys.stderr, flush=True)


# --- building -------------------------------------------------------------

def build(variant):
    """The harness, linked with /repo's current working tree."""
    target = os.path.join(BUILD, 'target-' + variant)
    # file times do not tell which tree the last build was made from
    for prof in ('debug',):
        fp = os.path.join(target, prof, '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(('cddl-cat-', 'cddl-conf-', 'cddl_conf-')):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=target)
    cmd = ['cargo', 'build', '--offline', '--quiet', '--no-default-features']
    fs = FEATURES[variant][0]
    if fs:
        cmd += ['--features', ' '.join(fs)]
    for attempt in (0, 1):
        p = subprocess.run(cmd, cwd=os.path.join(ROOT, 'harness'), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return os.path.join(target, 'debug', 'cddl-conf')
        shutil.rmtree(target, ignore_errors=True)
    raise ToolError('building the harness failed:\n' + p.stdout[-3000:])


# --- running the real code --------------------------------------------------

class Proc:
    """One harness process: a line in, a line out, with a time limit."""

    def __init__(self, exe):
        self.exe = exe
        self.p = None

    def ask(self, case, limit=TIMEOUT):
        if self.p is None:
            self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL, bufsize=0)
            self.buf = b''
        try:
            self.p.stdin.write((json.dumps(case) + '\n').encode())
        except BrokenPipeError:
            self.stop()
            return 'crash'
        end = time.time() + limit
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                self.stop()
                return 'hang'
            got = os.read(fd, 1 << 16)
            if not got:
                self.stop()
                return 'crash'
            self.buf += got
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None


def record(proc, case):
    """Results of the events of a case; a crash or hang ends the behaviour."""
    r = proc.ask(case)
    if isinstance(r, list):
        return r
    how = r
    done = []
    if r == 'hang' and len(case['ev']) == 1:
        return [r]
    for k in range(1, len(case['ev']) + 1):
        r = proc.ask(dict(case, ev=case['ev'][:k]))
        if not isinstance(r, list):
            return done + [r]
        done = r
    # did not happen again: without a fault to show there is nothing to report
    note('note: case %s: %s did not repeat' % (case.get('id'), how))
    return done


def record_all(exe, cases, procs=8):
    out = [[] for _ in cases]
    hung = []
    nxt = iter(range(len(cases)))
    lock = threading.Lock()
    errs = []

    def work():
        p = Proc(exe)
        try:
            while True:
                with lock:
                    k = next(nxt, None)
                if k is None or len(hung) >= 8:     # enough to report; each takes long
                    break
                out[k] = record(p, cases[k])
                if out[k] and out[k][-1] == 'hang':
                    hung.append(k)
        except Exception as e:      # noqa: BLE001
            errs.append(e)
        finally:
            p.stop()
    ts = [threading.Thread(target=work) for _ in range(procs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise ToolError('harness: %r' % errs[0])
    return out


ABNORMAL = ('panic', 'crash', 'hang')


def abnormal(r):
    return r in ABNORMAL if isinstance(r, str) else \
        any(abnormal(x) for x in r) if isinstance(r, list) else \
        any(abnormal(x) for x in r.values()) if isinstance(r, dict) and set(r) == {'r', 'asked'} else False


def traced(case, results):
    """A case and the results of its events as a line of the trace."""
    ev = []
    for e, r in zip(case['ev'], results):
        if r == 'n/a' or (isinstance(r, list) and 'n/a' in r):
            continue
        e = dict(e)
        e['r'] = r
        e['abn'] = abnormal(r)
        for k in ('rename', 'errs'):
            if k in e:
                e[k] = [list(p) for p in e[k].items()]
        ev.append(e)
    return {
        'id': case['id'],
        'texts': [[ord(ch) for ch in t] for t in case['texts']],
        'docs': [{'k': 'json', 's': [ord(ch) for ch in d['json']]} if 'json' in d
                 else {'k': 'cbor', 's': d['cbor']} for d in case['docs']],
        'ev': ev,
    }


# --- checking against the specification ------------------------------------

DIV = re.compile(r'<<"DIVERGES", (\d+), (\d+), (".*"), (".*")>>')


def tlc(cfg, module, env=None, workdir=None, workers=8, extra=(), limit=800, heap='12g'):
    meta = os.path.join(workdir or BUILD, 'states-%d-%d' % (os.getpid(), next(UNIQUE)))
    os.makedirs(meta, exist_ok=True)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, *os.environ.get('JX','').split(), '-Xss512m', '-cp', CP, 'tlc2.TLC', '-noTE', '-metadir', meta,
           '-workers', str(workers), '-config', cfg] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC ran out of time (%d s)' % limit)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.stdout


def unquote(s):
    # TLC prints strings with \" and \\ escaped
    return re.sub(r'\\(.)', r'\1', s[1:-1])


def counts(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def check_trace(lines, cfg, tag, limit=800, depth=0):
    """(states, transitions, [(line index, event index, expected, observed)])"""
    path = os.path.join(BUILD, 'trace-%s-%d-%d.ndjson' % (tag, os.getpid(), next(UNIQUE)))
    with open(path, 'w') as f:
        for x in lines:
            f.write(json.dumps(x) + '\n')
    try:
        out = tlc(cfg, 'Trace.tla', {'TRACE': path}, limit=limit, workers=8 if len(lines) > 1 else 1)
    finally:
        if not os.environ.get('KEEP_TRACE'):
            os.unlink(path)
    divs = []
    for m in DIV.finditer(out):
        divs.append((int(m.group(1)) - 1, int(m.group(2)) - 1, unquote(m.group(3)), unquote(m.group(4))))
    gen_, dist = counts(out)
    if 'Model checking completed. No error' in out:
        want = sum(len(x['ev']) + 2 for x in lines)
        if dist != want:
            raise ToolError('TLC found %d states where %d were recorded\n%s' % (dist, want, out[-3000:]))
        return dist, gen_, divs
    if 'SPEC: ' in out:
        m = re.search(r'SPEC: texts disagree", (\d+), (\d+)', out)
        x = lines[int(m.group(1)) - 1]
        e = x['ev'][int(m.group(2)) - 1]
        raise ToolError('the specification contradicts an equivalence the generator states\n%s\n-- \n%s\n%s\n%s' % (
            ''.join(map(chr, x['texts'][e['t'] - 1])), ''.join(map(chr, x['texts'][e['u'] - 1])), e, x['docs'][e['d'] - 1]))
    # a result of a kind that cannot even be compared with the specified one
    if len(lines) == 1:
        if 'Attempted to check equality of' in out or 'Attempted to compare' in out:
            return 0, 0, [(0, len(lines[0]['ev']) - 1, '(see the specification)', '(a result of another kind)')]
        raise ToolError('TLC failed on\n%s\n%s' % (json.dumps(lines[0])[:2000], out[-4000:]))
    if depth > 14:
        raise ToolError('TLC failed\n' + out[-4000:])
    mid = len(lines) // 2
    s1, t1, d1 = check_trace(lines[:mid], cfg, tag, limit, depth + 1)
    s2, t2, d2 = check_trace(lines[mid:], cfg, tag, limit, depth + 1)
    return s1 + s2, t1 + t2, d1 + [(a + mid, b, c, d) for a, b, c, d in d2]


# --- findings ----------------------------------------------------------------

def known_findings(prop):
    out = []
    with open(os.path.join(ROOT, 'known_findings.jsonl')) as f:
        for line in f:
            if line.strip():
                k = json.loads(line)
                if k.get('status') == 'known' and k['property'] == prop:
                    out.append(k)
    return out


# --- one property --------------------------------------------------------------

# cases in the quick tier
QUICK = {'C20': 700, 'C26': 800, 'C29': 700}
DEFAULT_QUICK = 2500


def meaning(s):
    """What TLC printed; the order of fields varies with the specification."""
    try:
        return json.loads(s)
    except ValueError:
        return s


def summary(r):
    return r if isinstance(r, str) else json.dumps(r)[:200]


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.events = {}
        self.results = {}
        self.samples = []
        self.families = {}
        self.machines = {}
        self.violations = []
        self.points = {}
        self.pool = concurrent.futures.ThreadPoolExecutor(3)
        self.rdir = os.path.join(BUILD, 'replay')
        os.makedirs(self.rdir, exist_ok=True)

    def violate(self, what):
        n = len(self.violations) + 1
        path = os.path.join(self.rdir, '%s-%d.json' % (self.prop, n))
        with open(path, 'w') as f:
            json.dump(what, f, indent=1, ensure_ascii=False)
        self.violations.append(what)
        if n <= 10:
            print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
            note(json.dumps(what, ensure_ascii=False)[:1500])

    def batch(self, exe, cfg, cases, variant):
        res = record_all(exe, cases)
        lines = [traced(c, r) for c, r in zip(cases, res)]
        for c, l in zip(cases, lines):
            for e in l['ev']:
                self.events[e['a']] = self.events.get(e['a'], 0) + 1
                if isinstance(e['r'], str):
                    r = e['r'].split('@')[0]
                    self.results[r] = self.results.get(r, 0) + 1
        left = 870 - (time.time() - self.t0) if self.tier == 'quick' else 3000
        s, t, divs = check_trace(lines, cfg, self.prop, limit=max(60, left))
        self.states += s
        self.transitions += t
        self.validated += len(lines)
        first = {}
        for li, ei, exp, obs in divs:
            if li not in first or ei < first[li][0]:
                first[li] = (ei, exp, obs)
        for li, (ei, exp, obs) in sorted(first.items()):
            c = cases[li]
            self.violate({'property': self.prop, 'variant': variant, 'seed': self.seed, 'case': c,
                          'event': lines[li]['ev'][ei], 'event_index': ei, 'expected': exp, 'observed': obs})
        for c, l in list(zip(cases, lines))[:2]:
            if len(self.samples) < 6:
                self.samples.append({'texts': c['texts'], 'docs': c['docs'][:4],
                                     'events': [{k: v for k, v in e.items() if k != 'abn'} if len(json.dumps(e)) < 600
                                                else {'a': e['a']} for e in l['ev'][:6]]})
        return divs


    def ahead(self, todo, offset, limit):
        """Has TLC enumerate families, a few at a time, while others are used."""
        for cfg, full, stride in todo:
            name, _, mode = full.partition('+')
            key = (cfg, name, stride, offset, mode if mode in ('tree', 'value') else '')
            if key not in self.points:
                self.points[key] = self.pool.submit(
                    families.points, lambda *a, **k: tlc(*a, workers=4, heap='6g', **k), counts, ToolError, unquote,
                    cfg, name, stride, offset, limit, mode)

    def family(self, exe, variant, name, stride, offset, keep=False):
        cfg = FEATURES[variant][1].replace('Trace', 'Enum')
        left = 870 - (time.time() - self.t0) if self.tier == 'quick' else 3000
        full, (name, _, mode) = name, name.partition('+')
        key = (cfg, name, stride, offset, mode if mode in ('tree', 'value') else '')
        if key not in self.points:
            self.ahead([(cfg, full, stride)], offset, max(60, left))
        head, points, states = self.points[key].result()
        if not keep:
            del self.points[key]
        both = families.build_cases(head, points, mode)
        res = record_all(exe, [c for c, _ in both])
        n = 0
        for (c, want), got in zip(both, res):
            if not got:                 # not run any more
                continue
            for k, e in enumerate(c['ev']):
                g = got[k] if k < len(got) else 'not reached'
                n += len(want[k]) if e['a'] == 'ones' else 1
                if not families.agrees(e, want[k], g):
                    self.violate(dict(families.narrow(c, e, want[k], g), property=self.prop, variant=variant,
                                      family=full, stride=stride, offset=offset))
                    break
        self.states += 2 * len(points)
        self.transitions += states
        self.validated += len(points)
        f = self.families.setdefault(full + ('' if variant == 'both' else '/' + variant),
                                     {'size': head['size'], 'points': 0, 'results': 0})
        f['points'] += len(points)
        f['results'] += n
        if points and len(self.samples) < 9:
            c, want = both[len(both) // 2]
            self.samples.append({'family': name, 'texts': c['texts'][:1], 'docs': c['docs'][:4],
                                 'specified': json.dumps(want)[:300]})

    def history(self, exe, n, seed):
        both, steps = families.histories(tlc, counts, ToolError, unquote, n, seed,
                                         max(60, 870 - (time.time() - self.t0)) if self.tier == 'quick' else 3000)
        res = record_all(exe, [c for c, _ in both])
        for (c, want), got in zip(both, res):
            for k, e in enumerate(c['ev'] if got else []):
                g = got[k] if k < len(got) else 'not reached'
                if not families.history_agrees(e, want[k], g):
                    self.violate({'property': self.prop, 'case': dict(c, ev=c['ev'][:k + 1]), 'event': e, 'expected': want[k],
                                  'observed': g, 'history_seed': seed})
                    break
        self.states += steps + 2 * n
        self.transitions += steps + n
        self.validated += n
        h = self.families.setdefault('history', {'size': 'unbounded', 'points': 0, 'results': 0})
        h['points'] += n
        h['results'] += steps
        if len(self.samples) < 9:
            c, want = both[len(both) // 2]
            self.samples.append({'history': c['ev'], 'specified': want})

    def deep_history(self, exe, seed, budget):
        for k in range(1, 100000):
            if time.time() - self.t0 >= budget or self.violations:
                return
            self.history(exe, 20000, seed * 100000 + k)

    def machine(self, name, stride, offset):
        """The small-step machine on a residue class of a family: its invariants are about the
        specification, so this can only find faults in it (exit 2), not in the code."""
        out = tlc('Machine.cfg', 'Machine.tla', {'FAMILY': name, 'STRIDE': str(stride), 'OFFSET': str(offset)},
                  limit=max(60, 870 - (time.time() - self.t0)) if self.tier == 'quick' else 3000)
        if 'Model checking completed. No error' not in out:
            raise ToolError('TLC failed on the machine, family %s %d/%d\n%s' % (name, offset, stride, out[-4000:]))
        gen_, dist = counts(out)
        self.states += dist
        self.transitions += gen_
        m = self.machines.setdefault(name, {'runs': 0, 'states': 0, 'checked': MACHINE})
        m['runs'] += 1
        m['states'] += dist

    def deep_machine(self, plan, seed, budget):
        for k in range(10000):
            for name, stride in plan.items():
                if time.time() - self.t0 >= budget or self.violations:
                    return
                self.machine(name, max(1, stride // 4), seed + k)

    def deep(self, exe, names, seed, budget):
        """Residue classes of big families, one after another, while time is left."""
        todo = [(name, k) for k in range(10000) for name in names]
        sizes = {}
        for name, k in todo:
            if time.time() - self.t0 >= budget or self.violations:
                break
            if name not in sizes:
                sizes[name] = max(1, families.size(tlc, ToolError, unquote, name.split('+')[0]) // 6000)
            if k < sizes[name]:
                self.family(exe, 'both', name, sizes[name], seed + k)

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    os.makedirs(BUILD, exist_ok=True)
    if prop == 'C30':
        os.environ['NAMES'] = '1'       # errors have to say what they are about
    run = Run(prop, tier, seed)
    n = int(os.environ.get('CASES', QUICK.get(prop, DEFAULT_QUICK)))
    variants = ['both'] if prop != 'C26' else ['both', 'json', 'cbor', 'none']
    exes = {v: build(v) for v in variants}
    run.build_s = time.time() - run.t0
    budget = 0 if tier == 'quick' else float(os.environ.get('THOROUGH_S', 1500))
    plan = families.PLAN.get(prop, {}) if not os.environ.get('NO_FAMILIES') else {}
    if os.environ.get('FAMS'):          # for trying families out: name=stride,...
        plan = {f: int(k) for f, k in (x.split('=') for x in os.environ['FAMS'].split(','))}
    cfgs = list(dict.fromkeys(FEATURES[v][1].replace('Trace', 'Enum') for v in variants))
    run.ahead([(c, f, stride) for f, stride in plan.items() for c in cfgs], seed, 800)
    b = 0
    while True:
        cases = gen.cases(prop, '%d/%d' % (seed, b) if b else seed, n)
        for v in variants:
            run.batch(exes[v], FEATURES[v][1], cases, v)
        b += 1
        if time.time() - run.t0 >= budget / 2 or run.violations:
            break
    for f, stride in plan.items():
        for v in variants:
            if not run.violations:
                t = time.time()
                run.family(exes[v], v, f, stride, seed, keep=True)
                if os.environ.get('TIMES'):
                    note('%s/%s %.0f s' % (f, v, time.time() - t))
    if prop in families.HISTORIES and not run.violations and not os.environ.get('NO_FAMILIES'):
        run.history(exes['both'], families.HISTORIES[prop], seed)
        run.deep_history(exes['both'], seed, budget)
    run.deep(exes['both'], families.DEEP.get(prop, []), seed, budget)
    if not os.environ.get('NO_FAMILIES') and not run.violations:
        for f, stride in families.MACHINES.get(prop, {}).items():
            run.machine(f, stride, seed)
        run.deep_machine(families.MACHINES.get(prop, {}), seed, budget * 1.3)
    run.pool.shutdown(cancel_futures=True)
    for k in known_findings(prop):
        # each is identified by one input: it is shown again, and reported if it still fails as recorded
        r = record(Proc(exes['both']), dict(k['case'], id=0))
        s, t, d = check_trace([traced(dict(k['case'], id=0), r)], 'Trace.cfg', prop + 'k')
        if d and meaning(d[0][3]) != meaning(k['observed']):
            run.violate({'property': prop, 'case': k['case'], 'expected': d[0][2], 'observed': d[0][3]})
        elif d:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']), flush=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': run.states, 'transitions': run.transitions,
            'traces_validated_against_impl': run.validated,
            'events': run.events, 'results': run.results,
            'samples': run.samples,
            'rule': 'each trace is a distinct generated case (schemas, documents, call history) run on the real code; '
                    'every recorded result is compared by TLC with the step the specification takes',
        },
        'assumptions': ['the specification modules in spec/ state the intended behaviour',
                        'TLC evaluates them correctly; the harness reports results faithfully'],
        'wall_s': round(time.time() - run.t0, 1), 'violations': len(run.violations),
    }
    if run.machines:
        ev['coverage']['machine_runs'] = run.machines
    if run.families:
        ev['coverage']['families_enumerated'] = run.families
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    note('%s: %d traces, %d states, %d violations, build %.0f s, total %.0f s, results %s' % (
        prop, run.validated, run.states, len(run.violations), run.build_s, time.time() - run.t0, run.results))
    return 1 if run.violations else 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except ToolError as e:
        note('TOOL ERROR:', e)
        sys.exit(2)
