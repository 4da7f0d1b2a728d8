"""Writes MANIFEST.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import families  # noqa: E402

NOTE = ('Model checking of bounded families and of sampled behaviours, bound to the real code: every call is executed by the real code and '
        'its result compared with the one the TLA+ specification takes. Nothing is proved for inputs outside those explored (counts in the '
        'evidence). Trusts the specification modules, TLC and the harness.')
EXTRA_NOTE = {
    'C23': ' Threads are real threads on the real code (up to eight); their interleavings are sampled, not enumerated.',
    'C29': ' The specification has no notion of time: it says what the outcome is, and the harness that it comes within 40 s (the '
           'present code needs milliseconds), on nests and lengths where a doubling per level or a higher power would exceed that.',
    'C37': ' As for C29, time is judged by a limit of 40 s where the present code needs milliseconds, on 46 to 88 levels and up to 131,073 elements.',
    'C26': ' The four builds are each compared with the specification (HasCbor = FALSE where the feature is off).',
    'C30': ' Messages of mismatches and of structural errors are not specified, names and literals are.',
    'C31': ' The compiled pattern of .regexp and the inside of .cbor are private in the tree and are decided by behaviour (C13, C14) only.',
    'C36': ' Displayed floats need only read back as the same number; the symbol of an occurrence need only say its limits.',
}
NA = {}


def technique(pid):
    t = ['TLA+ specification checked with TLC, bound to the code by conformance checks: recorded executions of the real code '
         'validated step by step against Trace.tla']
    fs = sorted({f.partition('+')[0].partition('@')[0] for f in families.PLAN.get(pid, {})})
    if fs:
        t.append('cases with their specified results enumerated by TLC (families %s) replayed into the code' % ', '.join(fs))
    if pid in families.HISTORIES:
        t.append('random walks through the session specification (History.tla, invariants checked) replayed into the code')
    if pid in families.MACHINES:
        t.append('invariants of the small-step validation machine (Machine.tla), which refines the reference semantics, model-checked on '
                 + ', '.join(sorted(families.MACHINES[pid])))
    return '; '.join(t)


props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for p in props:
    if p['id'] in NA:
        continue
    cmd = 'python3 tools/check.py ' + p['id']
    checks.append({'property': p['id'], 'quick_cmd': cmd, 'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': technique(p['id']), 'level': 'model_checking',
                   'level_note': NOTE + EXTRA_NOTE.get(p['id'], '')})
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
    'notes': 'No hooks in /repo: the harness uses the public interface only. Each check rebuilds harness/ (path dependency on /repo) into '
             'build/, runs generated behaviours (tools/gen.py) and those the specification enumerates (spec/Enum.tla, spec/History.tla) '
             'on the real code, and has TLC decide them (spec/Trace.tla).',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
