#!/usr/bin/env python3
"""Runs checks against planted changes:  seedrun.py [SEED ...] [-p PROP,PROP|all]
Applies each patch to /repo, runs the checks (by default that of the seed's
property), and undoes it."""
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')


def main():
    args, props = sys.argv[1:], None
    if '-p' in args:
        k = args.index('-p')
        props = args[k + 1].split(',')
        args = args[:k] + args[k + 2:]
    allp = [json.loads(x)['id'] for x in open(os.path.join(ROOT, 'properties.jsonl'))]
    allp = [p for p in allp if p != 'C29']
    for s in args or sorted(os.listdir(SEEDED)):
        meta = json.load(open(os.path.join(SEEDED, s, 'meta.json')))
        want = [meta['property']] if props is None else allp if props == ['all'] else props
        subprocess.run(['git', '-C', '/repo', 'apply', os.path.join(SEEDED, s, 'patch.diff')], check=True)
        try:
            got = []
            t0 = time.time()
            for p in want:
                r = subprocess.run([sys.executable, os.path.join(ROOT, 'tools', 'check.py'), p],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                ok = r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout
                got.append('%s:%s' % (p, 'CAUGHT' if ok else 'missed' if r.returncode == 0 else 'rc%d' % r.returncode))
                if r.returncode not in (0, 1):
                    print(r.stderr[-1500:])
            print(s, *[g for g in got if len(want) < 5 or 'missed' not in g], '%.0fs' % (time.time() - t0), flush=True)
        finally:
            subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)


if __name__ == '__main__':
    main()
