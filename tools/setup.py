#!/usr/bin/env python3
"""Builds the harness and parses the specification once."""
import os
import subprocess
import sys

import check

os.makedirs(check.BUILD, exist_ok=True)
for v in check.FEATURES:
    check.build(v)
for m in ('Trace',):
    p = subprocess.run(['java', '-cp', check.CP, 'tla2sany.SANY', m + '.tla'], cwd=check.SPEC, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout)
        sys.exit(1)
