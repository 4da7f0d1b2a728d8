#!/usr/bin/env python3
"""Planted changes: makes /verif/seeded/<id>/ from the list below, after showing
in a scratch copy of /repo that each one compiles, passes the stable tests, and
fails its demonstration (which passes on the unchanged tree).

  seeds.py            make all that are missing
  seeds.py ID ...     make these (again)"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
WORK = '/tmp/plant'

V, F, P = 'src/validate.rs', 'src/flatten.rs', 'src/parser/mod.rs'
SEEDS = {}


def seed(id, prop, edits, needs, breaks, cases=(), code=None, files=None):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, cases=list(cases), code=code, features=files)


from seedlist import define  # noqa: E402
define(seed, V, F, P)

PRELUDE = r'''
#![allow(unused)]
use cddl_cat::util::ValidateError;
fn kind(r: &Result<(), ValidateError>) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(ValidateError::ParseError(_)) => "parse",
        Err(ValidateError::Structural(_)) => "structural",
        Err(ValidateError::Mismatch(_)) | Err(ValidateError::MapCut(_)) => "mismatch",
        Err(ValidateError::MissingRule(_)) => "missing",
        Err(ValidateError::Unsupported(_)) => "unsupported",
        Err(ValidateError::ValueError(_)) => "value",
        Err(ValidateError::GenericError) => "generic",
        Err(_) => "other",
    }
}
#[cfg(feature = "json")]
fn json(name: &str, cddl: &str, data: &str, want: &str) {
    let got = cddl_cat::validate_json_str(name, cddl, data);
    assert!(kind(&got) == want, "{:?} {:?} {:?}: expected {}, got {:?}", name, cddl, data, want, got);
}
#[cfg(feature = "cbor")]
fn cbor(name: &str, cddl: &str, data: &[u8], want: &str) {
    let got = cddl_cat::validate_cbor_bytes(name, cddl, data);
    assert!(kind(&got) == want, "{:?} {:?} {:?}: expected {}, got {:?}", name, cddl, data, want, got);
}
'''

CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[features]
default = [%s]
json = ["cddl-cat/serde_json"]
cbor = ["cddl-cat/ciborium"]

[dependencies]
cddl-cat = { path = "REPO", default-features = false }
serde_json = "1.0.0"
ciborium = "0.2.2"

[profile.dev]
debug = 0

[workspace]
'''

DEMO = '''#!/bin/bash
# Run in the repository: exit 0 when it behaves as the property says.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "${work:?}"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
sed "s|REPO|$repo|" "$here/demo.toml" > "$work/Cargo.toml"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cd "$work" || exit 2
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" cargo build --offline --quiet || exit 3
timeout 60 "$work/target/debug/demo"
'''


def rstr(s):
    n = '#'
    while '"' + n in s:
        n += '#'
    if '\r' in s:
        return json.dumps(s)
    return 'r%s"%s"%s' % (n, s, n)


def main_rs(s):
    body = s['code'] or ''
    if 'fn main' in body:
        return PRELUDE + body
    lines = []
    for cddl, rule, data, want in s['cases']:
        if isinstance(data, (bytes, list)):
            lines.append('    cbor(%s, %s, &%s, "%s");' % (rstr(rule), rstr(cddl), list(data), want))
        else:
            lines.append('    json(%s, %s, %s, "%s");' % (rstr(rule), rstr(cddl), rstr(data), want))
    return PRELUDE + '\nfn main() {\n' + '\n'.join(lines) + '\n' + body + '}\n'


def sh(cmd, cwd, timeout=900, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout, env=env)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'stable_tests', 'passing', 'tests', 'pass'):
        if k in b:
            return set(b[k])
    raise SystemExit('BASELINE.json: %s' % list(b)[:10])


def run_demo(d, repo):
    env = dict(os.environ)
    p = sh(['bash', os.path.join(d, 'demo.sh')], repo, 300, env)
    return p.returncode, p.stdout


def make(id, s):
    repo = os.path.join(WORK, 'repo')
    sh('git checkout -q -- . && git clean -fdq src', repo)
    d = os.path.join(WORK, 'seed', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for path, old, new in s['edits']:
        f = os.path.join(repo, path)
        t = open(f).read()
        if t.count(old) != 1:
            return 'edit of %s applies %d times: %r' % (path, t.count(old), old)
        open(f, 'w').write(t.replace(old, new))
    diff = sh('git diff', repo).stdout
    sh('git checkout -q -- .', repo)
    open(os.path.join(d, 'main.rs'), 'w').write(main_rs(s))
    open(os.path.join(d, 'demo.toml'), 'w').write(CARGO % ', '.join('"%s"' % x for x in (s['features'] or ['json', 'cbor'])))
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    rc, out = run_demo(d, repo)
    if rc:
        return 'demo fails on the unchanged tree:\n' + out[-1500:]
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    p = sh(['git', 'apply', os.path.join(d, 'patch.diff')], repo)
    if p.returncode:
        return 'patch: ' + p.stdout
    try:
        p = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', repo)
        if 'test result' not in p.stdout:
            return 'does not build:\n' + p.stdout[-2500:]
        bad = [x for x in p.stdout.splitlines() if x.startswith('test ') and x.endswith('FAILED')]
        if bad or p.returncode:
            return 'tests fail: %s' % bad[:4] + ('' if bad else p.stdout[-800:])
        rc, out = run_demo(d, repo)
        if rc == 0:
            return 'demo passes with the change'
        if rc == 3:
            return 'demo does not build:\n' + out[-1500:]
    finally:
        sh('git checkout -q -- .', repo)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    dst = os.path.join(SEEDED, id)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    return 'planted'


def main():
    os.makedirs(WORK, exist_ok=True)
    shutil.rmtree(os.path.join(WORK, 'repo'), ignore_errors=True)
    shutil.copytree('/repo', os.path.join(WORK, 'repo'), symlinks=True)
    ids = sys.argv[1:] or [i for i in SEEDS if not os.path.isdir(os.path.join(SEEDED, i))]
    for i in ids:
        print(i, make(i, SEEDS[i]), flush=True)
    shutil.rmtree(WORK, ignore_errors=True)


if __name__ == '__main__':
    main()
