#!/usr/bin/env python3
"""Build (and confirm) planted bugs under /verif/seeded from tools/seeds/*.py.

Each entry of SEEDS: id, prop, file, old, new (or edits=[(file, old, new)...]),
needs, breaks, demo (Rust main body text or shell text when it starts with #!).
Confirms in a scratch copy: patch applies, builds, stable tests pass, the demo
passes on the unchanged tree and fails with the patch.

usage: seed.py FILE... [--only ID] [--confirm]
"""
import argparse, importlib.util, json, os, shutil, subprocess, sys, tempfile

SEEDED = '/verif/seeded'
DEMO = '''#!/bin/bash
# Compiles demo.rs against the library built from the working tree and runs it.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$out"' EXIT
rustc --edition 2021 -A warnings -L dependency=target/debug/deps \\
  --extern elinor=target/debug/libelinor.rlib "$here/demo.rs" -o "$out/demo" || exit 3
"$out/demo"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def make(seed, confirm):
    sid = seed['id']
    d = f'{SEEDED}/{sid}'
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        r = f'{w}/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        for f, old, new in seed.get('edits') or [(seed['file'], seed['old'], seed['new'])]:
            s = open(f'{r}/{f}').read()
            if s.count(old) < 1:
                return f'{sid}: text not found in {f}: {old[:60]!r}'
            if s.count(old) > 1 and not seed.get('first'):
                return f'{sid}: text not unique in {f}: {old[:60]!r}'
            open(f'{r}/{f}', 'w').write(s.replace(old, new, 1))
        diff = sh('git diff', r).stdout
        open(f'{d}/patch.diff', 'w').write(diff)
        json.dump({'property': seed['prop'], 'needs': seed['needs'],
                   'what_it_breaks': seed['breaks']},
                  open(f'{d}/meta.json', 'w'), indent=1)
        demo = seed['demo']
        if demo.startswith('#!'):
            open(f'{d}/demo.sh', 'w').write(demo)
        else:
            open(f'{d}/demo.rs', 'w').write(demo)
            open(f'{d}/demo.sh', 'w').write(DEMO)
        os.chmod(f'{d}/demo.sh', 0o755)
        for name, text in (seed.get('files') or {}).items():
            open(f'{d}/{name}', 'w').write(text)
        if confirm:
            return sid + ': ' + confirm_one(sid, d)
        return f'{sid}: written'
    finally:
        shutil.rmtree(w, ignore_errors=True)


def confirm_one(sid, d):
    """Uses /repo itself (the build scripts are tied to it) and restores it."""
    if sh('git status --porcelain', '/repo').stdout.strip():
        return 'REPO NOT CLEAN'
    try:
        p = sh(f'git apply {d}/patch.diff', '/repo')
        if p.returncode:
            return 'DOES NOT APPLY ' + p.stderr[:200]
        p = sh('bash /opt/vp/build.sh', '/repo')
        if p.returncode:
            return 'DOES NOT BUILD ' + p.stderr[-600:]
        out = tempfile.mktemp(prefix='seed-t-', dir='/tmp')
        sh(f'bash /opt/vp/test.sh {out}', '/repo')
        res = json.load(open(out))
        os.unlink(out)
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = set(base.get('stable') or base.get('tests') or base.get('passed'))
        bad = stable - set(res['passed'])
        if bad:
            return f'FAILS TESTS {sorted(bad)[:4]}'
        p = sh(f'bash {d}/demo.sh', '/repo', timeout=300)
        if p.returncode == 0:
            return 'DEMO PASSES WITH PATCH'
        if p.returncode == 3:
            return 'DEMO DOES NOT COMPILE ' + p.stderr[:900]
        how = f'demo exits {p.returncode}: {(p.stderr + p.stdout)[:160]!r}'
    finally:
        sh('git checkout -- .', '/repo')
    return 'ok? ' + how


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('files', nargs='+')
    ap.add_argument('--only')
    ap.add_argument('--confirm', action='store_true')
    a = ap.parse_args()
    done = []
    for f in a.files:
        spec = importlib.util.spec_from_file_location('seeds', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.SEEDS:
            if a.only and a.only not in s['id']:
                continue
            print(make(s, a.confirm), flush=True)
            done.append(s['id'])
    if a.confirm:
        sh('bash /opt/vp/build.sh', '/repo')
        for sid in done:
            if not os.path.exists(f'{SEEDED}/{sid}/demo.sh'):
                continue
            p = sh(f'bash {SEEDED}/{sid}/demo.sh', '/repo', timeout=300)
            if p.returncode:
                print(f'{sid}: DEMO FAILS ON UNCHANGED TREE {p.returncode} {p.stderr[:300]}')


if __name__ == '__main__':
    main()
