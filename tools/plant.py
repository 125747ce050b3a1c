#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy and runs checks against them.
   plant.py confirm ID...       builds, tests and demo, in a scratch copy
   plant.py check ID... [-- C01 C02]   applies to /repo, runs the property's check (or those given), undoes it"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
W = '/tmp/plant-scratch'


def sh(cmd, cwd, ok=True, **kw):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    return p.returncode, p.stdout


def confirm(i):
    d = os.path.join(S, i)
    if not os.path.isdir(W):
        shutil.copytree('/repo', W, symlinks=True)
    sh('git checkout -q -- . && git clean -fdq && git fetch -q /repo && git reset -q --hard $(git -C /repo rev-parse HEAD)', W)
    rc, o = sh('bash %s/demo.sh' % d, W, timeout=300)
    if rc:
        return 'demo fails on the clean tree:\n' + o[-1500:]
    rc, o = sh('git apply %s/patch.diff' % d, W)
    if rc:
        return 'patch does not apply: ' + o
    try:
        rc, o = sh('cargo test --offline --workspace 2>&1 | grep -E "^test |^error|warning: unused"', W, timeout=900)
        base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or []) if os.path.exists('/opt/vp/BASELINE.json') else set()
        bad = [l for l in o.splitlines() if 'FAILED' in l or l.startswith('error')]
        n = sum(1 for l in o.splitlines() if l.endswith('... ok'))
        if bad or n < 213:
            return 'tests: %d ok, bad %s' % (n, bad[:5])
        rc, o = sh('bash %s/demo.sh' % d, W, timeout=300)
        if rc == 0:
            return 'demo passes with the patch'
        return 'ok (%d tests pass; demo: %s)' % (n, o.strip().splitlines()[-1][:150] if o.strip() else rc)
    finally:
        sh('git checkout -q -- .', W)


def check(i, props, tier='quick'):
    d = os.path.join(S, i)
    if not props:
        props = [json.load(open(d + '/meta.json'))['property']]
    rc, o = sh('git apply %s/patch.diff' % d, '/repo')
    if rc:
        return 'patch does not apply: ' + o
    r = []
    try:
        for p in props:
            rc, o = sh('python3 check.py ' + p, V, timeout=900)
            r.append('%s=%s %s' % (p, {0: 'MISSED', 1: 'caught'}.get(rc, 'NO VERDICT %d' % rc), o.strip()[:300].replace('\n', ' | ')))
    finally:
        sh('git checkout -q -- .', '/repo')
    return '; '.join(r)


if __name__ == '__main__':
    a = sys.argv[2:]
    props = []
    if '--' in a:
        props = a[a.index('--') + 1:]
        a = a[:a.index('--')]
    for i in a or sorted(os.listdir(S)):
        print(i, confirm(i) if sys.argv[1] == 'confirm' else check(i, props), flush=True)
