#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy: plant.py new SPEC.py... | check ID...

A SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...]
and DEMO (C++ source). The scratch copy is /tmp/rb, built in /tmp/rb/_build.
"""
import json, os, subprocess, sys, runpy, shutil
RB = '/tmp/rb'
SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
DEMO_SH = '''#!/bin/bash
# Run in the repository after a build. Exit 0: the behaviour is as promised.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
INC="-I include"
for e in gtest gmock catch doctest boost_test boost; do INC="$INC -I extras/$e/include"; done
g++ -std=c++14 -O1 -w $INC FLAGS "$D/demo.cpp" _build/librapidcheck.a LIBS -o "$T/demo" || exit 1
cd "$T" && timeout 120 ./demo
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
CM = open('/opt/vp/build.sh').read().replace('/repo', RB)
def build(*targets):
    open('/tmp/rb_build.sh', 'w').write(CM)
    return sh('bash /tmp/rb_build.sh ' + ' '.join(targets))
def sync():
    if not os.path.isdir(RB):
        sh(f'cp -a /repo {RB} && rm -rf {RB}/_build')
    sh(f'cd {RB} && git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD')
    head = sh(f'git -C {RB} rev-parse HEAD').stdout.strip()
    assert head == sh('git -C /repo rev-parse HEAD').stdout.strip()
def tests():
    b = build()
    if b.returncode:
        return 'build failed\n' + b.stdout[-3000:]
    B = RB + '/_build'
    env = 'export RC_PARAMS=seed=20231214 LC_ALL=C.UTF-8; '
    R = B + '/vp-results'
    exes = f'{B}/test/rapidcheck_tests {B}/extras/boost/test/rapidcheck_boost_tests {B}/extras/gmock/test/rapidcheck_gmock_tests'
    r = sh(f'{env} rm -rf {R}; mkdir -p {R}; cd {B}; timeout 600 python3 /opt/vp/run_catch.py {R} {exes}; python3 /opt/vp/results.py /tmp/rb_out.json "junit:{R}/*.xml" "lines:{R}/*.lines"')
    o = json.load(open('/tmp/rb_out.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = base.get('passed') or base.get('stable') or base
    if isinstance(want, dict): want = list(want)
    miss = [t for t in want if t not in set(o['passed'])]
    return '' if not miss else f'{len(miss)} tests fail: {miss[:5]}'
def demo(d):
    r = sh(f'bash {d}/demo.sh', cwd=RB)
    return r.returncode, r.stdout[-600:]
def check(id):
    d = os.path.join(SEED, id)
    sync()
    b = build('rapidcheck')
    rc0, o0 = demo(d)
    a = sh(f'git -C {RB} apply {d}/patch.diff')
    if a.returncode:
        return f'does not apply: {a.stdout}'
    b = build('rapidcheck')
    rc1, o1 = demo(d)
    if rc0 != 0 or rc1 == 0:
        return f'demo: unpatched {rc0} ({o0}), patched {rc1} ({o1})'
    t = tests()
    sh(f'git -C {RB} checkout -q -- .')
    return t or f'OK (demo says: {o1.strip()[-200:]})'
def new(spec):
    s = runpy.run_path(spec)
    d = os.path.join(SEED, s['ID'])
    sync()
    for f, old, new_ in s['EDITS']:
        p = os.path.join(RB, f)
        t = open(p).read()
        assert t.count(old) == 1, f'{s["ID"]}: {t.count(old)} matches in {f}'
        open(p, 'w').write(t.replace(old, new_))
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh(f'git -C {RB} diff').stdout)
    sh(f'git -C {RB} checkout -q -- .')
    open(d + '/demo.cpp', 'w').write(s['DEMO'].lstrip())
    open(d + '/demo.sh', 'w').write(DEMO_SH.replace('FLAGS', s.get('FLAGS', '')).replace('LIBS', s.get('LIBS', '')))
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    return check(s['ID'])
if __name__ == '__main__':
    for x in sys.argv[2:]:
        try:
            r = (new if sys.argv[1] == 'new' else check)(x)
        except AssertionError as e:
            r = f'assert: {e}'
        print(x, '->', r, flush=True)
        id_ = runpy.run_path(x)['ID'] if sys.argv[1] == 'new' else x
        if not r.startswith('OK') and sys.argv[1] == 'new':
            shutil.rmtree(os.path.join(SEED, id_), ignore_errors=True)
