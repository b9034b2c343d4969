#!/usr/bin/env python3
"""Runs checks against one-line mutants in a scratch copy (/tmp/mut/repo).

  mutate.py SPEC.py [ID...]   SPEC.py defines M = [(id, 'Cxx [Cyy]', file, old, new), ...]
Prints, per mutant and property, CAUGHT / missed / BROKEN (does not build).
"""
import os, runpy, subprocess, sys, time, shutil, glob
RB = os.environ.get('MUT_DIR', '/tmp/mut/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def main():
    if not os.path.isdir(RB):
        os.makedirs(os.path.dirname(RB), exist_ok=True)
        sh(f'git clone -q /repo {RB}')
    sh(f'cd {RB} && git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD')
    only = set(sys.argv[2:])
    for id_, props, f, old, new in runpy.run_path(sys.argv[1])['M']:
        if only and id_ not in only:
            continue
        p = os.path.join(RB, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(id_, f'SPEC: {t.count(old)} matches in {f}', flush=True)
            continue
        open(p, 'w').write(t.replace(old, new))
        for pid in props.split():
            t0 = time.time()
            before = set(glob.glob(f'{ROOT}/replays/*'))
            r = sh(f'PBT_REPO={RB} VERIF_SEED=1 python3 {ROOT}/check.py {pid}', cwd=ROOT)
            for x in set(glob.glob(f'{ROOT}/replays/*')) - before:
                os.unlink(x)
            v = {0: 'missed', 1: 'CAUGHT'}.get(r.returncode, 'BROKEN')
            m = [l for l in r.stdout.splitlines() if l.startswith('failure in')]
            print(id_, pid, v, f'{time.time()-t0:.0f}s', (m[0][:160] if m else r.stdout[-300:] if v == 'BROKEN' else ''), flush=True)
        open(p, 'w').write(t)
main()
