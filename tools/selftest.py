#!/usr/bin/env python3
"""setup_cmd: checks that the compiler and the committed framework files are usable."""
import json, os, shutil, subprocess, sys, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in ('properties.jsonl', 'checks.json', 'MANIFEST.json', 'check.py', 'harness/engine/pbt.cpp'):
    assert os.path.exists(os.path.join(R, f)), f
json.load(open(R + '/checks.json'))
assert shutil.which('clang++'), 'clang++ missing'
with tempfile.TemporaryDirectory() as t:
    src = os.path.join(t, 'a.cpp')
    open(src, 'w').write('int main(){return 0;}')
    subprocess.check_call(['clang++', '-fsanitize=address,undefined', src, '-o', t + '/a'])
    subprocess.check_call([t + '/a'])
print('ok')
