#!/usr/bin/env python3
"""Development aid: mut.py <check id> <mutations file>: applies each mutation (lines 'file|||old|||new', python
str.replace of the first occurrence; new may contain \\n) to a scratch copy of /repo and runs the check there."""
import os, subprocess, sys, shutil
pid, mf = sys.argv[1:3]
only = set(map(int, sys.argv[3:]))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/mut-' + pid
shutil.rmtree(S, ignore_errors=True)
os.makedirs(S)
for d in ('src', 'include', 'extern'):
    shutil.copytree(os.environ.get('MUT_BASE', '/repo') + '/' + d, S + '/' + d, symlinks=True)
for n, l in enumerate(open(mf)):
    if not l.strip() or (only and n not in only): continue
    f, old, new = l.rstrip('\n').split('|||')
    old = old.replace('\\n', '\n'); new = new.replace('\\n', '\n')
    p = S + '/' + f
    src = open(p).read()
    if old not in src: print(n, 'NOT FOUND', old); continue
    open(p, 'w').write(src.replace(old, new, 1))
    r = subprocess.run([V + '/bin/check', pid], env=dict(os.environ, VERIF_REPO=S), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(n, {0: 'MISSED', 1: 'caught', 2: 'ERROR'}.get(r.returncode, r.returncode), l.strip()[:150], '' if r.returncode != 2 else r.stdout[-150:], flush=True)
    open(p, 'w').write(src)
shutil.rmtree(S)
