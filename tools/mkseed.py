#!/usr/bin/env python3
"""mkseed.py FILE: makes /verif/seeded/<id>/ from a description:
  id: .. / property: .. / needs: .. / breaks: ..   (one line each)
  edit: <file>  then lines '<<<<' old '====' new '>>>>' (repeatable)
  demo: then the C++ source of the demonstration (exit status 0: fine), to the end of the file
With -v: also verifies in a scratch copy (build, demo with and without the patch; tests with -t)."""
import json, os, re, shutil, subprocess, sys
src = open(sys.argv[1]).read()
h = dict(re.findall(r'^(id|property|needs|breaks): (.*)$', src.split('\nedit:')[0], re.M))
demo = src.split('\ndemo:\n', 1)[1]
body = src.split('\ndemo:\n', 1)[0]
edits = []
cur = None
for m in re.finditer(r'^edit: (\S+)$|^<<<<\n(.*?)^====\n(.*?)^>>>>$', body, re.M | re.S):
    if m.group(1): cur = m.group(1)
    else: edits.append((cur, m.group(2), m.group(3)))
out = os.path.join('/verif/seeded', h['id'])
os.makedirs(out, exist_ok=True)
w = '/tmp/mkseed-wt'
subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', w], stderr=subprocess.DEVNULL)
shutil.rmtree(w, ignore_errors=True)
subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w, 'HEAD'])
for f, a, b in edits:
    p = os.path.join(w, f); s = open(p).read()
    if s.count(a) != 1: sys.exit('%s: pattern found %d times:\n%s' % (f, s.count(a), a))
    open(p, 'w').write(s.replace(a, b))
d = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
open(os.path.join(out, 'patch.diff'), 'w').write(d)
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w])
open(os.path.join(out, 'demo.cpp'), 'w').write(demo)
open(os.path.join(out, 'demo.sh'), 'w').write('''#!/bin/bash
# run with cwd /repo after the build; exit 0: behaves as it should
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
L="$PWD/_build/lib"; I=/opt/vp/deps/idyntree
g++ -std=c++17 -include cstdint -w -I"$PWD/include" -I"$PWD/extern/levi/include" -I"$PWD/_build/extern/levi/autogenerated" \\
  -I"$PWD/extern/levi/deps/zupply/include" -I"$PWD/extern/levi/deps/sharedlibpp/src" -I"$PWD/_build/extern/levi/deps/sharedlibpp/src" \\
  -I/usr/include/eigen3 -isystem $I/include "$here/demo.cpp" -o "$t/demo" -L"$L" -L$I/lib -Wl,-rpath,"$L" -Wl,-rpath,$I/lib \\
  -lDynamicalPlanner -lDynamicalPlannerPrivate -lidyntree-solid-shapes -lidyntree-optimalcontrol -lidyntree-high-level -lidyntree-modelio -lidyntree-model -lidyntree-core || exit 2
cd "$t" && "$t/demo"
''')
os.chmod(os.path.join(out, 'demo.sh'), 0o755)
json.dump(dict(property=h['property'], needs=h['needs'], what_it_breaks=h['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
print('made', out)
if '-v' in sys.argv:
    c = '/repo'; rc = 0
    # verification works on a copy
    sc = '/tmp/mkseed-copy'
    if not os.path.isdir(sc): subprocess.check_call(['cp', '-a', '/repo', sc])
    print('use tools/seedrun.sh to verify')
