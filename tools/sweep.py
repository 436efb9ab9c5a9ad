#!/usr/bin/env python3
"""Development aid: random small changes of /repo's sources (not of headers), each replayed with the behaviours of the
checks; a change whose recorded traces equal those of the unchanged code has gone unnoticed (or has no effect).
  sweep.py prep C08 C09 ..   behaviours of these checks, harnesses, reference traces (in /tmp/sweep)
  sweep.py run <source file relative to /repo> <number> [seed]"""
import concurrent.futures, importlib.util, json, os, random, re, shutil, subprocess, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import vlib
W = '/tmp/sweep'
B = W + '/base'
def prep(ids):
    jobs, targets = [], set()
    class Rec(vlib.Check):
        def make(self, *t, **k): targets.update(t)
        def model_check(self, *a, **k): pass
        def conform(self, exe, module, cfg, behaviours, name, extra=(), **k):
            p = '%s/%s-%s.script' % (W, self.prop, name)
            shutil.copy(self.write_script(name, behaviours[:int(os.environ.get('CAP', '150'))]), p)
            jobs.append(dict(id=self.prop + '-' + name, exe='polyterms' if False else exe, extra=list(extra), script=p))
    for i in ids:
        spec = importlib.util.spec_from_file_location(i, V + '/checks/' + i + '.py')
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        m.check(Rec(i, '', '-sweep'), vlib)
        shutil.rmtree(V + '/build/' + i + '-sweep', ignore_errors=True)
        print(i, 'generated', flush=True)
    os.makedirs(B, exist_ok=True)
    subprocess.check_call(['make', '-s', '-j8', '-f', V + '/harness/Makefile', 'REPO=/repo', 'B=' + B, 'OPT=-O0', 'FULL=1'] + [B + '/' + t for t in sorted(targets)])
    old = json.load(open(W + '/jobs.json')) if os.path.exists(W + '/jobs.json') else []
    jobs = [j for j in old if j['id'] not in {x['id'] for x in jobs}] + jobs
    def ref(j):
        import time
        t = time.time()
        j['trace'] = run(j, None)
        j['s'] = round(time.time() - t, 1)
        assert j['trace'] == run(j, None), j['id'] + ' is not deterministic'
        open('%s/%s.ref' % (W, j['id']), 'wb').write(j.pop('trace'))
        print(j['id'], j['s'], flush=True)
    with concurrent.futures.ThreadPoolExecutor(8) as ex: list(ex.map(ref, [j for j in jobs if j['id'][:3] in ids]))
    json.dump(sorted(jobs, key=lambda j: j['s']), open(W + '/jobs.json', 'w'), indent=1)
def run(j, lib):
    e = dict(os.environ)
    if lib: e['LD_PRELOAD'] = lib
    try: r = subprocess.run([B + '/' + j['exe'], j['script']] + j['extra'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, timeout=max(60, 6 * j.get('s', 100)))
    except subprocess.TimeoutExpired: return b'timeout'
    return r.stdout if r.returncode == 0 else b'crash'
SWAPS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r'\+=', '-='), (r'-=', '+='), (r'-=', '='), (r'\+=', '='), (r' < ', ' <= '), (r' > ', ' >= '),
         (r' <= ', ' < '), (r' >= ', ' > '), (r' < ', ' > '), (r'&&', '||'), (r'\|\|', '&&'), (r'==', '!='), (r'!=', '=='), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
         (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '1'), (r'\b3\b', '2'), (r'\b0\.0\b', '1.0'), (r'\b1\.0\b', '0.0'), (r'\b0\.5\b', '1.0'), (r'\b2\.0\b', '1.0'),
         (r'\bleft', 'right'), (r'\bright', 'left'), (r'Left', 'Right'), (r'Right', 'Left'), (r'\bi\b', 'j'), (r'\(i\)', '(0)'), (r'\[i\]', '[0]'), (r'lower', 'upper'), (r'upper', 'lower'),
         (r'= -', '= '), (r'if \((.*)\) *\{', 'if (false) {'), (r'if \((.*)\) *\{', 'if (true) {'), (r'State\b', 'Control'), (r'[Ff]orce', 'Position'), (r'velocity', 'position'), (r'row', 'column'),
         (r'Min', 'Max'), (r'Max', 'Min'), (r'\bstate\b', 'control'), (r'Range\b', 'Range '), (r'\.transpose\(\)', ''), (r'\bcos\b', 'sin'), (r'frame', 'base')]
def mutants(src, n, seed):
    lines = src.split('\n'); out = []
    for i, l in enumerate(lines):
        t = l.strip()
        if not t or t.startswith(('//', '#', '*', '/*', 'assert', 'std::cerr', 'using', 'namespace', 'class', 'public', 'private', 'template', 'unused')) or 'cerr' in t or 'ERROR' in t or 'assert' in t: continue
        for a, b in SWAPS:
            for m in re.finditer(a, l):
                k = l[:m.start()] + m.expand(b) + l[m.end():]
                if k != l and l[:m.start()].count('"') % 2 == 0: out.append((i, k))
        if t.endswith(';') and not re.match(r'(return|break|continue|const|auto|iDynTree::|std::|double|bool|int|size_t|unsigned|levi::|typedef|static|\}|else)\b', t) and '}' not in t and '{' not in t and l.count('(') == l.count(')'):
            out += [(i, l[:len(l) - len(l.lstrip())] + ';')] * 2
    r = random.Random(seed); r.shuffle(out)
    seen = set(); res = []
    for i, k in out:
        if (i, k) not in seen and sum(1 for x in res if x[0] == i) < 2: seen.add((i, k)); res.append((i, k))
        if len(res) >= n * 3: break
    return lines, res
def one(a):
    rel, lines, i, k, jobs, no = a
    d = '%s/m-%s-%d' % (W, os.path.basename(rel), no); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    src = d + '/' + os.path.basename(rel)
    open(src, 'w').write('\n'.join(lines[:i] + [k] + lines[i + 1:]))
    obj = ('priv_' if 'private' in rel else 'plan_') + os.path.basename(rel)[:-4] + '.o'
    I = '/opt/vp/deps/idyntree'; R = '/repo'
    cxx = ['g++', '-std=c++17', '-O0', '-include', 'cstdint', '-w', '-fPIC', '-DNDEBUG', '-DVERIF_HOOKS', '-I' + R + '/include', '-I' + R + '/extern/levi/include', '-I' + B + '/gen',
           '-I' + R + '/extern/levi/deps/zupply/include', '-I' + R + '/extern/levi/deps/sharedlibpp/src', '-I/usr/include/eigen3', '-isystem', I + '/include', '-I' + os.path.dirname('/repo/' + rel)]
    try:
        if subprocess.run(cxx + ['-c', src, '-o', d + '/x.o'], stderr=subprocess.DEVNULL).returncode: return None
        objs = [B + '/' + o for o in os.listdir(B) if re.match(r'(priv|plan|ext)_.*\.o$', o) and o != obj]
        if subprocess.run(['g++', '-shared', d + '/x.o'] + objs + ['-o', d + '/libdp.so', '-L' + I + '/lib', '-Wl,-rpath,' + I + '/lib'] + LIBS, stderr=subprocess.DEVNULL).returncode: return None
        for j in jobs:
            if run(j, d + '/libdp.so') != open('%s/%s.ref' % (W, j['id']), 'rb').read(): return (j['id'], i, lines[i], k)
        return ('UNNOTICED', i, lines[i], k)
    finally: shutil.rmtree(d, ignore_errors=True)
LIBS = '-lidyntree-solid-shapes -lidyntree-inverse-kinematics -lidyntree-optimalcontrol -lidyntree-high-level -lidyntree-estimation -lidyntree-modelio -lidyntree-sensors -lidyntree-modelio-xml -lidyntree-model -lidyntree-core -ldl -lpthread'.split()
if sys.argv[1] == 'prep': prep(sys.argv[2:])
else:
    rel, n = sys.argv[2], int(sys.argv[3]); seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    jobs = json.load(open(W + '/jobs.json'))
    only = os.environ.get('JOBS')
    if only: jobs = [j for j in jobs if re.match(only, j['id'])]
    lines, ms = mutants(open('/repo/' + rel).read(), n, seed)
    got = 0; tot = 0; un = []
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('PAR', '7'))) as ex:
        it = iter(enumerate(ms)); fs = set()
        def more():
            x = next(it, None)
            if x is not None: fs.add(ex.submit(one, (rel, lines, x[1][0], x[1][1], jobs, x[0])))
        for _ in range(8): more()
        while fs:
            done, _ = concurrent.futures.wait(fs, return_when='FIRST_COMPLETED')
            for f in done:
                fs.discard(f); r = f.result()
                if r is not None:
                    tot += 1
                    if r[0] == 'UNNOTICED': un.append(r)
                if tot + len(fs) < n: more()
    print('%s: %d of %d noticed' % (rel, tot - len(un), tot), flush=True)
    for r in un: print('  %s:%d\n    - %s\n    + %s' % (rel, r[1] + 1, r[2].strip(), r[3].strip()), flush=True)
