"""Shared machinery of the checks: building harnesses from /repo's working tree, running TLC
(model checking, behaviour generation, trace validation), reporting and evidence."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
JOBS = str(os.cpu_count() or 4)
JAR = '/opt/veriftools/tla/tla2tools.jar'


def errpart(out):
    """TLC output without the parsing chatter."""
    return '\n'.join(l for l in out.splitlines() if not l.startswith(('Parsing file', 'Semantic processing', '"@@[', '"@@{')))[-3500:] + '\n'


class CheckError(Exception):
    """The check could not decide: neither 0 nor 1."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class Check:
    def __init__(self, prop, level, tag=''):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.work = os.path.join(VERIF, 'build', prop + tag)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, 'replays')
        os.makedirs(self.replays, exist_ok=True)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.known = load_known(prop)
        self.known_hit = set()
        self.notes = {}
        self.pool = concurrent.futures.ThreadPoolExecutor(4)
        self.builds, self.models = [], []

    # ---------------------------------------------------------------- build
    def make(self, *targets, **kw):
        """Starts building; the first replay waits for it."""
        self.builds.append(self.pool.submit(self.make_now, *targets, **kw))

    def make_now(self, *targets, opt='-O0', timeout=800):
        cmd = ['make', '-s', '-j' + JOBS, '-f', os.path.join(VERIF, 'harness', 'Makefile'),
               'REPO=' + REPO, 'B=' + self.work, 'OPT=' + opt] + [os.path.join(self.work, t) for t in targets]
        t = time.time()
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if r.returncode != 0:  # perhaps code has moved to another source file: link with all of them
            r = subprocess.run(cmd + ['FULL=1'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-4000:])
            raise CheckError('building the harness failed')
        self.notes['build_s'] = round(self.notes.get('build_s', 0) + time.time() - t, 1)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, simulate=None, depth=None, env=None, workers=None, timeout=600, heap='4g', seed=None):
        """Runs TLC on spec/<module>.tla with spec/<cfg>; returns (rc, stdout)."""
        meta = tempfile.mkdtemp(prefix='tlc-%s-' % cfg.replace('.cfg', ''), dir=self.work)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cp = JAR + ':' + ':'.join(sorted(os.path.join('/opt/veriftools/tla', f) for f in os.listdir('/opt/veriftools/tla') if f.endswith('.jar') and f != 'tla2tools.jar'))
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta,
               '-DTLA-Library=' + os.path.join(VERIF, 'spec')]
        cmd += ['-cp', cp, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE', '-deadlock',
                '-config', os.path.join(VERIF, 'spec', cfg)]
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth or 20), '-seed', str(SEED if seed is None else seed), '-workers', '1']
        else:
            cmd += ['-workers', str(workers or JOBS), '-fp', '1']
        cmd += [os.path.join(VERIF, 'spec', module + '.tla')]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e, cwd=meta)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on %s/%s' % (module, cfg))
        shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout

    @staticmethod
    def counts(out):
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if m:
            g, d = m[-1]
            return int(g.replace(',', '')), int(d.replace(',', ''))
        m = re.findall(r'The number of states generated: ([\d,]+)', out)
        if m:
            return int(m[-1].replace(',', '')), 0
        return 0, 0

    def model_check(self, module, cfg, timeout=600, **kw):
        """Starts model checking; the check waits for it at its end."""
        self.models.append(self.pool.submit(self.model_check_now, module, cfg, timeout, **kw))

    def model_check_now(self, module, cfg, timeout=600, **kw):
        """Design-level check of the specification itself. The spec is ours: a failure here is an error of the check."""
        rc, out = self.tlc(module, cfg, timeout=timeout, **kw)
        if rc != 0 or 'No error has been found' not in out:
            # values shared by the workers of TLC are put in normal form in place, which several workers may do at once
            rc, out = self.tlc(module, cfg, timeout=timeout, **dict(kw, workers=1))
        if rc != 0 or 'No error has been found' not in out:
            sys.stdout.write(errpart(out))
            raise CheckError('the specification %s (%s) does not satisfy its own properties' % (module, cfg))
        g, d = self.counts(out)
        self.cov['states'] += d
        self.cov['transitions'] += g
        self.notes.setdefault('model_checking', []).append(dict(module=module, cfg=cfg, generated=g, distinct=d))

    def generate(self, module, cfg, num, depth, env=None, timeout=600):
        """Random behaviours of the generator spec; each printed as a line '@@<json>'."""
        t = time.time()
        n = max(1, min(int(JOBS), num // 40))
        shares = [num * (k + 1) // n - num * k // n for k in range(n)]
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            parts = list(ex.map(lambda k: self.tlc(module, cfg, simulate=shares[k], depth=depth, env=env, timeout=timeout,
                                                   heap='4g' if n == 1 else '2g', seed=SEED if n == 1 else SEED * 1000 + k), range(n)))
        res, g = [], 0
        for k, (rc, out) in enumerate(parts):
            had = len(res)
            for l in out.splitlines():
                m = re.match(r'^"@@(.*)"$', l)
                if m:
                    res.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
            if len(res) - had < shares[k] or 'Error:' in out:
                sys.stdout.write(errpart(out))
                raise CheckError('only %d behaviours generated by %s' % (len(res) - had, module))
            g += self.counts(out)[0]
        ops = {}
        for x in (y for b in res if isinstance(b, list) for y in b):
            if isinstance(x, dict) and 'op' in x:
                ops[x['op']] = ops.get(x['op'], 0) + 1
        self.notes.setdefault('generation', []).append(dict(module=module, cfg=cfg, behaviours=len(res), states=g, ops=ops, seconds=round(time.time() - t, 1)))
        return res

    def enumerate(self, module, cfg, env=None, timeout=600):
        """As generate, but TLC enumerates exhaustively (breadth first)."""
        rc, out = self.tlc(module, cfg, env=env, timeout=timeout, workers=1)
        res = []
        for l in out.splitlines():
            m = re.match(r'^"@@(.*)"$', l)
            if m:
                res.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
        if not res or rc != 0:
            sys.stdout.write(errpart(out))
            raise CheckError('enumeration failed in %s' % module)
        g, d = self.counts(out)
        self.cov['states'] += d
        self.cov['transitions'] += g
        return res

    # -------------------------------------------------------------- harness
    def write_script(self, name, behaviours):
        """behaviours: list of lists of commands; each behaviour starts with a reset."""
        path = os.path.join(self.work, name)
        with open(path, 'w') as f:
            for b in behaviours:
                f.write('{"op":"reset"}\n')
                for c in b:
                    f.write(json.dumps(c) + '\n')
        return path

    def run_harness(self, exe, script, trace, extra=(), timeout=600):
        with open(trace, 'w') as f:
            try:
                r = subprocess.run([os.path.join(self.work, exe), script] + list(extra), stdout=f,
                                   stderr=subprocess.PIPE, timeout=timeout)
                rc, err = r.returncode, r.stderr.decode('utf8', 'replace')
            except subprocess.TimeoutExpired as ex:
                rc, err = -999, 'the code under test did not return'
        return rc, err

    def run_split(self, exe, behaviours, name, trace, extra, timeout):
        """The behaviours on several processes at once; the traces are joined in order up to the first failure."""
        n = min(4 * int(JOBS), len(behaviours))
        parts = [behaviours[i * len(behaviours) // n:(i + 1) * len(behaviours) // n] for i in range(n)]
        with concurrent.futures.ThreadPoolExecutor(int(JOBS)) as ex:
            res = list(ex.map(lambda i: self.run_harness(exe, self.write_script('%s.part%d' % (name, i), parts[i]),
                                                         '%s.part%d' % (trace, i), extra, timeout), range(n)))
        with open(trace, 'w') as f:
            for i, (rc, err) in enumerate(res):
                f.write(open('%s.part%d' % (trace, i)).read())
                if rc != 0:
                    return rc, err
        return 0, ''

    def conform(self, exe, module, cfg, behaviours, name, extra=(), env=None, timeout=600, split=None):
        """Replays behaviours into the real code and lets TLC decide whether the recorded trace is a behaviour of
        the specification. Raises Violation when it is not (twice)."""
        for f in self.builds:
            f.result()
        t = time.time()
        script = self.write_script(name + '.script', behaviours)
        trace = os.path.join(self.work, name + '.ndjson')
        if split is None:
            split = len(behaviours) >= 24
        go = (lambda: self.run_split(exe, behaviours, name, trace, extra, timeout)) if split else \
             (lambda: self.run_harness(exe, script, trace, extra, timeout))
        rc, err = go()
        if rc != 0:
            rc2, err2 = go()
            if rc2 == 0:
                raise CheckError('the harness failed once with status %d and not again: %s' % (rc, err[-500:]))
            if rc2 == 3:
                sys.stdout.write(err2[-2000:])
                raise CheckError('the harness reports a set-up failure')
            lines = sum(1 for _ in open(trace))
            rp = self.save_replay(name, script, trace, module, cfg, lines + 1, 'the code under test crashed or hung (status %d): %s' % (rc2, err2[-1500:]), extra)
            raise Violation('code under test crashed or hung (status %d) after %d recorded events' % (rc2, lines), rp)
        lines = open(trace).read().splitlines()
        if len(lines) == 0:
            raise CheckError('empty trace')
        t1 = time.time()
        self.validate(module, cfg, trace, lines, name, script, extra, env, timeout)
        self.cov['traces_validated_against_impl'] += len(behaviours)
        self.notes.setdefault('replays', []).append(dict(name=name, behaviours=len(behaviours), events=len(lines), replay_s=round(t1 - t, 1), validation_s=round(time.time() - t1, 1)))
        self.notes['events_validated'] = self.notes.get('events_validated', 0) + len(lines)
        return lines

    def validate(self, module, cfg, trace, lines, name, script=None, extra=(), env=None, timeout=600):
        """TLC decides every event. Long traces are cut where an object starts afresh (specifications start over at a
        reset) and decided by several processes; the first event which is not allowed counts."""
        starts = [i for i, l in enumerate(lines) if l.startswith('{"cmd":{"op":"reset"}')]
        n = min(int(JOBS), len(lines) // 200)
        cuts = [0]
        for k in range(1, n):
            nxt = [i for i in starts if i >= len(lines) * k // n and i > cuts[-1]]
            if nxt:
                cuts.append(nxt[0])
        cuts.append(len(lines))
        def part(k):
            f = trace if len(cuts) == 2 else '%s.shard%d' % (trace, k)
            if len(cuts) > 2:
                with open(f, 'w') as o:
                    o.write('\n'.join(lines[cuts[k]:cuts[k + 1]]) + '\n')
            for attempt in (1, 2):
                rc, out = self.tlc(module, cfg, env=dict(env or {}, TRACE=f), workers=1, timeout=timeout, heap='4g' if len(cuts) == 2 else '3g')
                if rc == 0 and 'No error has been found' in out:
                    break
            return rc, out
        with concurrent.futures.ThreadPoolExecutor(len(cuts) - 1) as ex:
            res = list(ex.map(part, range(len(cuts) - 1)))
        for k, (rc, out) in enumerate(res):
            g, d = self.counts(out)
            if 'No error has been found' in out and rc == 0:
                if d < cuts[k + 1] - cuts[k]:
                    raise CheckError('trace validation visited %d states for %d events' % (d, cuts[k + 1] - cuts[k]))
                self.cov['states'] += d
                self.cov['transitions'] += g
                continue
            m = re.search(r'@@REJECTED (\d+)', out)
            if not m:
                sys.stdout.write(errpart(out))
                raise CheckError('TLC failed while validating a trace of %s' % name)
            bad = cuts[k] + int(m.group(1))
            detail = '\n'.join(l for l in out.splitlines() if l.startswith('"@@') or l.startswith('@@') or 'EXPECTED' in l)[:6000]
            rp = self.save_replay(name, script, trace, module, cfg, bad, detail, extra)
            raise Violation('event %d is not allowed by the specification: %s' % (bad, lines[bad - 1][:400] if bad <= len(lines) else '<end>'), rp)

    def save_replay(self, name, script, trace, module, cfg, line, detail, extra=()):
        d = os.path.join(self.replays, '%s-%s' % (self.prop, re.sub(r'\W+', '_', name)))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        if script and os.path.exists(script):
            shutil.copy(script, os.path.join(d, 'script.ndjson'))
        if trace and os.path.exists(trace):
            shutil.copy(trace, os.path.join(d, 'trace.ndjson'))
        with open(os.path.join(d, 'README'), 'w') as f:
            f.write('property %s, behaviour set %s\nspec %s with %s rejects trace.ndjson at event %s\nharness arguments: %s\n%s\n' % (self.prop, name, module, cfg, line, list(extra), detail))
        return d

    # -------------------------------------------------------------- finish
    def finish(self, fn):
        rc = 0
        viol = 0
        try:
            fn(self)
            for f in self.builds + self.models:
                f.result()
        except Violation as v:
            viol = 1
            print('rejected:', v.what)
            print('VIOLATION property=%s replay=%s' % (self.prop, v.replay))
            rc = 1
        except CheckError as e:
            print('ERROR: check of %s could not decide: %s' % (self.prop, e))
            return 2
        except subprocess.TimeoutExpired as e:
            print('ERROR: check of %s ran out of time: %s' % (self.prop, e))
            return 2
        for k in self.known:
            if k['id'] in self.known_hit:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        cov = dict(self.cov)
        cov['details'] = self.notes
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=viol)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if rc == 0:
            print('%s: held on everything explored (%d states, %d behaviours validated, %.0f s)' % (
                self.prop, self.cov['states'], self.cov['traces_validated_against_impl'], time.time() - self.t0))
            shutil.rmtree(self.work, ignore_errors=True)
        return rc


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get('known', []) if k['property'] == prop]


def tier(q, t):
    return t if TIER == 'thorough' else q
