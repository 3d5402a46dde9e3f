"""Framework shared by every check.

A check is: (1) TLC explores the TLA+ specification of a subsystem on its own (model checking),
(2) TLC generates behaviours of that specification which a C++ driver replays on the code built
from /repo's working tree, or the driver generates inputs itself, (3) the driver logs what the
public API returned, (4) TLC validates every log against the specification.
Only the specification says what is right."""
import glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 4)
BASE_FLAGS = ['-stdlib=libc++', '-std=gnu++14', '-pthread', '-g1', '-w', '-fms-extensions',
              '-fms-compatibility', '-fms-compatibility-version=19.30', '-U_MSC_VER',
              '-fno-delayed-template-parsing', '-include', VERIF + '/drivers/gnuc_macros.h',
              '-include', 'utility', '-I', REPO + '/include', '-I', REPO + '/experimental/include',
              '-I', VERIF + '/drivers']


class CheckError(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


class TlcTimeout(CheckError):
    pass


def errpart(o):
    i = o.find('Error:')
    return ' '.join(o[i:].split())[:2500] if i >= 0 else o[-2500:]


def extends(text, mod, seen=None):
    seen = set() if seen is None else seen
    for m in re.finditer(r'^EXTENDS (.*)$|INSTANCE (\w+)', text, re.M):
        for x in re.findall(r'\w+', m.group(1) or m.group(2)):
            if x == mod:
                return True
            p = VERIF + '/spec/' + x + '.tla'
            if x not in seen and os.path.exists(p):
                seen.add(x)
                if extends(open(p).read(), mod, seen):
                    return True
    return False


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.log = (lambda *a: print('  [%.1fs]' % (time.time() - self.t0), *a, flush=True)) if os.environ.get('VF_LOG') else (lambda *a: None)
        os.makedirs(VERIF + '/build', exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix=pid + '-', dir=VERIF + '/build')
        self.out = VERIF + '/out/' + pid
        shutil.rmtree(self.out, ignore_errors=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.models = []
        self.opcounts = {}
        self.violations = []
        self.known_hits = []
        self.assumptions = []
        self.extra = {}
        self.pool = ThreadPoolExecutor(NCPU)
        self.lock = threading.Lock()
        self.libs = {}
        self.asan_exes = set()
        self.known = load_known(pid)

    def budget(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- build
    def build(self, name, srcs=None, flags=(), libs=(), asan=False, opt='-O1', repo_src=()):
        """Compiles drivers/<name>.cpp (plus extra sources) against the current /repo tree."""
        srcs = [VERIF + '/drivers/' + s for s in (srcs or [name + '.cpp'])]
        srcs += [REPO + '/' + s for s in repo_src]
        fl = list(flags)
        if asan:
            fl += ['-fsanitize=address', '-fno-omit-frame-pointer']
        exe = '%s/%s' % (self.tmp, name + ('-' + hashlib.md5(' '.join(fl).encode()).hexdigest()[:6] if fl else ''))

        def one(a):
            i, s = a
            o = '%s.%d.o' % (exe, i)
            r = sh(['clang++-18'] + BASE_FLAGS + [opt] + fl + ['-c', s, '-o', o])
            return o, r
        objs = []
        for o, r in self.pool.map(one, enumerate(srcs)):
            if r.returncode != 0:
                raise CheckError('driver %s does not compile against /repo:\n%s' % (name, r.stdout[-4000:]))
            objs.append(o)
        link = [f for f in fl if f.startswith('-fsanitize')]
        r = sh(['clang++-18', '-stdlib=libc++', '-pthread'] + link + objs + [self.repo_lib(tuple(fl), opt)] + ['-o', exe] + list(libs))
        if r.returncode != 0:
            raise CheckError('driver %s does not link:\n%s' % (name, r.stdout[-4000:]))
        for o in objs:
            os.unlink(o)
        if link:
            self.asan_exes.add(exe)
        return exe

    def repo_lib(self, fl, opt):
        """An archive of everything under /repo/src, built once per set of flags."""
        with self.lock:
            if (fl, opt) in self.libs:
                return self.libs[(fl, opt)]
            lib = '%s/repo%d.a' % (self.tmp, len(self.libs))
            jobs = []
            for i, s in enumerate(sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))):
                o = '%s.%d.o' % (lib, i)
                jobs.append((o, subprocess.Popen(['clang++-18'] + BASE_FLAGS + [opt] + list(fl) + ['-c', s, '-o', o],
                                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            for o, p in jobs:
                t = p.communicate()[0]
                if p.returncode != 0:
                    raise CheckError('/repo/src does not compile:\n' + t[-3000:])
            r = sh(['ar', 'rcs', lib] + [o for o, _ in jobs])
            if r.returncode != 0:
                raise CheckError('ar failed: ' + r.stdout)
            self.libs[(fl, opt)] = lib
            return lib

    def build_all(self, specs):
        """specs: list of dict(kwargs for build); compiled in parallel."""
        with ThreadPoolExecutor(NCPU) as ex:
            return [f.result() for f in [ex.submit(self.build, **s) for s in specs]]

    # ---------------------------------------------------------------- TLC
    def tlc(self, module_text, cfg_text, name, args=(), env=None, mem='2g', workers='1', timeout=600, simulate=False):
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.tmp)
        with open('%s/%s.tla' % (d, name), 'w') as f:
            f.write(module_text)
        # a..b is not allowed in a TLC configuration file: write the set out
        cfg_text = re.sub(r'= *(-?\d+)\.\.(-?\d+) *$', lambda m: '= {' + ', '.join(
            str(i) for i in range(int(m.group(1)), int(m.group(2)) + 1)) + '}', cfg_text, flags=re.M)
        with open('%s/%s.cfg' % (d, name), 'w') as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        cp = JAR
        if extends(module_text, 'Big'):
            cp = self.big_classes() + ':' + JAR
        cmd = ['java', '-Xmx' + mem, '-Xss64m', '-XX:+UseSerialGC' if workers == '1' else '-XX:+UseParallelGC',
               '-Djava.io.tmpdir=' + d, '-DTLA-Library=' + VERIF + '/spec', '-cp', cp, 'tlc2.TLC',
               '-metadir', d + '/meta', '-workers', workers, '-noGenerateSpecTE',
               '-config', name + '.cfg'] + list(args) + [name + '.tla']
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors='replace', timeout=timeout)
            rc, o = r.returncode, r.stdout
        except subprocess.TimeoutExpired as x:
            rc, o = 'timeout', (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or '')
        shutil.rmtree(d, ignore_errors=True)
        o = '\n'.join(l for l in o.splitlines() if not l.startswith(('Parsing file', 'Semantic processing', 'Loading B', 'Linting of')))
        return rc, o

    def big_classes(self):
        """The evaluator of spec/Big.tla's operators (compared with their definitions by spec/BigLaws.tla)."""
        with self.lock:
            d = self.tmp + '/classes'
            if not os.path.isdir(d):
                os.mkdir(d)
                r = sh(['javac', '-cp', JAR, '-d', d, VERIF + '/spec/tlc2/module/Big.java'])
                if r.returncode != 0:
                    raise CheckError('Big.java does not compile: ' + r.stdout[-2000:])
            return d

    def big_laws(self):
        return self.model_async('BigLaws', 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANTS\nNum = %d\nExtra = %d\n' % (self.budget(2, 8), self.budget(3, 8)), workers='2')

    @staticmethod
    def tlc_counts(o):
        gen = dist = 0
        for m in re.finditer(r'(\d+) states generated, (\d+) distinct states found', o):
            gen, dist = int(m.group(1)), int(m.group(2))
        return gen, dist

    def model(self, module, cfg, workers=None, timeout=700, name=None, min_states=2, mem='6g'):
        """Exhaustive model checking of the specification on a bounded instance.
        cfg: text (CONSTANTS/INVARIANTS...). A failure here is an error of the specification, not of /repo."""
        name = name or module + 'MC'
        text = '---- MODULE %s ----\nEXTENDS %s\n====\n' % (name, module)
        rc, o = self.tlc(text, cfg, name, workers=workers or str(max(1, NCPU // 2)), timeout=timeout, mem=mem)
        gen, dist = self.tlc_counts(o)
        if rc != 0 or 'No error has been found' not in o or dist < min_states:
            raise CheckError('model checking of %s failed (rc=%s):\n%s' % (name, rc, errpart(o)))
        self.states += dist
        self.transitions += gen
        self.models.append(dict(model=name, distinct=dist, generated=gen))
        self.log('model', name, dist)
        return o

    def model_async(self, *a, **k):
        return self.pool.submit(self.model, *a, **k)

    def generate(self, module, cfg, num, depth, seed=None, timeout=300, next='Next', init='GenInit', name=None, nproc=2):
        """Behaviours of the specification, chosen by TLC's simulator: list of histories (lists of event dicts).
        The module must define vars `out`, and operators Init, Next."""
        name = name or module + 'Gen'
        text = ('---- MODULE %s ----\nEXTENDS %s, Json\nVARIABLES hist, done\n'
                'GInit == %s /\\ hist = <<Slim(out)>> /\\ done = FALSE\n'
                'GStep == Len(hist) < %d /\\ (%s) /\\ hist\' = Append(hist, Slim(out\')) /\\ done\' = FALSE\n'
                'GStop == Len(hist) = %d /\\ ~done /\\ PrintT("HIST " \\o ToJson(hist)) /\\ done\' = TRUE\n'
                '         /\\ UNCHANGED <<vars, hist>>\n'
                'GNext == GStep \\/ GStop\n====\n' % (name, module, init, depth, next, depth))
        full = 'INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANT P <- RandP\n' + cfg
        seed = self.seed if seed is None else seed

        def one(i):
            n = num // nproc + (1 if i < num % nproc else 0)
            rc, o = self.tlc(text, full, name, args=['-simulate', 'num=%d' % n, '-depth', str(depth + 3), '-seed', str(seed * 1009 + i)],
                             timeout=timeout)
            hs = []
            for line in o.splitlines():
                if line.startswith('"HIST '):
                    hs.append([e for e in json.loads(json.loads(line)[5:]) if e.get('op') != 'init'])
            if rc not in (0,) or not hs:
                raise CheckError('generation from %s failed (rc=%s, %d histories):\n%s' % (name, rc, len(hs), errpart(o)))
            return hs
        res = []
        with ThreadPoolExecutor(NCPU) as ex:
            for hs in ex.map(one, range(nproc)):
                res += hs
        self.log('generated', name, len(res))
        return res

    def enumerate(self, module, cfg, depth, timeout=300, next='Next', init='GenInit', name=None):
        """All behaviours of the specification of exactly `depth` events (breadth-first, exhaustive)."""
        name = name or module + 'Enum'
        text = ('---- MODULE %s ----\nEXTENDS %s, Json\nVARIABLE hist\n'
                'GInit == %s /\\ hist = <<Slim(out)>>\nGNext == Len(hist) < %d /\\ (%s) /\\ hist\' = Append(hist, Slim(out\'))\n'
                'GPrint == Len(hist) = %d => PrintT("HIST " \\o ToJson(hist))\n====\n' % (name, module, init, depth, next, depth))
        full = 'INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nINVARIANT GPrint\n' + cfg
        rc, o = self.tlc(text, full, name, timeout=timeout, mem='6g')
        hs = [[e for e in json.loads(json.loads(l)[5:]) if e.get('op') != 'init'] for l in o.splitlines() if l.startswith('"HIST ')]
        if rc != 0 or not hs:
            raise CheckError('enumeration from %s failed (rc=%s):\n%s' % (name, rc, errpart(o)))
        gen, dist = self.tlc_counts(o)
        self.states += dist
        self.transitions += gen
        self.models.append(dict(model=name, distinct=dist, generated=gen, histories=len(hs)))
        return hs

    # ---------------------------------------------------------------- drivers
    def run_driver(self, exe, args=(), stdin=None, timeout=120, env=None):
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=86:allocator_may_return_null=0:detect_stack_use_after_return=0:hard_rss_limit_mb=%d' % (3500 if self.tier == 'quick' else 12000)
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=87'
        e.update(env or {})
        outp = tempfile.mktemp(prefix='log-', dir=self.tmp)
        asan = exe in self.asan_exes

        def limits():        # a broken implementation must not fill the disk or the memory
            import resource
            resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (int(timeout) * 2 + 60,) * 2)     # also when this check is killed
            if not asan:
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        errp = outp + '.err'
        inp = None
        if stdin is not None:
            inp = outp + '.in'
            with open(inp, 'w') as f:
                f.write(stdin)
        t0 = time.time()
        with open(outp, 'w') as fo, open(errp, 'w') as fe, open(inp or '/dev/null') as fi:
            p = subprocess.Popen([exe] + [str(a) for a in args], stdin=fi, stdout=fo, stderr=fe, env=e, start_new_session=True, cwd=self.tmp, preexec_fn=limits)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 'timeout'
        with open(outp, errors='replace') as f:
            lines = (f.read() if rc == 0 else f.read(60 << 20)).split('\n')
        tail = lines.pop() if lines else ''
        evs = []
        for i, ln in enumerate(lines):
            if ln.strip():
                try:
                    evs.append(json.loads(ln))
                except Exception:
                    if rc == 0:
                        raise CheckError('driver wrote a malformed line: %r' % ln[:300])
        with open(errp, errors='replace') as f:
            err = f.read()
            m = re.search(r'.*(ERROR: |runtime error|terminate|Assertion)', err)
            err = err[m.start() if m else max(0, len(err) - 6000):][:6000]
        for p_ in (outp, errp, inp):
            if p_ and os.path.exists(p_):
                os.unlink(p_)
        return rc, evs, err

    # ---------------------------------------------------------------- validation
    def validate_once(self, module, events, cfg='', timeout=800, mem='3g', stateless=False):
        """TLC accepts or rejects one log. Returns (accepted_prefix_length, note).
        Stateless modules define Step as a predicate of the event alone: it is checked as an invariant of the states
        that hold the events one after the other (TLC caches LET definitions there, but not inside actions)."""
        path = tempfile.mktemp(prefix='trace-', suffix='.ndjson', dir=self.tmp)
        with open(path, 'w') as f:
            for e in events:
                f.write(json.dumps(e) + '\n')
        name = module + 'Trace'
        text = ('---- MODULE %s ----\nEXTENDS %s, Json, IOUtils\nVARIABLE l\n'
                'Trace == ndJsonDeserialize(IOEnv.TRACE)\n'
                'TInit == Init /\\ l = 1\n'
                'TNext == /\\ l <= Len(Trace) /\\ Step(Trace[l]) /\\ out\' = Trace[l] /\\ l\' = l + 1\n'
                'Post == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)\n====\n' % (name, module))
        full = 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Post\n' + cfg
        if stateless:
            text = ('---- MODULE %s ----\nEXTENDS %s, Json, IOUtils\nVARIABLE l\n'
                    'Trace == ndJsonDeserialize(IOEnv.TRACE)\n'
                    'TInit == Init /\\ l = 0\n'
                    'TNext == l < Len(Trace) /\\ l\' = l + 1 /\\ out\' = Trace[l + 1]\n'
                    'Holds == IF l = 0 THEN TRUE ELSE Step(out)\n'
                    'Post == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)\n====\n' % (name, module))
            full = 'INVARIANT Holds\n' + full
        rc, o = self.tlc(text, full, name, env={'TRACE': path}, timeout=timeout, mem=mem)
        os.unlink(path)
        m = re.search(r'<<"REACHED", (\d+), (\d+)>>', o)
        if rc == 0 and m:
            if int(m.group(2)) != len(events):
                raise CheckError('trace length mismatch')
            gen, dist = self.tlc_counts(o)
            return int(m.group(1)), None, dist, gen
        if rc == 'timeout':
            raise TlcTimeout('validation of %s timed out' % module)
        if stateless and 'Invariant Holds is violated' in o:
            return int(re.findall(r'\bl = (\d+)', o)[-1]) - 1, None, 0, 0
        # evaluation error: the log contains something the specification cannot even interpret
        ms = re.findall(r'\bl = (\d+)', o)
        if ('Error: Parsing or semantic analysis failed' in o or 'ConfigFileException' in o or 'OutOfMemory' in o
                or 'StackOverflow' in o or not ms):
            raise CheckError('TLC failed on %s (rc=%s):\n%s' % (name, rc, errpart(o)))
        return int(ms[-1]) - 1, 'evaluation: ' + ' '.join(o[o.find('Error:'):].split())[:900], 0, 0

    def validate(self, module, histories, cfg='', rerun=None, shards=None, what='', max_violations=3, timeout=None, stateless=False):
        """histories: list of event lists (each starts in the initial state, via a reset event or Init).
        rerun(hist) -> new event list for the same history (None: the log itself is the evidence)."""
        timeout = timeout or (400 if self.tier == 'quick' else 3000)
        slow = []
        shards = shards or NCPU - 1
        tot = sum(len(h) for h in histories)
        shards = max(1, min(shards, tot // (60 if stateless else 400) + 1, len(histories)))
        # balance by event count
        order = sorted(range(len(histories)), key=lambda i: -len(histories[i])) if not stateless else list(range(len(histories)))
        buckets = [[] for _ in range(shards)]
        load = [0] * shards
        for i in order:
            b = load.index(min(load))
            buckets[b].append(i)
            load[b] += len(histories[i]) + 1

        def one(idx):
            bad = []
            idx = sorted(idx)
            acc = [0, 0]
            while idx:
                evs = [e for i in idx for e in histories[i]]
                try:
                    n, note, dist, gen = self.validate_once(module, evs, cfg, timeout=timeout, stateless=stateless)
                except TlcTimeout as e:
                    slow.append(e)      # what the other shards found still counts
                    break
                if n >= len(evs):
                    acc = [dist, gen]
                    break
                k, pos = n, 0
                while k >= len(histories[idx[pos]]):
                    k -= len(histories[idx[pos]])
                    pos += 1
                bad.append((idx[pos], k, note))
                if len(bad) >= max_violations:
                    break
                idx = idx[:pos] + idx[pos + 1:]
            return bad, acc
        with ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, buckets))
        self.log('validated', module, tot, 'events in', shards, 'shards')
        rejected = []
        for bad, acc in res:
            rejected += bad
            self.states += acc[0]
            self.transitions += acc[1]
        self.traces += len(histories) - len(rejected)
        self.events += tot
        for h in histories:
            for e in h:
                o = e.get('op') or e.get('f') or '?'
                self.opcounts[o] = self.opcounts.get(o, 0) + 1
        for i in sorted(random.Random(self.seed).sample(range(len(histories)), min(3, len(histories)))):
            s = json.dumps(histories[i])
            if len(self.samples) < 8:
                self.samples.append(dict(spec=module, what=what, trace=json.loads(s) if len(s) < 3000 else s[:3000]))
        for i, k, note in rejected[:max_violations]:
            h = histories[i]
            confirmed = True
            if rerun is not None:
                h2 = rerun(h)
                n2, note2, _, _ = self.validate_once(module, h2, cfg, timeout=timeout) if h2 is not None else (0, None, 0, 0)
                confirmed = h2 is None or n2 < len(h2)
            else:
                n2, _, _, _ = self.validate_once(module, h, cfg, timeout=timeout, stateless=stateless)
                confirmed = n2 < len(h)
            if not confirmed:
                # not reproducible in isolation: confirm on the whole log (hidden state across histories)
                evs = [e for j in range(i + 1) for e in histories[j]]
                n3, _, _, _ = self.validate_once(module, evs, cfg, timeout=timeout, stateless=stateless)
                if n3 >= len(evs):
                    print('note: a rejection of %s did not repeat' % module)
                    continue
            self.violation(dict(kind='rejected by specification', spec=module, what=what, note=note,
                                rejected_event_index=k, rejected_event=h[k] if k < len(h) else None, history=h[:k + 1]))
        if slow and not self.violations:
            raise slow[0]
        return not rejected

    # ---------------------------------------------------------------- outcome
    def violation(self, rec):
        key = known_key(rec)
        for kf in self.known:
            if key is not None and all(key.get(k) == v for k, v in kf['match'].items()):
                self.known_hits.append(kf)
                return
        self.violations.append(rec)
        os.makedirs(self.out, exist_ok=True)
        p = '%s/replay-%d.json' % (self.out, len(self.violations))
        rec = dict(rec, property=self.pid, seed=self.seed, tier=self.tier)
        with open(p, 'w') as f:
            json.dump(rec, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (self.pid, p), flush=True)
        print('  ' + json.dumps({k: v for k, v in rec.items() if k not in ('history',)})[:900], flush=True)

    def finish(self):
        for kf in self.known_hits:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, kf['what']))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, events_validated=self.events,
                                events_by_operation=self.opcounts, models=self.models, samples=self.samples[:8], **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (VERIF, self.pid), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        print('%s %s: %d states, %d transitions, %d traces (%d events), %d violations, %.1fs' % (
            self.pid, self.tier, self.states, self.transitions, self.traces, self.events, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0

    # ---------------------------------------------------------------- common pipelines
    def replay(self, module, exe, histories, cfg='', what='', args=(), timeout=120, nproc=None, keep=None, env=None):
        """Replays specification-generated histories in the driver and validates what it logged.
        The driver reads one JSON event per line, each history starting with its first event, and
        prints one JSON event per input event."""
        def run(hs, tmo=timeout):
            return self.run_driver(exe, args, stdin=''.join(json.dumps(e) + '\n' for h in hs for e in h), timeout=tmo, env=env)
        nproc = nproc or NCPU - 1
        nproc = max(1, min(nproc, len(histories)))
        parts = [histories[i::nproc] for i in range(nproc)]
        logs = []
        with ThreadPoolExecutor(nproc) as ex:
            results = list(ex.map(run, parts))
        self.log('driver done', module, len(histories))
        crashed = 0
        for part, (rc, evs, err) in zip(parts, results):
            pos = 0
            for h in part:
                seg = evs[pos:pos + len(h)]
                pos += len(h)
                if len(seg) == len(h):
                    logs.append(seg)
                    continue
                if rc == 0:
                    raise CheckError('driver skipped events (%d of %d)' % (len(evs), sum(map(len, part))))
                # the driver died inside this history: confirm by replaying it alone
                if crashed < 3:
                    rc2, evs2, err2 = run([h], 30)
                    if rc2 == 0:
                        rc2, evs2, err2 = run(part[:part.index(h) + 1])
                    if rc2 != 0:
                        self.violation(dict(kind='the implementation crashed or hung', spec=module, what=what, exit=str(rc2),
                                            stderr=err2[:2500], event=h[min(len(evs2), len(h) - 1)], history=h))
                        crashed += 3 if rc2 == 'timeout' else 1
                    elif rc == 'timeout':
                        raise CheckError('driver ran out of time')
                break
        if logs:
            def rerun(h):
                rc, evs, err = run([h], 30)
                return evs if rc == 0 and len(evs) == len(h) else None
            self.validate(module, logs, cfg, rerun=rerun, what=what)

    def driver_timeout(self, t):
        if t is None:
            t = 120 if self.tier == 'quick' else 600
        return 30 if self.violations and self.tier == 'quick' else t

    def recorded(self, module, exe, runs, cfg='', what='', start='open', timeout=None, env=None):
        """The driver makes up its own histories (args give seed/size); each starts with a `start` event."""
        timeout = self.driver_timeout(timeout)
        crashed = 0
        with ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(lambda a: self.run_driver(exe, a, timeout=timeout, env=env), runs))
        logs = []
        for a, (rc, evs, err) in zip(runs, results):
            hs = []
            for e in evs:
                if e.get('op') == start or not hs:
                    hs.append([])
                hs[-1].append(e)
            if rc != 0 and crashed < 2:
                rc2, evs2, err2 = self.run_driver(exe, a, timeout=timeout, env=env)
                if rc2 == 0:
                    raise CheckError('driver failed once (%s), then passed: %s' % (rc, err[-500:]))
                self.violation(dict(kind='the implementation crashed or hung', spec=module, what=what, exit=str(rc2), args=list(map(str, a)),
                                    stderr=err2[:2500], history=hs[-1] if hs else []))
                crashed += 2 if rc2 == 'timeout' else 1
            logs += hs
        if not logs and not self.violations:
            raise CheckError('driver produced no events')
        if logs:
            self.validate(module, logs, cfg, what=what)

    def functional(self, module, exe, runs, cfg='', what='', timeout=None, env=None):
        """Stateless relation checks: the driver generates inputs (args give seed/size), logs
        (function, arguments, result) records and TLC checks each against the defining relation."""
        timeout = self.driver_timeout(timeout)
        crashed = 0
        with ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(lambda a: self.run_driver(exe, a, timeout=timeout, env=env), runs))
        allev = []
        for a, (rc, evs, err) in zip(runs, results):
            if rc != 0 and crashed < 2:
                rc2, evs2, err2 = self.run_driver(exe, a, timeout=timeout, env=env)
                if rc2 == 0:
                    raise CheckError('driver failed once (%s), then passed: %s' % (rc, err[-500:]))
                self.violation(dict(kind='the implementation crashed or hung', spec=module, what=what, exit=str(rc2), args=list(map(str, a)),
                                    stderr=err2[:2500], last_event=evs2[-1] if evs2 else None, history=[]))
                crashed += 2 if rc2 == 'timeout' else 1
            allev += [[e] for e in evs if not e.get('note')]
        if not allev:
            if not self.violations:
                raise CheckError('driver produced no events')
            return

        def rerun(h):
            return h
        seen, uniq = set(), []
        for h in allev:
            s = json.dumps(h[0], sort_keys=True)
            if s not in seen:
                seen.add(s)
                uniq.append(h)
        random.Random(self.seed).shuffle(uniq)
        self.validate(module, uniq, cfg, rerun=None, what=what, stateless=True)


def known_key(rec):
    ev = rec.get('rejected_event') or rec.get('event')
    return None if ev is None else {k: v for k, v in ev.items()}


def load_known(pid):
    """Findings on the pinned tree: lines `known: property=<id> match=<json> :: <what>`; an event that has all the
    fields of <json> with those values is that finding and no other."""
    p = VERIF + '/known-findings.txt'
    res = []
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) match=(\{.*\}) :: (.*)', ln.strip())
            if m and m.group(1) == pid:
                res.append(dict(match=json.loads(m.group(2)), what=m.group(3)))
    return res


def kill_children():
    """Ends every process this check started (descendants only)."""
    kids = {}
    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                with open('/proc/%s/stat' % d) as f:
                    kids.setdefault(int(f.read().rsplit(')', 1)[1].split()[1]), []).append(int(d))
            except (OSError, IndexError, ValueError):
                pass
    todo = [os.getpid()]
    while todo:
        for k in kids.get(todo.pop(), []):
            todo.append(k)
            try:
                os.kill(k, signal.SIGKILL)
            except OSError:
                pass


def watchdog(c, limit):
    """A change that makes the code very slow must still end with an answer: what was established so far."""
    def run():
        time.sleep(limit)
        if c.violations:
            rc = c.finish()
        else:
            print('ERROR: the check ran out of time')
            shutil.rmtree(c.tmp, ignore_errors=True)
            rc = 2
        sys.stdout.flush()
        kill_children()
        os._exit(rc)
    threading.Thread(target=run, daemon=True).start()


def main(pid, fn):
    c = Check(pid)
    if c.tier == 'quick':
        watchdog(c, 840)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        print('ERROR: ' + str(e))
        if c.violations:       # the violation was established before the machinery stopped
            rc = c.finish()
        else:
            shutil.rmtree(c.tmp, ignore_errors=True)
            rc = 2
    sys.exit(rc)
