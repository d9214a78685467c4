"""Common machinery: running TLC, running the code under test, verdicts, evidence."""
import json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, 'specs')
REPO = '/repo'
sys.path.insert(0, REPO)
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = 8


class MachineryError(Exception):
    """Something of ours failed: never reported as a verdict on the code."""


# ---------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self):
        self.out = ''
        self.records = []          # decoded "@@" lines
        self.generated = self.distinct = 0
        self.actions = {}          # action -> (distinct, generated)
        self.error = None
        self.wall = 0.0


def run_tlc(module, cfg, *, env=None, files=None, args=(), workers=NPROC, heap='6g', timeout=800,
            coverage=False, expect_error=False):
    """Run TLC on specs/<module>.tla with the configuration text `cfg`.

    All of specs/ is put in a scratch directory, together with `files`
    ({name: text}); lines printed by the spec as PrintT("@@" \\o ToJson(x))
    come back decoded in .records.
    """
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='vtlc-')
    try:
        for f in os.listdir(SPECS):
            if f.endswith(('.tla', '.json')):
                shutil.copy(os.path.join(SPECS, f), d)
        for k, v in (files or {}).items():
            with open(os.path.join(d, k), 'w') as fp:
                fp.write(v)
        with open(os.path.join(d, 'run.cfg'), 'w') as fp:
            fp.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e['VDIR'] = d
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-Djava.io.tmpdir=' + d, '-cp', JARS, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(d, 'states'), '-noGenerateSpecTE',
               '-config', 'run.cfg']
        if coverage:
            cmd += ['-coverage', '1']
        cmd += list(args) + [module + '.tla']
        outp = os.path.join(d, 'out.txt')
        with open(outp, 'wb') as fo:
            try:
                p = subprocess.run(cmd, cwd=d, env=e, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
        r = TLCResult()
        keep = []
        covseen = {}
        with open(outp, 'r', encoding='utf-8', errors='replace') as fp:
            for line in fp:
                if line.startswith('"@@'):
                    r.records.append(json.loads(json.loads(line)[2:]))
                    continue
                m = re.match(r'<(\w+) line \d+, col \d+ to line \d+, col \d+ of module \w+(?: \([^)]*\))?>: (\d+):(\d+)', line)
                if m:
                    covseen[m.group(1)] = covseen.get(m.group(1), 0)
                    r.actions[m.group(1)] = (int(m.group(2)), int(m.group(3)))
                m = re.match(r'(\d+) states generated, (\d+) distinct states found', line)
                if m:
                    r.generated, r.distinct = int(m.group(1)), int(m.group(2))
                m = re.match(r'The number of states generated: (\d+)', line)
                if m:
                    r.generated = int(m.group(1))
                    r.distinct = r.distinct or r.generated
                if len(keep) < 4000:
                    keep.append(line)
        r.out = ''.join(keep)
        r.wall = time.time() - t0
        if rc not in (0,):
            r.error = rc
            if not expect_error:
                lines = r.out.splitlines()
                i = next((n for n, l in enumerate(lines) if 'rror' in l or 'violated' in l), 0)
                raise MachineryError('TLC on %s: rc=%s\n%s' % (module, rc, '\n'.join(lines[i:i + 25])))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- running the code under test
class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def guarded(fn, case, timeout):
    """fn(case) -> observation; every failure of the code is an observation too."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        return fn(case)
    except CaseTimeout:
        return {'exc': 'Hang', 'msg': 'no result within %ss' % timeout}
    except RecursionError as e:
        return {'exc': 'RecursionError', 'msg': str(e)[:200]}
    except MemoryError as e:
        return {'exc': 'MemoryError', 'msg': str(e)[:200]}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%s' % (os.path.basename(f.filename), f.name) for f in tb][-3:]
        return {'exc': type(e).__name__, 'msg': str(e)[:200], 'where': where}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(fn, cases, timeout, q, wid, mem):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except Exception:
        pass
    sys.stdout = open(os.devnull, 'w')
    sys.stderr = open(os.devnull, 'w')
    try:
        import logging
        logging.disable(logging.CRITICAL)
    except Exception:
        pass
    hangs = 0
    for (i, c) in cases:
        if hangs >= 4:
            q.put((i, {'exc': 'Hang', 'msg': 'not run: earlier cases hung'}))
            continue
        o = guarded(fn, c, timeout)
        if isinstance(o, dict) and o.get('exc') == 'Hang':
            hangs += 1
        q.put((i, o))
    q.put((None, wid))
    q.close()
    q.join_thread()


def run_real(fn, cases, timeout=10.0, nproc=NPROC, mem=3 << 30, setup=None):
    """Observations of fn on every case, in worker processes (a crash, hang or
    blow-up of the code is an observation {'exc': ...}, never ours)."""
    if setup:
        setup()
    ctx = mp.get_context('fork')
    obs = [None] * len(cases)
    todo = list(enumerate(cases))
    rounds = 0
    while todo:
        rounds += 1
        n = min(nproc, max(1, len(todo)))
        chunks = [todo[i::n] for i in range(n)]
        qs, ps = [], []
        alive = {}
        for w, ch in enumerate(chunks):
            q = ctx.Queue()
            p = ctx.Process(target=_worker, args=(fn, ch, timeout, q, w, mem))
            p.daemon = True
            p.start()
            alive[w] = [p, q, time.time(), ch, 0]
        import queue as _queue
        died = []
        while alive:
            progress = False
            for w in list(alive):
                p, q, last, ch, done = alive[w]
                try:
                    while True:
                        i, o = q.get_nowait()
                        progress = True
                        alive[w][2] = time.time()
                        if i is None:
                            p.join(5)
                            del alive[w]
                            break
                        obs[i] = o
                        alive[w][4] += 1
                except _queue.Empty:
                    pass
                if w in alive:
                    p, q, last, ch, done = alive[w]
                    if (not p.is_alive() and q.empty()) or time.time() - last > 3 * timeout + 10:
                        if p.is_alive():
                            p.kill()
                        p.join(5)
                        time.sleep(0.05)
                        try:
                            while True:
                                i, o = q.get_nowait()
                                if i is not None:
                                    obs[i] = o
                        except _queue.Empty:
                            pass
                        died.append(ch)
                        del alive[w]
            if not progress:
                time.sleep(0.005)
        todo = []
        for ch in died:
            rest = [(i, c) for (i, c) in ch if obs[i] is None]
            if rest:
                obs[rest[0][0]] = {'exc': 'ProcessDied', 'msg': 'the process running the code ended or hung'}
                todo += rest[1:]
        if rounds > 200:
            for (i, c) in todo:
                obs[i] = {'exc': 'ProcessDied', 'msg': 'not run: too many crashes'}
            break
    return obs


# ---------------------------------------------------------------- checks
def load_known():
    """known_findings.txt: 'known: property=<id> key=<key> <text>' and 'fixed: ...' lines."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


class Check:
    def __init__(self, pid, tier, seed, level='model_checking'):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.rng = random.Random('%s/%s/%s' % (pid, seed, tier))
        import glob
        for f in glob.glob(os.path.join(VERIF, 'out', pid + '-*.json')):
            os.unlink(f)
        self.violations = []
        self.vacuous = []
        self.known_hit = {}
        self.known = load_known().get(pid, {})
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.notes = {}

    @property
    def quick(self):
        return self.tier == 'quick'

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def tlc(self, *a, **kw):
        r = run_tlc(*a, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        return r

    def fired(self, group, names_counts, required=()):
        """Record how often each spec action was taken; an action that never fires means vacuity."""
        d = self.cov.setdefault(group, {})
        for k, v in names_counts.items():
            d[k] = d.get(k, 0) + v
        missing = [k for k in required if not d.get(k)]
        if missing:
            # a violation found later may be why
            self.vacuous.append('%s never taken: %s' % (group, missing))

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)

    def finding(self, key, what):
        """A violation the known-findings file may list."""
        if key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return True
        return False

    def violation(self, clause, case, observed=None, expected=None):
        self.violations.append({'clause': clause, 'case': case, 'observed': observed, 'expected': expected})

    def finish(self):
        if self.vacuous and not self.violations:
            raise MachineryError('vacuous: ' + '; '.join(self.vacuous))
        outdir = os.path.join(VERIF, 'out')
        os.makedirs(outdir, exist_ok=True)
        for key in sorted(self.known):
            # listed findings are printed whether or not this run sampled them
            print('KNOWN-FINDING: property=%s [%s] %s (seen %d times in this run)' %
                  (self.pid, key, self.known[key], self.known_hit.get(key, 0)))
        seen = {}
        for v in self.violations:
            seen.setdefault(v['clause'], []).append(v)
        for n, (cl, vs) in enumerate(sorted(seen.items())[:8]):
            path = os.path.join(outdir, '%s-%s-%d.json' % (self.pid, re.sub(r'\W+', '_', cl)[:40], n))
            with open(path, 'w') as fp:
                json.dump({'property': self.pid, 'clause': cl, 'count': len(vs), 'first': vs[:3]}, fp, indent=1,
                          default=repr)
            print('VIOLATION property=%s replay=%s clause=%s (%d cases)' % (self.pid, path, cl, len(vs)))
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples or ['none'],
               'actions': self.cov}
        cov.update(self.notes)
        if self.known_hit:
            cov['known_findings_seen'] = self.known_hit
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1, default=repr)
        print('%s %s: states=%d transitions=%d traces=%d violations=%d wall=%.1fs' %
              (self.pid, self.tier, self.states, self.transitions, self.traces, len(self.violations),
               time.time() - self.t0))
        return 1 if self.violations else 0


# ---------------------------------------------------------------- batch validation
def validate(check, module, cases, *, chunk=2000, consts='', extra_cfg='', timeout=800, heap='8g',
             invariants=(), coverage=True):
    """Check recorded cases against a trace specification.

    The module reads the file named by IOEnv.CASES (an array of case records),
    starts one behaviour per case and prints, for every case exactly one
    verdict record [id |-> i, ok |-> BOOLEAN, clause |-> STRING, ...].
    Returns the verdicts by case index; a case without a verdict is an error of ours.
    """
    verdicts = [None] * len(cases)
    for base in range(0, len(cases), chunk):
        part = cases[base:base + chunk]
        cfg = 'INIT TraceInit\nNEXT TraceNext\nINVARIANT TraceVerdict\nCHECK_DEADLOCK FALSE\n'
        for i in invariants:
            cfg += 'INVARIANT %s\n' % i
        if consts:
            cfg += 'CONSTANTS\n' + consts + '\n'
        cfg += extra_cfg
        r = check.tlc(module, cfg, files={'cases.json': json.dumps(part)}, env={'CASES': 'cases.json'},
                      timeout=timeout, heap=heap, coverage=coverage)
        check.fired(module, {k: v[1] for k, v in r.actions.items()})
        for rec in r.records:
            if 'id' in rec:
                verdicts[base + rec['id'] - 1] = rec
    missing = [i for i, v in enumerate(verdicts) if v is None]
    if missing:
        raise MachineryError('%s: no verdict for cases %s' % (module, missing[:10]))
    check.traces += len(cases)
    return verdicts
