"""Shared machinery of the checks: dumping the current tree, running analyses in
isolated worker processes, filtering known findings, writing evidence."""
import os, sys, json, time, subprocess, signal, tempfile, traceback, pickle, resource, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, '.build')
REPO = '/repo'
sys.setrecursionlimit(200000)

class Undecidable(Exception):
    """the check cannot decide on this tree (reason in the message)"""

def build_driver():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'driver'))
    subprocess.run(['cargo', '+nightly', 'build', '--release', '--offline', '-q'],
                   cwd=os.path.join(HERE, 'driver'), env=env, check=True)

class Dump:
    """MIR dump of the fixture plus everything reachable from it, from /repo's current source"""
    def __init__(self, feat):
        self.path = os.path.join(BUILD, 'dump-%s-%d.json' % (feat, os.getpid()))
        drv = os.path.join(BUILD, 'driver', 'release', 'mirdump')
        if not os.path.exists(drv): build_driver()
        lock = open(os.path.join(BUILD, 'lock-' + feat), 'w')
        import fcntl
        fcntl.flock(lock, fcntl.LOCK_EX)
        # cargo decides freshness by mtime: force the subject and the fixture
        import shutil
        for base in ('build', '.fingerprint', 'incremental'):
            fp = os.path.join(BUILD, 'mir-' + feat, 'debug', base)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith(('mysql-connector', 'mysql_connector', 'verif')):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        r = subprocess.run([os.path.join(HERE, 'dump.sh'), feat, self.path], capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(self.path):
            raise Undecidable('client fixture does not build against /repo (%s): %s' % (feat, (r.stderr or r.stdout)[-1500:]))
    def load(self):
        from engine.ir import Prog
        return Prog(self.path)
    def close(self):
        try: os.remove(self.path)
        except OSError: pass

class Check:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.deadline = self.t0 + (700 if tier == 'quick' else 850)
        self.tasks = []
        self.violations = []       # dict(key, what, where, trace)
        self.undecided = []
        self.oblig = 0
        self.disch = 0
        self.funcs = set()
        self.samples = []
        self.assumptions = []
        self.rules = []
        self.notes = {}
        self.floors = []
        self.dumps = {}

    # ------------------------------------------------------------ programs
    def prog(self, feat='full'):
        p = self.dumps.get(feat)
        if p is None:
            d = Dump(feat)
            try: p = self.dumps[feat] = d.load()
            finally: d.close()
        return p

    # ------------------------------------------------------------ results
    def violation(self, key, what, where='', trace=None):
        for v in self.violations:
            if v['key'] == key: return
        self.violations.append(dict(key=key, what=what, where=where, trace=trace or []))
    def undec(self, what):
        if what not in self.undecided: self.undecided.append(what)
    def ob(self, n=1, d=None):
        self.oblig += n
        self.disch += n if d is None else d
    def floor(self, what, n, least):
        """instances examined; fewer than confirmed by hand means the rule lost its subject"""
        self.floors.append(dict(what=what, found=n, least=least))
        if n < least: self.undec('%s: only %d instances found, %d expected' % (what, n, least))

    # ------------------------------------------------------------ workers
    def task(self, name, fn, *args):
        self.tasks.append((name, fn, args))

    def run_tasks(self, par=8, timeout=None):
        """run queued tasks in forked workers; fn(*args) returns a dict that is merged"""
        res = fork_map(self.tasks, par, self.deadline, timeout)
        out = {}
        for name, r in res:
            out[name] = r
            if 'error' in r:
                self.undec('%s: %s' % (name, r['error']))
                continue
            for v in r.get('violations', ()): self.violation(**v)
            for u in r.get('undecided', ()): self.undec('%s: %s' % (name, u) if not u.startswith(name) else u)
            self.oblig += r.get('oblig', 0)
            self.disch += r.get('disch', 0)
            self.funcs |= set(r.get('funcs', ()))
            for s in r.get('samples', ()):
                if len(self.samples) < 40: self.samples.append(s)
            for k, n in r.get('counts', {}).items():
                self.notes[k] = self.notes.get(k, 0) + n
        self.tasks = []
        return out

    # ------------------------------------------------------------ output
    def finish(self, level, technique, explanation):
        known, fixed = load_known(self.pid)
        new = [v for v in self.violations if v['key'] not in known]
        old = [v for v in self.violations if v['key'] in known]
        ev = os.path.join(HERE, 'evidence')
        os.makedirs(ev, exist_ok=True)
        cov = dict(explanation=explanation, rules=self.rules, obligations=self.oblig, discharged=self.disch,
                   functions_analysed=len(self.funcs), functions=sorted(self.funcs)[:400],
                   counts=self.notes, floors=self.floors, undecided=self.undecided, samples=self.samples,
                   known_findings=[v['key'] for v in old],
                   checker_cmd='./check %s %s' % (self.pid, self.tier),
                   trusted_base=['rustc nightly MIR construction (mir-opt-level 0)', '/verif/driver (MIR dumper)',
                                 '/verif/engine (abstract interpreter and its models of std and dependency functions)'])
        if level == 'proof' and (self.undecided or self.oblig == 0):
            cov['proof_complete'] = False
        doc = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level,
                   coverage=cov, wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions,
                   violations=len(new))
        tmp = os.path.join(ev, '.%s.%d' % (self.pid, os.getpid()))
        json.dump(doc, open(tmp, 'w'), indent=1)
        os.replace(tmp, os.path.join(ev, self.pid + '.json'))
        for v in old: print('KNOWN-FINDING: property=%s %s' % (self.pid, known[v['key']]))
        for u in self.undecided[:20]: print('undecided: %s' % u[:300])
        print('%s %s: %d obligations, %d discharged, %d functions, %d violations, %d undecided, %.1fs' % (
            self.pid, self.tier, self.oblig, self.disch, len(self.funcs), len(new), len(self.undecided), time.time() - self.t0))
        if new:
            rp = os.path.join('evidence', '%s.violations.json' % self.pid)
            json.dump(new, open(os.path.join(HERE, rp), 'w'), indent=1)
            for v in new[:20]:
                print('  %s' % v['what'])
                if v['where']: print('    at %s' % v['where'])
                if v['trace']: print('    via %s' % ' > '.join(v['trace'][-8:]))
                print('    key %s' % v['key'])
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        vp = os.path.join(ev, self.pid + '.violations.json')
        if os.path.exists(vp): os.remove(vp)
        return 0

def load_known(pid):
    known, fixed = {}, []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: property=%s ' % pid):
                m = re.match(r'finding: property=\S+ key=(\S+) (.*)', l)
                if m: known[m.group(1)] = m.group(2)
            elif l.startswith('fixed: property=%s ' % pid): fixed.append(l)
    return known, fixed

def fork_map(tasks, par, deadline, timeout=None):
    """[(name, fn, args)] -> [(name, result)], each in its own forked process"""
    todo = list(tasks)
    running = {}
    res = []
    sys.stdout.flush(); sys.stderr.flush()
    def reap(pid, name, path, status):
        try:
            with open(path, 'rb') as f: r = pickle.load(f)
        except Exception:
            r = dict(error='worker ended without a result (status %s)' % status)
        try: os.remove(path)
        except OSError: pass
        res.append((name, r))
    while todo or running:
        while todo and len(running) < par:
            name, fn, args = todo.pop(0)
            if time.time() > deadline:
                res.append((name, dict(error='time budget of the check exhausted')))
                continue
            fd, path = tempfile.mkstemp(prefix='vt', dir=BUILD)
            os.close(fd)
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
                    import threading
                    threading.stack_size(512 << 20)
                    box = {}
                    def go():
                        try:
                            box['r'] = fn(*args)
                        except Undecidable as e:
                            box['r'] = dict(error=str(e))
                        except MemoryError:
                            box['r'] = dict(error='out of memory')
                        except BaseException as e:
                            if os.environ.get('VERIF_TRACE'): traceback.print_exc()
                            tb = traceback.extract_tb(e.__traceback__)[-1]
                            box['r'] = dict(error='analysis failed: %s %s (%s:%d)' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
                    th = threading.Thread(target=go); th.start(); th.join()
                    with open(path, 'wb') as f: pickle.dump(box['r'], f)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                os._exit(code)
            lim = min(deadline, time.time() + timeout) if timeout else deadline
            running[pid] = (name, path, lim)
        done = False
        for pid in list(running):
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                name, path, _ = running.pop(pid)
                reap(pid, name, path, st)
                done = True
            elif time.time() > running[pid][2]:
                name, path, _ = running.pop(pid)
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                try: os.remove(path)
                except OSError: pass
                res.append((name, dict(error='time budget exhausted')))
                done = True
        if not done: time.sleep(0.01)
    return res
