"""Shared parts of every check: building, evidence, violations, minimising."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, 'build')
REPO = '/repo'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
NCPU = min(8, os.cpu_count() or 8)
REPLAYS = os.path.join(V, 'replays')
T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


class CheckError(Exception):
    pass


def make(*targets, timeout=600):
    """Builds from /repo's working tree; dependency tracking is by content."""
    r = subprocess.run(['make', '-s', '-C', V, '-j%d' % NCPU] + list(targets),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    if r.returncode != 0:
        raise CheckError('build failed: ' + r.stdout.decode('utf8', 'replace')[-3000:])


def ddmin(items, test, budget_s):
    """Classic delta debugging; test(list) -> True while still failing."""
    end = time.time() + budget_s
    tests = 0
    n = 2
    while len(items) >= 1 and time.time() < end:
        if len(items) == 1:
            tests += 1
            if test([]):
                items = []
            break
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        done = False
        for i in range(len(chunks)):
            if time.time() > end:
                break
            cand = [x for j, c in enumerate(chunks) if j != i for x in c]
            tests += 1
            if test(cand):
                items = cand
                n = max(n - 1, 2)
                done = True
                break
        if not done:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items, tests


def known_findings(pid):
    """[(signature regex, description)] that do not count as violations."""
    out = []
    path = os.path.join(V, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) sig=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


class Check:
    """Collects one check run's results and turns them into its verdict."""

    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.violations = []      # (signature, message, replay path)
        self.known = set()
        self.t0 = time.time()
        self.faults = {}
        self.sim_s = 0.0
        self.notes = []

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def sample(self, s, most=4):
        if len(self.samples) < most:
            self.samples.append(s)

    def violation(self, sig, msg, replay_text=None, replay_path=None):
        for s, d in known_findings(self.pid):
            if s == sig:
                self.known.add(d)
                return False
        if replay_path is None:
            os.makedirs(REPLAYS, exist_ok=True)
            h = hashlib.sha1((sig + msg).encode()).hexdigest()[:8]
            replay_path = os.path.join(REPLAYS, '%s-%d-%s.replay' % (self.pid, SEED, h))
        if replay_text is not None:
            with open(replay_path, 'w') as f:
                f.write(replay_text)
        self.violations.append((sig, msg, replay_path))
        log('violation', sig, msg[:600])
        return True

    def finish(self, level='exploration'):
        wall = time.time() - self.t0
        cov = {
            'evaluations': self.evals,
            'distinct_nontrivial': len(self.distinct),
            'rule': self.rule,
            'samples': self.samples or ['none'],
            'runs_per_hour': int(self.evals / max(wall, 1e-3) * 3600),
            'simulated_seconds': round(self.sim_s, 9),
            'faults_injected': dict(sorted(self.faults.items())),
        }
        cov.update(self.cov)
        if self.notes:
            cov['notes'] = self.notes
        ev = {
            'property': self.pid,
            'tier': 'thorough' if TIER == 'thorough' else 'quick',
            'seed': SEED,
            'level': level,
            'coverage': cov,
            'assumptions': self.assumptions,
            'wall_s': round(wall, 2),
            'violations': len(self.violations),
        }
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        with open(os.path.join(V, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for d in sorted(self.known):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, d))
        for sig, msg, path in self.violations:
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  %s: %s' % (sig, msg[:1500].replace('\n', ' | ')))
        print('%s: %d runs, %d distinct non-trivial, %d violations, %.1fs'
              % (self.pid, self.evals, len(self.distinct), len(self.violations), wall))
        sys.stdout.flush()
        return 1 if self.violations else 0
