"""In-process thread simulations (sim/h1.c): C04..C09."""
import json, os, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from .common import *

H1 = os.path.join(B, 'bin', 'h1')
CHUNK = 50


def run_h1(workload, seed, count=1, secs=0, T=0, O=0, replay=None, dump=None, timeout=None):
    cmd = [H1, '-w', workload, '-s', str(seed), '-n', str(count)]
    if secs: cmd += ['-t', str(secs)]
    if T: cmd += ['-T', str(T)]
    if O: cmd += ['-O', str(O)]
    if replay: cmd += ['-r', replay]
    if dump: cmd += ['-d', dump]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if p.returncode != 0:
        raise CheckError('h1 failed (%d): %s' % (p.returncode, p.stderr.decode()[-500:]))
    out = []
    for line in p.stdout.decode('utf8', 'replace').splitlines():
        if line.startswith('{'):
            out.append(json.loads(line))
    return out


def describe(r):
    m = r['msg'] or ''
    if r['err'] and r['res'].startswith(('crash', 'exit')):
        m += ' ' + r['err']
    return (r['res'] + ': ' + m.strip())[:1500]


def signature(wl, r):
    # The class of a failure: digits vary between schedules
    m = re.sub(r'0x[0-9a-f]+|\d+', '#', r['msg'] or '').split('\n')[0]
    m = re.sub(r'[^A-Za-z#_]+', '-', m)[:60].strip('-')
    return '%s/%s/%s' % (wl, re.sub(r'-\d+$', '', r['res']), m)


def same_class(a, b):
    return a.split('/')[:2] == b.split('/')[:2]


def parse_replay(path):
    hdr, ents = {}, []
    for line in open(path):
        if line.startswith('S '):
            ents.append(line)
        elif line.startswith('# ') and '=' in line:
            k, v = line[2:].rstrip('\n').split('=', 1)
            hdr[k] = v
    return hdr, ents


def replay(path):
    """Replays a minimised schedule; returns the outcome line."""
    hdr, ents = parse_replay(path)
    with tempfile.NamedTemporaryFile('w', suffix='.tr', dir='/tmp') as f:
        f.writelines(ents)
        f.flush()
        r = run_h1(hdr['workload'], int(hdr['seed']), T=int(hdr.get('T', 0)),
                   O=int(hdr.get('O', 0)), replay=f.name, timeout=300)[0]
    return r, hdr


def minimise(chk, wl, r):
    """Gate and shrink one failing seed; returns replay text or None."""
    seed = r['seed']
    sig = signature(wl, r)
    again = run_h1(wl, seed, timeout=300)[0]
    if again['res'] != r['res'] or (again['hash'] != r['hash'] and r['res'] != 'timeout'):
        return None
    # Smaller workloads that fail in the same way
    best = (0, 0, again)
    end = time.time() + 25
    for T in (1, 2, 3, 4, 0):
        for O in (1, 2, 4, 8, 16, 0):
            if (T, O) == (0, 0) or time.time() > end:
                continue
            n = run_h1(wl, seed, T=T, O=O, timeout=300)[0]
            if n['res'] != 'ok' and n['res'] != 'timeout' and same_class(signature(wl, n), sig):
                best = (T, O, n)
                break
        else:
            continue
        break
    T, O, b = best
    d = tempfile.mkdtemp(prefix='h1min', dir='/tmp')
    try:
        tr = os.path.join(d, 'trace')
        run_h1(wl, seed, T=T, O=O, dump=tr, timeout=300)
        ents = [l for l in open(tr) if l.startswith('S ')] if os.path.exists(tr) else []
        full = len(ents)

        def attempt(lines):
            with open(tr, 'w') as f:
                f.writelines(lines)
            x = run_h1(wl, seed, T=T, O=O, replay=tr, timeout=300)[0]
            return x if x['res'] != 'ok' and same_class(signature(wl, x), sig) else None

        if full >= 190000 or attempt(ents) is None:
            # Trace overflowed or diverges: the seed itself is the replay
            return ('# kind=h1\n# property=%s\n# workload=%s\n# seed=%d\n# T=%d\n# O=%d\n'
                    '# mode=seed\n# result=%s\n# hash=%s\n# message=%s\n'
                    % (chk.pid, wl, seed, T, O, b['res'], b['hash'],
                       describe(b).replace('\n', ' | ')))
        ents, tests = ddmin(ents, lambda l: attempt(l) is not None, 30)
        fin = attempt(ents)
        fin2 = attempt(ents)
        if fin is None or fin2 is None or fin['hash'] != fin2['hash']:
            return None
        return ('# kind=h1\n# property=%s\n# workload=%s\n# seed=%d\n# T=%d\n# O=%d\n'
                '# mode=trace\n# result=%s\n# hash=%s\n# message=%s\n'
                '# minimised=%d of %d scheduling decisions in %d tests\n%s'
                % (chk.pid, wl, seed, T, O, fin['res'], fin['hash'],
                   describe(fin).replace('\n', ' | '), len(ents), full, tests,
                   ''.join(ents)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def explore(chk, workloads, secs, real, stub, probes=None):
    """workloads: [(name, share of the time)]"""
    make(H1)
    chk.cov['components_real'] = real
    chk.cov['components_stub'] = stub
    base = SEED * 1000000
    per = {}
    probehit = {}
    # Determinism: the same seeds in different processes and batch sizes
    det = 0
    tot = sum(s for _, s in workloads)
    seen_sigs = {}
    unreproduced = 0
    for wl, share in workloads:
        budget = max(3.0, secs * share / tot)
        end = time.time() + budget
        st = per.setdefault(wl, dict(runs=0, events=0, switches=0, decisions=0, work=0,
                                     interleavings=0, threads=0))
        ils = set()
        fails = []
        first = {}

        def job(k):
            left = end - time.time()
            if left <= 0.3:
                return []
            return run_h1(wl, base + k * CHUNK, CHUNK, secs=max(1, int(left + 0.7)), timeout=900)

        k = 0
        stop = False
        with ThreadPoolExecutor(NCPU) as ex:
            while time.time() < end and not stop:
                batch = list(ex.map(job, range(k, k + NCPU * 2)))
                k += NCPU * 2
                for rs in batch:
                    for r in rs:
                        chk.evals += 1
                        st['runs'] += 1
                        for f in ('events', 'switches', 'decisions', 'work', 'threads'):
                            st[f] += r[f]
                        chk.sim_s += r['vtime'] * 1e-9
                        chk.fault('spurious_condvar_wakeup', r['spur'])
                        chk.fault('forced_preemption', r['switches'])
                        for n, v in r.get('faults', {}).items():
                            chk.fault(n, v)
                        if r['threads'] > 1 and r['switches'] > 1 and r['work'] > 0:
                            chk.distinct.add(wl + r['il'])
                            ils.add(r['il'])
                        for i, v in enumerate(r['probes']):
                            if v:
                                key = '%s:%d' % (wl, i)
                                probehit[key] = probehit.get(key, 0) + 1
                        first.setdefault(r['seed'], r['hash'])
                        if r['res'] != 'ok':
                            fails.append(r)
                if len(fails) >= 3:
                    stop = True
        st['interleavings'] = len(ils)
        for r in sorted(fails, key=lambda r: r['ntrace'])[:6]:
            sig = signature(wl, r)
            if sig in seen_sigs:
                continue
            text = minimise(chk, wl, r)
            if text is None:
                unreproduced += 1
                log('not reproducible:', wl, r['seed'], describe(r)[:300])
                continue
            seen_sigs[sig] = True
            chk.violation(sig, describe(r), text)
        if not fails:
            # Same seeds, other batch boundaries and worker counts
            n = 0
            for s in list(first)[:12:3]:
                x = run_h1(wl, s, 1, timeout=300)[0]
                n += 1
                if x['hash'] != first[s]:
                    chk.notes.append('seed %d of %s diverged on a second run' % (s, wl))
            det += n
        s = list(first.items())[:1]
        if s:
            chk.sample('workload %s seed %d: execution hash %s' % (wl, s[0][0], s[0][1]), 8)
    chk.cov['per_workload'] = per
    chk.cov['probes_hit'] = probehit
    chk.cov['determinism_rechecks'] = det
    chk.cov['interleaving_measure'] = ('hash of the sequence of (thread, local event number, '
                                       'next thread) at every context switch')
    chk.cov['seeds'] = 'VERIF_SEED*1000000 upwards'
    if unreproduced:
        chk.notes.append('%d failing runs did not reproduce' % unreproduced)
        if not chk.violations:
            raise CheckError('failing runs did not reproduce; see the log')
