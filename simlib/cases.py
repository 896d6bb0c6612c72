"""Seeded search over generated cases, each run in simulated nvc processes.

A case is JSON: everything that decides one execution.  A module provides
  new(seed, opts) -> case
  run(server, dir, case) -> dict(sig, msg, il, sim_s, faults, stats, feats, detail)
      sig is None when every oracle agreed; il identifies what the run did (None: trivial)
  lists(case) -> [(elements, build)]   parts the minimiser may take away
"""
import glob, importlib, json, multiprocessing, os, queue, random, re, shutil, time, traceback
from .common import *
from . import nvcsim

STRIDE = 10000000


def result(sig=None, msg='', il=None, sim_s=0.0, faults=None, stats=None, feats=(), detail=''):
    return dict(sig=sig, msg=msg, il=il, sim_s=sim_s, faults=faults or {}, stats=stats or {},
                feats=list(feats), detail=detail)


def failed_proc(r, i=0):
    """Signature and message when a simulated process did not end normally."""
    p = r['procs'][i]
    t = r['outs'][i]
    m = re.search(r'Assertion .*failed.*|\*\*\* Caught signal.*|Internal error.*', t)
    if m and (p['rc'] != 0 or p['sim'] != 'ok'):
        return ('crash', m.group(0)[:300])
    m = re.search(r'(.*\n)(?:.*\n){0,8}?\[0x[0-9a-f]{6,}\] ', t)
    if m and p['rc'] != 0:
        return ('crash', 'stack trace: ' + re.sub(r'0x[0-9a-f]+', '', ' '.join(re.findall(r'Fatal: .*', t)[:1]) or m.group(1))[:250])
    if p['sim'] != 'ok':
        return ('sim-' + p['sim'], '%s: %s' % (p['sim'], p.get('msg', '')))
    if p.get('sig'):
        return ('crash', 'killed by signal %d; %s' % (p['sig'], t[-600:]))
    m = re.search(r'Fatal: .*', t)
    if m and p['rc'] != 0:
        return ('fatal', m.group(0)[:300])
    return None


def load(name):
    return importlib.import_module('simlib.' + name)


class Dir:
    """A scratch directory emptied before every run."""

    def __init__(self):
        self.path = nvcsim.scratch()

    def fresh(self):
        for f in os.listdir(self.path):
            p = os.path.join(self.path, f)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)
        return self.path

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)


def worker(k, jobs, base, end, binary, q, maxfail):
    os.nice(2)
    srv, d = nvcsim.Server(binary), Dir()
    nfail = 0
    n = k
    try:
        while time.time() < end:
            name, opts = jobs[n % len(jobs)]
            seed = base + n
            mod = load(name)
            case = mod.new(seed, opts)
            if case is not None:
                r = mod.run(srv, d.fresh(), case)
                q.put((seed, name, case if r['sig'] else None, r))
                if r['sig']:
                    nfail += 1
                    if nfail >= maxfail:
                        break
            n += worker.n
    except Exception:
        q.put((None, None, None, traceback.format_exc()))
    finally:
        srv.close()
        d.close()
        q.put(None)


def run_once(mod, binary, case):
    srv, d = nvcsim.Server(binary), Dir()
    try:
        return mod.run(srv, d.fresh(), case)
    finally:
        srv.close()
        d.close()


def same(a, b):
    return a is not None and b is not None and a.split('/')[0] == b.split('/')[0]


def minimise(mod, binary, case, sig, budget):
    end = time.time() + budget
    srv, d = nvcsim.Server(binary), Dir()
    tests = 0
    try:
        def bad(c):
            nonlocal tests
            tests += 1
            try:
                return c is not None and same(mod.run(srv, d.fresh(), c)['sig'], sig)
            except CheckError:
                srv.close()
                return False
        full = sum(len(e) for e, _ in mod.lists(case))
        for i in range(len(mod.lists(case))):
            items, build = mod.lists(case)[i]
            left = end - time.time()
            if left <= 0:
                break
            if items:
                out = ddmin(items, lambda l: bad(build(l)), left)
                items = out[0] if isinstance(out, tuple) else items
                c = build(items)
                if bad(c):
                    case = c
        return case, full, sum(len(e) for e, _ in mod.lists(case)), tests
    finally:
        srv.close()
        d.close()


def replay_text(chk_id, name, binary, case, r, note=''):
    head = ['# kind=case', '# property=' + chk_id, '# module=' + name,
            '# binary=' + os.path.basename(binary), '# sig=' + r['sig'],
            '# message=' + r['msg'].replace('\n', ' | ')[:1500]]
    if note:
        head.append('# minimised=' + note)
    head.append('# case=' + json.dumps(case))
    return '\n'.join(head) + '\n' + ''.join('| ' + l + '\n' for l in r['detail'].split('\n'))


def replay(hdr):
    binary = os.path.join(B, 'bin', hdr['binary'])
    nvcsim.setup(binary)
    mod = load(hdr['module'])
    if hasattr(mod, 'prepare'):
        mod.prepare()
    r = run_once(mod, binary, json.loads(hdr['case']))
    print('%s: %s' % (r['sig'] or 'ok', r['msg']))
    print('reproduced exactly' if r['sig'] == hdr['sig'] and
          r['msg'].replace('\n', ' | ')[:1500] == hdr['message'] else 'differs from the recorded run')
    return 1 if r['sig'] else 0


def demos(chk, mod, binary, items):
    """Known findings: fixed cases that fail on the unchanged tree."""
    for sig, case in items:
        r = run_once(mod, binary, case)
        if r['sig']:
            chk.violation(sig, 'known case: ' + r['msg'],
                          replay_text(chk.pid, mod.__name__.replace('simlib.', ''), binary, case, r))


def explore(chk, jobs, secs, binary=nvcsim.H2P, maxfail=2, minsecs=40, rotate=None):
    """jobs: [(module, opts)] taken in turn."""
    nvcsim.setup(binary)
    for name in sorted({n for n, _ in jobs}):
        m = load(name)
        if hasattr(m, 'prepare'):
            m.prepare()
    base = SEED * STRIDE
    end = time.time() + secs
    worker.n = NCPU
    q = multiprocessing.Queue()
    ps = [multiprocessing.Process(target=worker, args=(k, jobs, base, end, binary, q, maxfail))
          for k in range(NCPU)]
    for p in ps:
        p.start()
    live, fails, feats, stats, errs = NCPU, [], {}, {}, []
    recheck = {}
    while live:
        try:
            x = q.get(timeout=max(5, end + 240 - time.time()))
        except queue.Empty:
            for p in ps:
                p.kill()
            raise CheckError('workers stuck')
        if x is None:
            live -= 1
            continue
        seed, name, case, r = x
        if seed is None:
            errs.append(r)
            continue
        chk.evals += 1
        chk.sim_s += r['sim_s']
        for k, v in r['faults'].items():
            chk.fault(k, v)
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
        for f in r['feats']:
            feats[f] = feats.get(f, 0) + 1
        if r['il'] is not None:
            chk.distinct.add(name + r['il'])
        if r['sig']:
            fails.append((seed, name, case, r))
        elif len(recheck) < 64:
            recheck[seed] = (name, r['il'])
    for p in ps:
        p.join()
    if errs:
        raise CheckError(errs[0])
    seen, lost = set(), 0
    fails.sort(key=lambda f: len(json.dumps(f[2])))
    for seed, name, case, r in fails:
        if (name, r['sig']) in seen or len(seen) >= 4:
            continue
        mod = load(name)
        again = run_once(mod, binary, case)
        if not same(again['sig'], r['sig']):
            lost += 1
            log('not reproduced', name, seed, r['sig'], r['msg'][:300])
            continue
        seen.add((name, r['sig']))
        small, n0, n1, tests = minimise(mod, binary, case, r['sig'], minsecs)
        fin = run_once(mod, binary, small)
        if not same(fin['sig'], r['sig']):
            small, fin, n1 = case, again, n0
        chk.violation(fin['sig'], '%s seed %d: %s' % (name, seed, fin['msg']),
                      replay_text(chk.pid, name, binary, small, fin,
                                  '%d of %d elements in %d runs' % (n1, n0, tests)))
    det = 0
    if not fails:
        for s in sorted(recheck)[:6]:
            name, il = recheck[s]
            n = s - base
            mod = load(name)
            r = run_once(mod, binary, mod.new(s, jobs[n % len(jobs)][1]))
            det += 1
            if r['il'] != il:
                chk.notes.append('seed %d of %s diverged on a second run' % (s, name))
    for s in sorted(recheck)[:4]:
        chk.sample('%s seed %d: %s' % (recheck[s][0], s, recheck[s][1]), 8)
    cov = chk.cov
    cov['features'] = dict(sorted(feats.items()))
    for k, v in stats.items():
        cov.setdefault('totals', {})
        cov['totals'][k] = cov['totals'].get(k, 0) + v
    cov['determinism_rechecks'] = cov.get('determinism_rechecks', 0) + det
    cov['seeds'] = 'VERIF_SEED*%d upwards' % STRIDE
    if lost:
        chk.notes.append('%d failing runs did not reproduce' % lost)
        if not chk.violations:
            raise CheckError('failing runs did not reproduce; see the log')
