"""Generated designs in nvc against the reference model of the simulation cycle."""
import hashlib, os, random
from .. import nvcsim
from ..cases import result, failed_proc
from . import gen, kernel, run as vrun

NOW = 1600000000000000000
DEV = ('delayed', 'ppwait')
PROFILE = {
    'core': dict(hier=0.15, guard=0.1, comp=0.05, force=0.05, records=0.3, postponed=0.3),
    'net': dict(hier=0.85, guard=0.35, comp=0.3, force=0.35, records=0.5, stdlogic=0.3, postponed=0.1),
    'all': {},
}


def design(case, dev=DEV):
    if 'text' in case:
        return None
    return gen.Design(case['seed'], feat=PROFILE[case['prof']], dev=dev, drop=case['drop'])


def new(seed, opts):
    r = random.Random('k%d' % seed)
    c = dict(seed=seed, prof=opts.get('prof', 'all'), drop=[], glob=[], elab=[], run=[], env={})
    if r.random() < 0.5:
        c['glob'].append('--seed=%d' % r.randint(1, 1 << 30))
        c['run'].append('--shuffle')
    if r.random() < 0.25:
        c['elab'].append('--no-collapse')
    if r.random() < 0.05:
        c['env']['NVC_GC_STRESS'] = '1'
    return c


def write(dir, name, text):
    p = os.path.join(dir, name)
    with open(p, 'w') as f:
        f.write(text)
    os.utime(p, (1.5e9, 1.5e9))


def argv(case, stop):
    return (['nvc'] + nvcsim.lib_args() + case['glob'] + ['-a', 't.vhd', '-e', '--jit'] + case['elab']
            + ['top', '-r'] + case['run'] + ['--stop-time=%dns' % stop])


def faults(case):
    f = {}
    if '--shuffle' in case['run']:
        f['process_order_shuffled'] = 1
    if '--no-collapse' in case['elab']:
        f['ports_not_collapsed'] = 1
    if case['env'].get('NVC_GC_STRESS'):
        f['gc_at_every_allocation'] = 1
    return f


def compare(D, case, out):
    """None or (sig, msg)."""
    obs, other = vrun.parse(out)
    if other:
        return 'message', 'unexpected message: ' + other[0][:200]
    got = vrun.groups(obs, 1, D.late)
    e = vrun.diff(vrun.groups(D.expected(), 10**6, D.late), got)
    if e and D.features & {'delayed', 'postponed'}:
        # The standard's behaviour is right as well, of course
        D2 = design(case, dev=())
        if vrun.diff(vrun.groups(D2.expected(), 10**6, D2.late), got) is None:
            e = None
    return ('differs', e) if e else None


def run(srv, d, case):
    try:
        D = design(case)
        D.expected()
        stats = dict(simulation_cycles=D.sim.cycles or D.sim.cycle, observations=len(D.sim.obs))
        D = design(case)
    except kernel.Overrun:
        return result()
    except Exception:
        if case['drop']:
            return result()
        raise
    if D.inout_in and '--no-collapse' in case['elab']:
        # Known finding inout-child: such ports have the wrong value unless collapsed
        case = dict(case, elab=[])
    write(d, 't.vhd', D.text)
    r = srv.run(d, [argv(case, D.stop)], env=case['env'], now=NOW, secs=60)
    out = r['outs'][0]
    bad = failed_proc(r)
    if bad is None and r['procs'][0]['rc'] != 0:
        bad = 'exit', 'exit status %d: %s' % (r['procs'][0]['rc'], out[-400:])
    if bad is None:
        bad = compare(D, case, out)
    feats = sorted(D.features)
    il = None
    if D.sim.cycle > 3 and len(D.sim.obs) > 3:
        il = hashlib.sha1(repr((D.sim.obs, case['glob'], case['elab'])).encode()).hexdigest()[:16]
    return result(bad[0] if bad else None, bad[1] if bad else '', il, D.stop * 1e-9, faults(case),
                  stats, feats, D.text[len(gen.PKG):] + '\n-- nvc ' + ' '.join(argv(case, D.stop)[1:]))


def lists(case):
    n = gen.Design(case['seed'], feat=PROFILE[case['prof']], dev=DEV).count
    keep = [i for i in range(n) if i not in set(case['drop'])]

    def build(k):
        k = set(k)
        return dict(case, drop=[i for i in range(n) if i not in k])
    opts = [(f, i) for f in ('elab', 'run') for i in case[f]] + [('env', k) for k in case['env']]

    def bopts(l):
        return dict(case, elab=[x for f, x in l if f == 'elab'], run=[x for f, x in l if f == 'run'],
                    env={x: case['env'][x] for f, x in l if f == 'env'})
    return [(opts, bopts), (keep, build)]
