"""The property checks."""
import re
from .common import *
from . import inproc, cases, nvcsim

THOROUGH = TIER == 'thorough'


def secs(quick, thorough=None):
    return (thorough or quick * 10) if THOROUGH else quick


REAL_THREADS = 'thread.c (locks, parking bays, workers, stop-the-world)'
STUB_OS = ['kernel scheduling, futexes and signals delivery (simulated scheduler)',
           'clocks (virtual)']
RULE = ('One run = one seed = one randomly generated workload under one seeded schedule '
        '(random walk or PCT) of real threads switched at every atomic and plain memory access; '
        'non-trivial when at least two threads ran, at least two context switches happened and '
        'the workload did work; distinct by the hash of its context-switch sequence.')


def _inproc(pid, workloads, quick_s, real, probes=None):
    chk = Check(pid, RULE)
    chk.assumptions = ['Sequentially consistent memory: weaker hardware reorderings are not explored.',
                       'Workload bounds: at most 8 threads, a few hundred operations per thread.']
    inproc.explore(chk, workloads, secs(quick_s), real, STUB_OS)
    return chk.finish()


def C04():
    return _inproc('C04', [('mspace', 3), ('gcspace', 2), ('stopworld', 2)], 60,
                   ['rt/mspace.c (allocator and collector)', REAL_THREADS, 'mask.c'])


def C05():
    return _inproc('C05', [('lock', 1)], 40, [REAL_THREADS])


def C06():
    return _inproc('C06', [('workq', 3), ('async', 2), ('barrier', 1)], 60, [REAL_THREADS])


def C07():
    return _inproc('C07', [('ident', 1)], 50, ['ident.c', REAL_THREADS])


def C08():
    return _inproc('C08', [('chash', 1)], 45, ['hash.c (concurrent table)', REAL_THREADS])


def C09():
    return _inproc('C09', [('mirtype', 1)], 45, ['mir/mir-type.c', 'mir/mir-unit.c', 'hash.c', REAL_THREADS])


NVC_REAL = ['the whole compiler, elaborator, JIT interpreter and simulation kernel']
NVC_STUB = ['kernel scheduling and threads (simulated scheduler)', 'clocks (virtual)',
            'file system and network (simulated layer over a scratch directory)',
            'LLVM code generation is not part of these runs: everything runs in the interpreter']
RULE_K = ('One run = one seed = one random design analysed, elaborated and simulated by nvc in a '
          'simulated process, with a random process order, collapsed or separate ports and sometimes a '
          'collection at every allocation; every report is compared with the reference model. Non-trivial '
          'when more than three simulation cycles and three observations happened; distinct by the hash '
          'of the observed history and the settings.')


def _kernel(pid, prof, quick_s, known):
    from .vhdl import demo
    chk = Check(pid, RULE_K)
    chk.cov['components_real'] = NVC_REAL
    chk.cov['components_stub'] = NVC_STUB
    chk.assumptions = ['The reference model reads the standard as its authors meant it; points it leaves '
                       'open (the number of empty delta cycles) are not compared.',
                       'Behaviour listed as known findings is avoided by the generator or reproduced by the model.']
    cases.explore(chk, [('vhdl.kcheck', dict(prof=p)) for p in prof], secs(quick_s))
    cases.demos(chk, demo, nvcsim.H2P, demo.cases(*known))
    return chk.finish()


def C01():
    return _kernel('C01', ['core', 'core', 'all'], 60,
                   ['delayed-initial', 'postponed-timeout', 'postponed-until', 'same-value-last-active',
                    'element-last-event', 'all-dead-branch', 'delayed-resolved', 'pulse-active',
                    'cancel-same-value', 'same-value-twice', 'update-then-null', 'update-then-force'])


def C02():
    return _kernel('C02', ['net'], 60, ['release-undriven', 'inout-active', 'force-active', 'inout-child',
                                  'driver-not-resolved'])


RULE_IO = ('One run = one seed = one random history of nvc commands with its faults, each command a simulated '
           'process with virtual time. Non-trivial when %s; distinct by the hash of all commands, their exit '
           'status and operations.')


def _io(pid, jobs, quick_s, rule, assumptions):
    chk = Check(pid, RULE_IO % rule)
    chk.cov['components_real'] = NVC_REAL
    chk.cov['components_stub'] = NVC_STUB
    chk.assumptions = assumptions
    cases.explore(chk, jobs, secs(quick_s))
    return chk.finish()


def C10():
    return _io('C10', [('io.conc', dict(mode='run')), ('io.conc', dict(mode='run')), ('io.conc', dict(mode='crash'))], 60,
               'processes ran at the same time', ['A rename is atomic and locks vanish with the process.'])


def C11():
    return _io('C11', [('io.crash', dict(mode='crash')), ('io.crash', dict(mode='crash')),
                       ('io.crash', dict(mode='corrupt'))], 60, 'a crash or damage really happened',
               ['A crash loses nothing that was written before and a rename is atomic.'])


def C12():
    return _io('C12', [('io.ioerr', {}), ('io.ioerr', {}), ('io.vfile', dict(mode='err')), ('io.vfile', dict(mode='seekerr'))], 60, 'at least one error or short transfer really happened',
               ['Reading back what the same process has just written does not fail, nor does seeking.'])


def C13():
    return _io('C13', [('io.vfile', dict(mode='run')), ('io.vfile', dict(mode='seek')), ('io.vfile', dict(mode='run')),
                       ('io.vfile', dict(mode='crash')), ('io.vfile', dict(mode='seekerr'))], 60,
               'the design opened its files', ['Closing a file or flushing it hands its contents to the system.'])


RULE_P = ('One run = one seed = one random program analysed, elaborated and executed by nvc in a simulated '
          'process under a seeded schedule of its compiler threads, in a random configuration (interpreter, '
          'compiled when hot, compiled in the background, ahead of time, with a collection at every '
          'allocation, without intrinsics, shuffled processes); every report and error is compared with the '
          'reference evaluation. Non-trivial when more than ten statements and two observations were '
          'executed; distinct by the hash of the results and the configuration.')
STUB_P = [x for x in NVC_STUB if not x.startswith('LLVM')]


def C19():
    from .vhdl import demo
    chk = Check('C19', RULE_P)
    chk.cov['components_real'] = NVC_REAL + ['LLVM code generation, just in time and ahead of time']
    chk.cov['components_stub'] = STUB_P
    chk.assumptions = ['The reference evaluation reads the standard as its authors meant it; where the standard '
                       'leaves the outcome open, or nvc is known to differ, the run is not compared.']
    cases.explore(chk, [('vhdl.pcheck', {}), ('vhdl.pcheck', {}), ('vhdl.pcheck', dict(edge=1))], secs(60))
    cases.demos(chk, demo, nvcsim.H2P, demo.cases('aggregate-element', 'overflow-64', 'abs-low', 'time-quotient',
                                                  'null-range-element', 'out-by-copy', 'out-may-wait'))
    return chk.finish()


CHECKS = {n: f for n, f in globals().items() if re.match(r'^C\d\d$', n)}


def replay(path):
    hdr = {}
    for line in open(path):
        if line.startswith('# ') and '=' in line:
            k, v = line[2:].rstrip('\n').split('=', 1)
            hdr.setdefault(k, v)
    if hdr.get('kind') == 'h1':
        make(inproc.H1)
        if hdr.get('mode') == 'seed':
            r = inproc.run_h1(hdr['workload'], int(hdr['seed']), T=int(hdr['T']), O=int(hdr['O']))[0]
        else:
            r, _ = inproc.replay(path)
        print(inproc.describe(r))
        same = r['res'] == hdr['result'] and r['hash'] == hdr['hash']
        print('reproduced exactly' if same else 'differs from the recorded run (hash %s)' % r['hash'])
        return 1 if r['res'] != 'ok' else 0
    if hdr.get('kind') == 'case':
        return cases.replay(hdr)
    print('unknown replay kind')
    return 2
