"""Random sequential programs in nvc against their reference evaluation."""
import hashlib, os, random, re
from .. import nvcsim
from ..cases import result, failed_proc
from . import prog
from .run import UNIT
from .kcheck import write, NOW

LINE = re.compile(r'^\*\* (Note|Warning|Error|Fatal): (\d+)(fs|ps|ns|us|ms|sec|s)\+(\d+): (.*)$')
KIND = {
    'overflow': r'cannot be represented|outside of',
    'div': r'division by zero',
    'index': r'outside of',
    'range': r'outside of|cannot be represented|not a valid|out of bounds',
    'length': r'length|elements|outside of',
    'null': r'null access',
    'exponent': r'negative exponent',
    'noreturn': r'did not return',
}


def config(r, jitonly=False):
    """How the program is to be executed."""
    c = dict(env={}, ncpus=r.choice([1, 2, 2, 3, 4]), mean=r.choice([1, 2, 3, 10, 100]), sseed=r.getrandbits(30),
             mode='jit', split=r.random() < 0.3, elab=[], run=[], glob=[])
    e = c['env']
    e['NVC_JIT_THRESHOLD'] = str(r.choice([0, 0, 1, 1, 2, 3, 5, 20, 100]))
    if r.random() < 0.25:
        e['NVC_JIT_ASYNC'] = '0'
    if r.random() < 0.12:
        e['NVC_GC_STRESS'] = '1'
    if r.random() < 0.12:
        e['NVC_JIT_INTRINSICS'] = '0'
    if r.random() < 0.2:
        c['mode'] = 'aot'
        if r.random() < 0.5:
            c['elab'].append('-O%d' % r.choice([0, 1, 2, 3]))
    if r.random() < 0.2:
        c['run'].append('--shuffle')
        c['glob'].append('--seed=%d' % r.randint(1, 1 << 30))
    return c


def argvs(cfg, std, top='top', extra=()):
    base = ['nvc'] + nvcsim.lib_args(std, aot=cfg['mode'] == 'aot') + cfg['glob']
    el = ['-e'] + (['--jit'] if cfg['mode'] == 'jit' else []) + cfg['elab'] + [top]
    rn = ['-r'] + cfg['run'] + ([top] if cfg['split'] else []) + list(extra)
    if cfg['split']:
        return [base + ['-a', 't.vhd'] + el, base + rn]
    return [base + ['-a', 't.vhd'] + el + rn]


def faults(cfg, r=None):
    f = {}
    t = int(cfg['env'].get('NVC_JIT_THRESHOLD', 100))
    if cfg['mode'] == 'aot':
        f['compiled_ahead_of_time'] = 1
    elif t == 0:
        f['interpreted_only'] = 1
    elif cfg['env'].get('NVC_JIT_ASYNC') == '0':
        f['compiled_when_hot'] = 1
    else:
        f['compiled_in_background'] = 1
    if cfg['env'].get('NVC_GC_STRESS'):
        f['gc_at_every_allocation'] = 1
    if cfg['env'].get('NVC_JIT_INTRINSICS') == '0':
        f['intrinsics_off'] = 1
    if '--shuffle' in cfg['run']:
        f['process_order_shuffled'] = 1
    return f


def execute(srv, d, cfg, std, top='top', extra=()):
    """Runs the commands of a configuration: (output, exit status, bad, switches)."""
    out, sw = '', 0
    for a in argvs(cfg, std, top, extra):
        r = srv.run(d, [a], env=cfg['env'], now=NOW, secs=60, ncpus=cfg['ncpus'], mean=cfg['mean'], seed=cfg['sseed'])
        out += r['outs'][0]
        sw += r['switches']
        bad = failed_proc(r)
        rc = r['procs'][0]['rc']
        if bad or rc:
            # An error the program makes is not a failure of nvc
            if bad and bad[0] == 'fatal':
                bad = None
            return out, rc, bad, sw
    return out, 0, None, sw


def parse(out):
    """({process: [(time, severity, text)]}, [other messages])"""
    obs, other = {}, []
    lines = out.splitlines()
    for line in lines:
        m = LINE.match(line)
        if m:
            t = int(m.group(2)) * UNIT[m.group(3)]
            p = re.match(r'P\d ', m.group(5))
            if p and m.group(1) not in ('Fatal',):
                obs.setdefault(p.group(0).strip(), []).append((t, m.group(1), m.group(5)))
            else:
                other.append((t, m.group(1), m.group(5)))
        elif line.startswith('** ') and not line.startswith('** Debug:') and '--shuffle option' not in line:
            other.append((None, line.split(':')[0][3:], line))
    return obs, other


def program(case):
    p = prog.Prog(case['seed'], opts=case.get('opts'))
    p.drop = set(case['drop'])
    return p


def new(seed, opts):
    r = random.Random('pc%d' % seed)
    p = prog.Prog(seed, opts=opts)
    keep = r.random() < 0.3 + 0.2 * p.edge
    for _ in range(150):
        out, e = p.evaluate()
        if e is not None:
            return None
        bad = [x for x in out if x[1]]
        if not bad or p.blame is None:
            break
        if keep and all(x[1][0] == 'err' for x in bad) and sum(len(x[0]) for x in out) > 8:
            break
        p.drop.add(p.blame)
    return dict(seed=seed, drop=sorted(p.drop), cfg=config(r), opts=opts or {})


def compare(P, want, obs, other, rc):
    """None or (sig, msg)."""
    errs = [x for x in want if x[1] and x[1][0] == 'err']
    vague = any(x[1] and x[1][0] != 'err' for x in want)
    fatal = [x for x in other if x[1] in ('Fatal', 'Error')]
    rest = [x for x in other if x[1] not in ('Fatal', 'Error')]
    if rest:
        return 'message', 'unexpected message: ' + rest[0][2][:300]
    first = None                      # which process stopped the run, as far as the output tells
    stop = bool(fatal)
    for k, (seq, end, now) in enumerate(want):
        got = obs.get('P%d' % k, [])
        exp = [(t, s, m) for t, s, m in seq]
        n = min(len(got), len(exp))
        for a, b in zip(got, exp):
            if a != b:
                return 'differs', 'process %d: expected %r at %d fs, got %r at %d fs' % (k, b[2][:300], b[0], a[2][:300], a[0])
        if len(got) > len(exp) and not (end and end[0] != 'err'):
            return 'extra', 'process %d: unexpected report %r' % (k, got[n][2][:300])
        if len(got) < len(exp) and not stop and not (end and end[0] != 'err'):
            return 'missing', 'process %d: missing report %r' % (k, exp[n][2][:300])
    if vague:
        return None
    if not errs:
        if fatal:
            return 'error', 'unexpected error: ' + fatal[0][2][:300]
        if rc:
            return 'exit', 'exit status %d' % rc
        return None
    if not fatal:
        return 'noerror', 'the %s error was not reported' % errs[0][1][1]
    # The message must be one of the errors, and that process must have got to the
    # statement in error; which of several errors in one statement comes first is open
    msg = fatal[0][2]
    for k, (seq, end, now) in enumerate(want):
        if end and end[0] == 'err' and len(obs.get('P%d' % k, [])) == len(seq) and any(re.search(k, msg) for k in KIND.values()) \
                and (fatal[0][0] is None or fatal[0][0] == now):
            break
    else:
        return 'wrongerror', 'expected %s, got %s' % (
            ' or '.join('%s at %d fs after %d reports' % (e[1][1], e[2], len(e[0])) for e in errs), msg[:300])
    if rc == 0:
        return 'exit', 'exit status 0 after an error'
    return None


STATIC = re.compile(r'outside of|out of bounds|division by zero|cannot be represented|length|elements in')


def run(srv, d, case):
    P = program(case)
    want, e = P.evaluate()
    if e is not None:
        return result()
    src = P.source()
    write(d, 't.vhd', src)
    cfg = case['cfg']
    out, rc, bad, sw = execute(srv, d, cfg, P.std)
    obs, other = parse(out)
    early = [x for x in other if x[0] is None and x[1] in ('Error', 'Fatal')]
    stats = dict(statements=P.nsteps, observations=sum(len(x[0]) for x in want))
    if bad is None and early and not obs and STATIC.search(early[0][2]):
        # An error that can be seen without running the program may be reported early
        stats = dict(rejected=1)
        return result(None, '', None, 0, {}, stats, ())
    if bad and bad[0] == 'crash' and any(x[1] and x[1][1:] == ('wrap',) for x in want):
        bad = None        # a consequence of an undetected overflow (known finding)
    elif bad is None:
        bad = compare(P, want, obs, other, rc)
    il = None
    if P.nsteps > 10 and stats['observations'] > 2:
        il = hashlib.sha1(repr((want, cfg)).encode()).hexdigest()[:16]
    f = faults(cfg)
    if any(x[1] for x in want):
        f['run_time_error'] = 1
    return result(bad[0] if bad else None, bad[1] if bad else '', il, max(x[2] for x in want) * 1e-15, f, stats,
                  sorted(P.features) + ['std %d' % P.std],
                  src + '\n-- ' + ' ; '.join(' '.join(a) for a in argvs(cfg, P.std)) + ' env ' + repr(cfg['env'])
                  + '\n' + out[-3000:])


def lists(case):
    P = prog.Prog(case['seed'], opts=case.get('opts'))
    keep = [i for i in range(1, P.nstmt + 1) if i not in set(case['drop']) and i not in P.must]

    def build(k):
        k = set(k) | P.must
        return dict(case, drop=[i for i in range(1, P.nstmt + 1) if i not in k])
    cfg = case['cfg']
    opts = [('env', k) for k in cfg['env']] + [(f, x) for f in ('elab', 'run') for x in cfg[f]]

    def bopts(l):
        return dict(case, cfg=dict(cfg, env={k: v for k, v in cfg['env'].items() if ('env', k) in l},
                                   elab=[x for x in cfg['elab'] if ('elab', x) in l],
                                   run=[x for x in cfg['run'] if ('run', x) in l]))
    return [(opts, bopts), (keep, build)]
