"""C10: several nvc processes working on one library at the same time."""
import hashlib, os, random, re
from .. import nvcsim
from ..cases import result, failed_proc
from .project import NOW, MTIME


XKIND = ('Entity', 'Package')        # What x0, x1, ... are depends on the version


def new(seed, opts):
    r = random.Random('co%d' % seed)
    n = r.choice([2, 2, 3, 3, 4])
    c = dict(seed=seed, mode=opts['mode'], setup=[], isl=[], procs=[], plan=[])
    ni = n + r.randint(0, 2)
    bare = r.random() < 0.25               # The library does not exist yet
    for i in range(ni):
        c['isl'].append(dict(sh=not bare and r.random() < 0.5, pad=r.choice([0, 0, 3, 30, 300]),
                             pk=r.random() < 0.7, x=r.random() < 0.4, there=not bare and r.random() < 0.6, elab=False))
    if not bare:
        for t in c['isl']:
            t['elab'] = t['there'] and r.random() < 0.6
    v = 1
    # Islands may be written by one process or, less often, by several
    free = list(range(ni))
    r.shuffle(free)
    shw = False
    for p in range(n):
        v += 1
        x = r.random()
        if free and r.random() < 0.8:
            i = free.pop()
        else:
            i = r.randrange(ni)
        t = c['isl'][i]
        if x < 0.08:
            q = dict(cmd='l', i=i)
        elif x < 0.14 and not bare:
            q = dict(cmd='s', i=i)         # Analyse the package everybody uses again
        elif x < 0.34 and t['there']:
            q = dict(cmd='e' + r.choice(['', 'r', 'r']), i=i)
        elif x < 0.44 and t['elab']:
            q = dict(cmd='r', i=i)
        else:
            q = dict(cmd='a' + r.choice(['', '', 'e', 'er', 'er', 'l']), i=i)
        q['v'] = v
        q['each'] = r.random() < 0.3       # one -a for every file
        q['thr'] = r.random() < 0.3
        c['procs'].append(q)
    top = r.choice([60, 120, 200, 400])
    k = r.choice([0, 1, 2, 3, 5, 10, 30, 100])
    for _ in range(k):
        c['plan'].append([r.randrange(top), 's', r.randrange(n)])
    if r.random() < 0.3:
        c['plan'] += [[o, 's', r.randrange(n)] for o in range(0, top, r.choice([1, 2, 3, 7]))]
    if opts['mode'] == 'crash':
        for _ in range(r.choice([1, 1, 2])):
            c['plan'].append([r.randrange(top), r.choice('ckt'), r.choice([0, 1, 20, 100])])
    elif r.random() < 0.3:
        for _ in range(r.randint(1, 4)):
            c['plan'].append([r.randrange(top), 'h', r.choice([1, 2, 10, 100])])
    c['plan'].sort(key=lambda e: (e[0], e[1] != 's'))
    c['gran'] = r.choice([1, 1, 10**6, 10**9])
    c['optime'] = r.choice([1000, 100000, 10**8])
    if r.random() < 0.2:
        for _ in range(r.randint(1, 3)):
            c['plan'].append([r.randrange(top), 'j', r.choice([10**9, -10**9, 3600 * 10**9, -86400 * 10**9])])
        c['plan'].sort(key=lambda e: (e[0], e[1] != 's'))
    return c


def files(case, i):
    t = case['isl'][i]
    return (['p%d' % i] if t['pk'] else []) + (['x%d' % i] if t['x'] else []) + ['t%d' % i]


def units(case, i):
    u = ['WORK.T%d' % i, 'WORK.T%d-A' % i]
    if case['isl'][i]['pk']:
        u += ['WORK.P%d' % i, 'WORK.P%d-body' % i]
    if case['isl'][i]['x']:
        u.append('WORK.X%d' % i)
    return u


def text(case, f, v):
    if f == 'sh':
        return 'package sh is\n%s  constant s : integer := %d;\nend package;\n' % (
            ''.join('  constant x%d : integer := %d;\n' % (j, j) for j in range(v % 4)), v)
    i = int(f[1:])
    if f[0] == 'x':
        return '%s x%d is\nend %s;\n' % (XKIND[v % 2].lower(), i, XKIND[v % 2].lower())
    t = case['isl'][i]
    use = 'use work.sh.all;\n' if t['sh'] else ''
    pad = ''
    if t['pad']:
        pad = '  type t_pad is array (natural range <>) of integer;\n  constant pad : t_pad := (%s);\n' % (
            ', '.join('%d => %d' % (j, (j * 7919 + i) % 100003 + v) for j in range(t['pad'])))
    if f[0] == 'p':
        x = ''.join('  constant x%d : integer := %d;\n' % (j, j) for j in range((v * 3 + i) % 4))
        return use + ('package p%d is\n%s  function f%d return integer;\n  constant c%d : integer := %d;\nend package;\n'
                      'package body p%d is\n%s  function f%d return integer is\n  begin\n    return %d;\n'
                      '  end function;\nend package body;\n') % (i, x, i, i, v, i, pad, i, v)
    if t['pk']:
        use += 'use work.p%d.all;\n' % i
    rep = '"V t%d %d"' % (i, v)
    if t['pk']:
        rep += ' & " c=" & integer\'image(c%d) & " f=" & integer\'image(f%d)' % (i, i)
    if t['sh']:
        rep += ' & " s=" & integer\'image(s)'
    return use + ('entity t%d is\nend entity;\narchitecture a of t%d is\n%sbegin\n  process is\n  begin\n    report %s;\n'
                  '    wait for 1 ns;\n    wait;\n  end process;\nend architecture;\n') % (i, i, '' if t['pk'] else pad, rep)


def argv(q, case, d=''):
    a = ['nvc'] + nvcsim.lib_args()
    i = q['i']
    for c in q['cmd']:
        if c == 's':
            a += ['-a', '%ssh.vhd' % d]
        elif c == 'a':
            fs = ['%s%s.vhd' % (d, f) for f in files(case, i)]
            if q.get('each'):
                for f in fs:
                    a += ['-a', f]
            else:
                a += ['-a'] + fs
        elif c == 'e':
            a += ['-e', '--jit', 't%d' % i]
        elif c == 'r':
            a += ['-r', 't%d' % i]
        else:
            a += ['--list']
    return a


def judge(case, i, t, vs, ss):
    """None or what is wrong with the output of a run of top i."""
    ms = re.findall(r'V t(\d+) (\d+)(?: c=(\d+) f=(\d+))?(?: s=(\d+))?', t)
    if len(ms) != 1:
        return 'the process of t%d reported %d times' % (i, len(ms))
    m = ms[0]
    if int(m[0]) != i:
        return 'unit t%s runs instead of t%d' % (m[0], i)
    got = {int(x) for x in m[1:4] if x}
    if len(got) != 1:
        return 'units of different versions take part: %s' % (m[1:4],)
    if not got <= vs:
        return 't%d has version %s, expected one of %s' % (i, got, sorted(vs))
    if m[4] and int(m[4]) not in ss:
        return 'package sh has version %s, expected one of %s' % (m[4], sorted(ss))
    return None


def run(srv, d, case):
    log, il = [], hashlib.sha1()
    now = NOW
    ops = switches = 0
    faults = {}
    crashed = [False] * len(case['procs'])

    def put(name, f, v):
        p = os.path.join(d, name)
        with open(p, 'w') as o:
            o.write(text(case, f, v))
        os.utime(p, (MTIME, MTIME))

    def go(qs, dirs, plan, what):
        nonlocal now, ops, switches
        now += 10**10
        argvs = [argv(q, case, x) for q, x in zip(qs, dirs)]
        res = srv.run(d, argvs, now=now, gran=case['gran'], optime=case['optime'], plan=plan, secs=60, out='o')
        now = max(now, res.get('now', now))
        ops += res['ops']
        switches += res['switches']
        il.update(('%s %s;' % (res['ops'], res['hash'])).encode())
        for a, p, t in zip(argvs, res['procs'], res['outs']):
            log.append('%s: %s -> exit %s%s\n%s' % (what, ' '.join(a[4:]), p['rc'],
                                                    ' (simulated crash)' if p['rc'] == 97 else '', t[:700]))
        return res

    def out(sig=None, msg=''):
        names = ['sh'] + [f for i in range(len(case['isl'])) for f in files(case, i)]
        return result(sig, msg, il.hexdigest()[:16] if par else None, (now - NOW) * 1e-9, faults,
                      dict(operations=ops, switches=switches, processes=len(case['procs'])), [case['mode']],
                      '\n'.join(log) + '\n\n' + '\n'.join('-- %s.vhd\n%s' % (f, text(case, f, 1)[:800]) for f in names))
    par = False
    isl, procs = case['isl'], case['procs']
    N = range(len(isl))
    put('sh.vhd', 'sh', 1)
    have = set()
    # Before
    pre = []
    if any(t['sh'] for t in isl) or any(q['cmd'] == 's' for q in procs):
        pre.append(dict(cmd='s', i=0))
        have.add('WORK.SH')
    for i in N:
        for f in files(case, i):
            put(f + '.vhd', f, 1)
        if isl[i]['there']:
            pre.append(dict(cmd='a' + ('e' if isl[i]['elab'] else ''), i=i))
            have |= set(units(case, i))
    for q in pre:
        res = go([q], [''], [], 'before')
        if res['procs'][0]['rc'] != 0 or failed_proc(res):
            return out('setup', '%s: %s' % (' '.join(argv(q, case)[4:]), res['outs'][0][:300]))
    # All at once, every process with sources in a directory of its own
    dirs = []
    for k, q in enumerate(procs):
        os.mkdir('%s/d%d' % (d, k))
        dirs.append('d%d/' % k)
        for f in ['sh'] + files(case, q['i']):
            put('d%d/%s.vhd' % (k, f), f, q['v'])
    res = go(procs, dirs, [tuple(e) for e in case['plan']], 'together')
    par = True
    for o, k, a in res.get('hits', []):
        nm = {'c': 'crash_before_operation', 'k': 'crash_after_operation', 't': 'torn_write_and_crash', 'h': 'short_transfer',
              's': 'process_switch', 'j': 'clock_jump'}[k]
        faults[nm] = faults.get(nm, 0) + 1
    if res['deadlock'] or any(p['rc'] == 98 for p in res['procs']):
        return out('deadlock', 'the processes wait for each other')
    dead = [p['rc'] == 97 for p in res['procs']]
    wr = {i: [k for k, q in enumerate(procs) if 'a' in q['cmd'] and q['i'] == i] for i in N}
    el = {i: [k for k, q in enumerate(procs) if 'e' in q['cmd'] and q['i'] == i] for i in N}
    shw = [k for k, q in enumerate(procs) if q['cmd'] == 's']
    ss = {1} | {procs[k]['v'] for k in shw}
    for k, q in enumerate(procs):
        if dead[k]:
            continue
        i, p, t = q['i'], res['procs'][k], res['outs'][k]
        nm = ' '.join(argv(q, case)[4:])
        bad = failed_proc(res, k)
        if bad and bad[0] != 'fatal':
            return out(bad[0], '%s: %s' % (nm, bad[1]))
        # Does it touch anything another process writes?
        others = [j for j in wr[i] if j != k]
        alone = not others and not (isl[i]['sh'] and shw) if q['cmd'] not in ('s', 'l') else True
        if 'r' in q['cmd'] and [j for j in el[i] if j != k]:
            alone = False      # The design is elaborated again while it is to be run
        if p['rc'] != 0:
            if not re.search(r'Fatal|Error', t):
                return out('silent', '%s fails without a message: %s' % (nm, t[:300]))
            if alone:
                return out('fails', '%s fails while other processes use the library: %s' % (nm, t[:300]))
            continue
        if 'r' in q['cmd']:
            vs = {1} if isl[i]['there'] else set()
            vs |= {procs[j]['v'] for j in others}
            if 'a' in q['cmd']:
                vs = {q['v']} | ({procs[j]['v'] for j in others})
            why = judge(case, i, t, vs, ss)
            if why:
                return out('stale', '%s: %s' % (nm, why))
        if 'l' in q['cmd']:
            got = set(re.findall(r'^(\S+)\s+: ', t, re.M))
            miss = have - got
            if 'a' in q['cmd']:
                miss |= set(units(case, i)) - got
            if miss:
                return out('list', '%s does not show %s' % (nm, ', '.join(sorted(miss))))
    # Afterwards
    gone = set()
    for k, q in enumerate(procs):
        if not dead[k] and res['procs'][k]['rc'] == 0:
            if 'a' in q['cmd']:
                have |= set(units(case, q['i']))
            if q['cmd'] == 's':
                have.add('WORK.SH')
    def kinds(t, i, v):
        m = re.search(r'^WORK.X%d\s+: (\w+)' % i, t, re.M)
        return m and m.group(1) != XKIND[v % 2] and 'the library lists WORK.X%d as %s but it is %s' % (
            i, m.group(1), XKIND[v % 2])
    if have:
        r1 = go([dict(cmd='l', i=0)], [''], [], 'afterwards')
        t = r1['outs'][0]
        got = set(re.findall(r'^(\S+)\s+: ', t, re.M))
        if r1['procs'][0]['rc'] != 0 or have - got:
            return out('lost', 'the library has lost %s' % ', '.join(sorted(have - got)))
        for i in N:
            if isl[i]['x'] and not any(dead[k] or res['procs'][k]['rc'] for k in wr[i]) and len(wr[i]) < 2:
                why = kinds(t, i, procs[wr[i][0]]['v'] if wr[i] else 1)
                if why:
                    return out('kind', why)
    for i in N:
        if not (wr[i] or isl[i]['there']) or isl[i]['sh'] and shw:
            continue
        if len(wr[i]) > 1 or any(dead[k] or res['procs'][k]['rc'] for k in wr[i]):
            continue
        q = dict(cmd='er', i=i)
        r1 = go([q], [''], [], 'afterwards')
        t = r1['outs'][0]
        bad = failed_proc(r1)
        if bad or r1['procs'][0]['rc'] != 0:
            return out('broken', 'afterwards %s: %s' % (' '.join(argv(q, case)[4:]), t[:300]))
        why = judge(case, i, t, {procs[wr[i][0]]['v'] if wr[i] else 1}, ss)
        if why:
            return out('stale', 'afterwards: %s' % why)
    put('sh.vhd', 'sh', 98)
    for i in N:
        for f in files(case, i):
            put(f + '.vhd', f, 99)
    for q in [dict(cmd='s', i=0)] + [dict(cmd='aer', i=i, each=True) for i in N]:
        r1 = go([q], [''], [], 'at last')
        t = r1['outs'][0]
        if failed_proc(r1) or r1['procs'][0]['rc'] != 0:
            return out('stuck', 'analysing everything again: %s: %s' % (' '.join(argv(q, case)[4:]), t[:300]))
        if 'r' in q['cmd']:
            why = judge(case, q['i'], t, {99}, {98})
            if why:
                return out('stuck', 'after analysing everything again: %s' % why)
    return out()


def lists(case):
    def plan(k):
        return dict(case, plan=k)
    return [(case['plan'], plan)]
