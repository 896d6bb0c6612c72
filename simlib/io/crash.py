"""C11: histories of commands on a library with crashes and damaged files."""
import hashlib, os, random, re
from .. import nvcsim
from ..cases import result, failed_proc
from .project import Project, NOW, tree


def new(seed, opts):
    r = random.Random('io%d' % seed)
    P = Project(r)
    c = dict(seed=seed, mode=opts['mode'], steps=[], env={})
    v = 1
    if r.random() < 0.75:
        # The first version of everything, without faults
        for g in chunks(r, P.files):
            c['steps'].append(dict(cmd='a', files=g, v=v, plan=[]))
        c['steps'].append(dict(cmd='e', plan=[]))
        if r.random() < 0.5:
            c['steps'].append(dict(cmd='r', plan=[]))
    for _ in range(r.randint(1, 3)):
        v += 1
        ch = [f for f in P.files if r.random() < 0.35] or [r.choice(P.files)]
        fs = P.closure(set(ch)) if c['steps'] or v > 2 else list(P.files)
        if v == 2 and not c['steps']:
            fs = list(P.files)
        for g in chunks(r, fs):
            c['steps'].append(dict(cmd='a', files=g, v=v, bump=[f for f in g if f in ch], plan=[]))
            if r.random() < 0.15:
                c['steps'].append(dict(cmd=r.choice(['e', 'r', 'l']), plan=[]))
        x = r.random()
        if c['steps'][-1]['cmd'] != 'a':
            x = 1
        if x < 0.15:
            c['steps'][-1]['then'] = 'er'
        elif x < 0.25:
            c['steps'][-1]['then'] = 'e'
            c['steps'].append(dict(cmd='r', plan=[]))
        elif x < 0.4:
            c['steps'].append(dict(cmd='e', then='r', plan=[]))
        else:
            c['steps'].append(dict(cmd='e', plan=[]))
            c['steps'].append(dict(cmd='r', plan=[]))
    if opts['mode'] == 'crash':
        k = [s for s in c['steps'][0 if r.random() < 0.3 else len(c['steps']) // 3:] if s['cmd'] != 'l']
        for s in r.sample(k, min(len(k), r.choice([1, 1, 2, 3]))):
            n = (r.randrange(70) if s['cmd'] != 'a' else r.randrange(20 + 14 * len(s['files']))) + r.randrange(
                1 + 40 * len(s.get('then', '')))
            kind = r.choice('cktt')
            s['plan'] = [(n, kind, r.choice([0, 1, 10, 20, 100, 1000, r.randrange(4096)]))]
    else:
        k = range(len(c['steps']) // 3, len(c['steps']))
        for i in sorted(r.sample(k, min(len(k), r.choice([1, 1, 2]))), reverse=True):
            c['steps'].insert(i + 1, dict(cmd='x', how=r.choice(['trunc', 'flip', 'flip', 'zero', 'empty', 'delete', 'old']),
                                          x=r.random(), y=r.random(), plan=[]))
    c['gran'] = r.choice([1, 1000, 10**6, 10**9])
    c['gap'] = r.choice([10**3, 10**6, 10**9, 10**10])
    return c


def chunks(r, fs):
    out = []
    fs = list(fs)
    while fs:
        n = r.choice([1, 1, 2, len(fs)])
        out.append(fs[:n])
        fs = fs[n:]
    return out


def damage(d, s, hist):
    """Damages one file of the library; returns its name."""
    w = os.path.join(d, 'work')
    names = sorted(n for n in os.listdir(w) if n not in ('_NVC_LIB', '_index') and not n.endswith('.pack')) if os.path.isdir(w) else []
    if not names:
        return None
    n = names[int(s['x'] * len(names))]
    p = os.path.join(w, n)
    st = os.stat(p)
    b = bytearray(open(p, 'rb').read())
    how = s['how']
    k = int(s['y'] * max(1, len(b)))
    if how == 'trunc':
        b = b[:k]
    elif how == 'flip' and b:
        b[k] ^= 1 << int(s['x'] * 7919) % 8
    elif how == 'zero':
        m = 1 << int(s['x'] * 104729) % 10
        b[k:k + m] = bytes(len(b[k:k + m]))
    elif how == 'empty':
        b = bytearray()
    elif how == 'old':
        old = hist.get(n)
        if not old:
            return None
        b = bytearray(old[int(s['y'] * len(old))])
    if how == 'delete':
        os.unlink(p)
    else:
        with open(p, 'wb') as f:
            f.write(b)
        os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
    return n


def argv(s):
    a = ['nvc'] + nvcsim.lib_args()
    for c in s['cmd'] + s.get('then', ''):
        a += {'a': ['-a'] + [f + '.vhd' for f in s.get('files', [])], 'e': ['-e', '--jit', 'top'],
              'r': ['-r', 'top'], 'l': ['--list']}[c]
    return a


def run(srv, d, case):
    r = random.Random('io%d' % case['seed'])
    P = Project(r)
    vs = {f: 1 for f in P.files}
    own = {f: set() for f in P.files}
    dirty = set(P.files)         # Files whose unit may be absent or out of date
    elab, fresh = [], False
    now = NOW
    faults, il, log = {}, hashlib.sha1(), []
    ops = crashed = 0
    hist, damaged = {}, False

    def cmd(s, plan):
        nonlocal now, ops
        now += case['gap']
        res = srv.run(d, [argv(s)], now=now, gran=case['gran'], plan=plan, secs=60)
        now = max(now, res.get('now', now))
        ops += res['ops']
        p = res['procs'][0]
        il.update(('%s %s %s %s;' % (s['cmd'], p['rc'], res['ops'], res['hash'])).encode())
        t = res['outs'][0]
        log.append('%s%s -> exit %s%s\n%s' % (' '.join(argv(s)[4:]), ' with fault %s' % plan if plan else '',
                                              p['rc'], ' (simulated crash)' if p['rc'] == 97 else '', t[:600]))
        return res, p, t

    def out(sig=None, msg=''):
        return result(sig, msg, il.hexdigest()[:16] if crashed or damaged or not plans else None, (now - NOW) * 1e-9,
                      faults, dict(operations=ops, commands=len(log)),
                      [case['mode']], '\n'.join(log) + '\n\n' + '\n'.join('-- %s.vhd\n%s' % (f, P.text(f, vs)[:1500])
                                                                       for f in P.files))
    plans = any(s['plan'] for s in case['steps'])
    final = [dict(cmd='a', files=[f], v=0, final=True, plan=[]) for f in P.files] + [
        dict(cmd='e', plan=[], final=True), dict(cmd='r', plan=[], final=True)]
    for s in case['steps'] + final:
        c, fin = s['cmd'], s.get('final')
        if c == 'x':
            n = damage(d, s, hist)
            if n:
                damaged = True
                log.append('%s: %s' % (s['how'], n))
                il.update((s['how'] + n).encode())
                faults['file_' + s['how']] = faults.get('file_' + s['how'], 0) + 1
                # Any unit may be unreadable or an earlier version from now on
                dirty = set(P.files)
                own = {f: own[f] | set(range(1, vs[f] + 1)) for f in own}
                elab.append({f: set(own[f]) for f in own})
                fresh = False
            continue
        if c == 'a':
            for f in s.get('bump', []):
                vs[f] = s['v']
            for f in s['files']:
                P.write(d, f, vs)
        w = d + '/work'
        if case['mode'] != 'crash' and os.path.isdir(w):
            for n in os.listdir(w):
                b = open(os.path.join(w, n), 'rb').read()
                h = hist.setdefault(n, [])
                if b not in h:
                    h.append(b)
        need = set()
        if c == 'a':
            todo = [x for f in s['files'] for x in P.deps(f) if x not in s['files']]
            while todo:
                f = todo.pop()
                if f not in need:
                    need.add(f)
                    todo += P.deps(f)
            need -= set(s['files'])
        elif c == 'e':
            need = set(P.files)
        elif c == 'r':
            need = set() if fresh else set(P.files) | {None}
        if 'e' in s.get('then', ''):
            need |= set(P.files) - set(s.get('files', []))
        res, p, t = cmd(s, s['plan'])
        hit = p['rc'] == 97
        if hit:
            crashed += 1
            k = {'c': 'crash_before_operation', 'k': 'crash_after_operation', 't': 'torn_write_and_crash'}[s['plan'][0][1]]
            faults[k] = faults.get(k, 0) + 1
        else:
            if p['rc'] == 98 or p['sim'] not in ('ok', 'none') and p['rc'] != 0 and p['sim'] != 'none':
                return out('hang', '%s: %s' % (' '.join(argv(s)[4:]), p['sim']))
            bad = failed_proc(res)
            if bad and bad[0] != 'fatal':
                return out(bad[0], '%s: %s' % (' '.join(argv(s)[4:]), bad[1]))
            if p['rc'] != 0:
                if not t.strip():
                    return out('silent', '%s fails without a message' % ' '.join(argv(s)[4:]))
                if fin or not (need & dirty or None in need) and c != 'l':
                    return out('unusable', '%s fails although nothing it needs was interrupted%s: %s' % (
                        ' '.join(argv(s)[4:]), ' and everything is analysed again' if fin else '', t[:300]))
        ok = p['rc'] == 0
        if ok and re.search(r'^\*\* (Error|Fatal):', t, re.M):
            return out('status', '%s reports an error and exits 0: %s' % (' '.join(argv(s)[4:]), t[:300]))
        for c in s['cmd'] + s.get('then', ''):
            if c == 'a':
                for f in s['files']:
                    own[f] = {vs[f]} if ok else own[f] | {vs[f]}
                    if ok:
                        dirty.discard(f)
                    else:
                        dirty.add(f)
                # Units that depend on them are out of date now
                ch = set(s['files'])
                for f in P.files:
                    if f not in s['files'] and P.deps(f) & ch:
                        ch.add(f)
                        dirty.add(f)
                fresh = False
            elif c == 'e':
                if ok:
                    elab, fresh = [{f: set(own[f]) for f in own}], True
                else:
                    elab.append({f: set(own[f]) for f in own})
                    fresh = False
            elif c == 'r' and ok:
                errs = []
                for o in elab or [own]:
                    # Bodies of packages are loaded when the design runs
                    o = {f: o[f] | (own[f] if f[0] in 'kb' else set()) for f in o} if not fresh else o
                    errs.append(P.judge(t, o))
                if None not in errs:
                    return out('wrong', 'run succeeds with wrong result: ' + errs[0])
            elif c == 'l' and ok:
                miss = [f for f in P.files if f not in dirty and own[f]
                        and ('WORK.K%s-BODY' % f[1:] if f[0] == 'b' else 'WORK.' + f.upper()) not in t.upper()]
                if miss:
                    return out('list', 'units analysed successfully are not listed: %s' % miss)
    return out()


def lists(case):
    def steps(k):
        return dict(case, steps=k)
    return [(case['steps'], steps)]
