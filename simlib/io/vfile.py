"""C13: files of a design against a model in memory."""
import hashlib, os, random, re, struct
from .. import nvcsim
from ..cases import result, failed_proc
from .project import NOW, MTIME

UNITS = dict(fs=1, ps=10**3, ns=10**6, us=10**9, ms=10**12, sec=10**15)
WS = ' \t'


def dec(v, u):
    """v/u without superfluous digits."""
    s = '-' if v < 0 else ''
    v = abs(v)
    q, m = divmod(v, u)
    t = ''
    while m:
        m *= 10
        t += str(m // u)
        m %= u
    return s + str(q) + ('.' + t if t else '')


class Type:
    def __init__(self, name, decl, gen, lit, enc, size, img):
        self.name, self.decl, self.gen, self.lit, self.enc, self.size, self.img = name, decl, gen, lit, enc, size, img


def types():
    def i32(r):
        return r.choice([0, 1, -1, 2**31 - 1, -2**31, r.randint(-10**9, 10**9), r.randint(-9, 9)])

    def lit_i(v):
        return 'integer\'low' if v == -2**31 else '(%d)' % v
    en = ['zero', 'one', 'two', 'three']

    def vec(n):
        return Type('v%d' % n, 'type t_v%d is array (0 to %d) of integer; type f_v%d is file of t_v%d;' % (n, n - 1, n, n),
                    lambda r: [i32(r) for _ in range(n)],
                    lambda v: 't_v%d\'(%s)' % (n, ', '.join('%d => %s' % (i, lit_i(x)) for i, x in enumerate(v))),
                    lambda v: b''.join(struct.pack('<i', x) for x in v), 4 * n,
                    (lambda x: ' & " " & '.join('integer\'image(%s(%d))' % (x, i) for i in range(n)),
                     lambda v: ' '.join(str(x) for x in v)))
    return [
        Type('int', 'type f_int is file of integer;', i32, lit_i, lambda v: struct.pack('<i', v), 4,
             (lambda x: 'integer\'image(%s)' % x, str)),
        Type('bit', 'type f_bit is file of bit;', lambda r: r.randrange(2), lambda v: "bit'('%d')" % v, lambda v: bytes([v]), 1,
             (lambda x: 'bit\'image(%s)' % x, lambda v: "'%d'" % v)),
        Type('boo', 'type f_boo is file of boolean;', lambda r: r.randrange(2), lambda v: ['false', 'true'][v],
             lambda v: bytes([v]), 1, (lambda x: 'boolean\'image(%s)' % x, lambda v: ['false', 'true'][v])),
        Type('chr', 'type f_chr is file of character;', lambda r: r.choice([0, 10, 13, 32, 65, 97, 127, 255, r.randrange(256)]),
             lambda v: 'character\'val(%d)' % v, lambda v: bytes([v]), 1,
             (lambda x: 'integer\'image(character\'pos(%s))' % x, str)),
        Type('rea', 'type f_rea is file of real;', lambda r: r.randint(-10**6, 10**6) / 8,
             lambda v: '(%r)' % v, lambda v: struct.pack('<d', v), 8,
             (lambda x: 'integer\'image(integer(%s * 8.0))' % x, lambda v: str(int(v * 8)))),
        Type('tim', 'type f_tim is file of time;', lambda r: r.randint(-10**12, 10**12), lambda v: '(%d fs)' % v,
             lambda v: struct.pack('<q', v), 8, (lambda x: 'time\'image(%s)' % x, lambda v: '%d fs' % v)),
        Type('en', 'type t_en is (%s); type f_en is file of t_en;' % ', '.join(en), lambda r: r.randrange(4),
             lambda v: en[v], lambda v: bytes([v]), 1, (lambda x: 't_en\'image(%s)' % x, lambda v: en[v])),
        Type('sm', 'subtype t_sm is integer range -100 to 100; type f_sm is file of t_sm;', lambda r: r.randint(-100, 100),
             lambda v: '(%d)' % v, lambda v: struct.pack('<i', v), 4, (lambda x: 'integer\'image(%s)' % x, str)),
        vec(1), vec(3), vec(40)]


VHDL = dict(int='integer', bit='bit', boo='boolean', chr='character', rea='real', tim='time', en='t_en', sm='t_sm', v1='t_v1',
            v3='t_v3', v40='t_v40')


class Tok:
    """One value in a line of text: how it is written and read."""

    def __init__(self, r, alone):
        k = self.kind = r.choice(['int', 'int', 'bit', 'boo', 'str', 'bv', 'hex', 'oct', 'time', 'real', 'slv', 'slvx', 'sulv', 'chr'])
        self.n = n = r.choice([1, 3, 4, 5, 8, 12, 16, 31])
        self.fmt = None
        if k == 'int':
            v = r.choice([0, -1, 2**31 - 1, -2**31, r.randint(-10**9, 10**9), r.randint(0, 9)])
            self.txt = str(v)
            self.lit = 'integer\'low' if v == -2**31 else '(%d)' % v
        elif k == 'bit':
            v = self.txt = r.choice('01')
            self.lit = "bit'('%s')" % v
        elif k == 'chr':
            v = self.txt = chr(r.randint(33, 126))
            self.lit = "character'val(%d)" % ord(v)
        elif k == 'boo':
            v = self.txt = r.choice(['true', 'false'])
            self.lit = v
        elif k == 'str':
            v = self.txt = ''.join(r.choice('abcXYZ09_-+.;"&') for _ in range(n * r.choice([1, 1, 9])))
            self.n = len(v)
            self.lit = 'string\'("%s")' % v.replace('"', '""')
        elif k == 'bv':
            v = self.txt = ''.join(r.choice('01') for _ in range(n))
            self.lit = 'bit_vector\'("%s")' % v
        elif k in ('slv', 'sulv'):
            v = self.txt = ''.join(r.choice('01UXZWLH-') for _ in range(n))
            self.lit = 'std_%slogic_vector\'("%s")' % ('u' if k == 'sulv' else '', v)
        elif k in ('hex', 'oct', 'slvx'):
            v = ''.join(r.choice('01') for _ in range(n))
            w = 3 if k == 'oct' else 4
            p = '0' * (-n % w) + v
            self.txt = ''.join('%X' % int(p[i:i + w], 2) for i in range(0, len(p), w))
            self.lit = '%s\'("%s")' % ('std_logic_vector' if k == 'slvx' else 'bit_vector', v)
        elif k == 'time':
            u = r.choice(list(UNITS))
            v = r.choice([0, 1, 10, 999, 1000, 123456, r.randint(1, 2**31 - 1)]) * UNITS[u]
            if v > 9 * 10**18 // 2:
                v = UNITS[u]
            # Printed in the same unit so that it can be read again
            self.unit, self.scale = u, v // UNITS[u]
            self.txt = '%d %s' % (self.scale, u)
            self.lit = '%d %s' % (self.scale, u)
        elif k == 'real':
            d = r.randint(1, 6)
            v = r.choice([0.0, 1.0, -1.5, 0.125, r.randint(-10**6, 10**6) / 64])
            self.fmt = d
            self.txt = '%.*f' % (d, v)
            self.lit = '(%r)' % v
        self.v = v
        self.just = r.choice([None, None, 'left', 'right'])
        self.field = r.choice([0, len(self.txt), len(self.txt) + 1, len(self.txt) + 7, 40]) if self.just else 0

    def text(self):
        t = self.txt
        if self.field > len(t):
            t = t + ' ' * (self.field - len(t)) if self.just == 'left' else ' ' * (self.field - len(t)) + t
        return t

    def write(self, l):
        k = self.kind
        p = {'hex': 'hwrite', 'slvx': 'hwrite', 'oct': 'owrite'}.get(k, 'write')
        a = [l, self.lit]
        if self.just:
            a += [self.just, str(self.field)]
        if k == 'time':
            a.append('unit => %s' % self.unit)
        if k == 'real':
            a.append('digits => %d' % self.fmt)
        return '%s(%s);' % (p, ', '.join(a))

    def var(self):
        """Name, subtype of a variable to read into."""
        k = self.kind
        return {'int': 'integer', 'bit': 'bit', 'boo': 'boolean', 'chr': 'character', 'str': 'string(1 to %d)' % self.n,
                'bv': 'bit_vector(%d downto 0)' % (self.n - 1), 'hex': 'bit_vector(1 to %d)' % self.n,
                'oct': 'bit_vector(0 to %d)' % (self.n - 1), 'time': 'time', 'real': 'real',
                'slv': 'std_logic_vector(%d downto 0)' % (self.n - 1), 'slvx': 'std_logic_vector(1 to %d)' % self.n,
                'sulv': 'std_ulogic_vector(0 to %d)' % (self.n - 1)}[k]

    def image(self, x):
        k = self.kind
        if k == 'real':
            return 'boolean\'image(abs(%s - (%s)) < 1.0e-6)' % (x, float(self.txt))
        if k == 'time':
            return 'integer\'image(%s / %s)' % (x, self.unit)
        if k in ('int', 'boo', 'bit'):
            return '%s\'image(%s)' % ({'int': 'integer', 'boo': 'boolean', 'bit': 'bit'}[k], x)
        if k == 'chr':
            return 'integer\'image(character\'pos(%s))' % x
        return x if k == 'str' else 'to_string(%s)' % x

    def shown(self):
        k = self.kind
        return {'real': 'true', 'time': str(getattr(self, 'scale', 0)), 'bit': "'%s'" % self.v,
                'chr': str(ord(self.v)) if k == 'chr' else ''}.get(k, str(self.v))


class Gen:
    def __init__(self, case):
        r = self.r = random.Random('vf%d' % case['seed'])
        self.case = case
        self.np = r.choice([1, 1, 2, 3])
        self.disk, self.toks = {}, {}          # name -> bytes; name -> list of lines of tokens
        self.expect = []                       # lines of reports
        self.hist = {}                         # name -> [(reports so far, bytes on disk, bytes written)]
        self.files = []                        # declarations
        self.time = 0
        self.body = [[] for _ in range(self.np)]
        self.at = [0] * self.np
        self.ptime = [0] * self.np
        self.vars = [dict() for _ in range(self.np)]
        self.nrep = 0
        self.decls = []
        self.cur = 0

    def mark(self, n, pend=b''):
        self.hist.setdefault(n, []).append((self.nrep, self.disk.get(n), (self.disk.get(n) or b'') + pend))

    # ---- output
    def emit(self, s):
        p = self.cur
        if self.ptime[p] < self.time:
            self.body[p].append('wait for %d ns;' % (self.time - self.ptime[p]))
            self.ptime[p] = self.time
        self.body[p].append(s)

    def report(self, expr, val):
        self.nrep += 1
        self.emit('report "R%d " & %s;' % (self.nrep, expr))
        self.expect.append('R%d %s' % (self.nrep, val))

    def var(self, sub, key):
        n = 'x_%s' % key
        self.vars[self.cur][n] = sub
        return n


class F:
    def __init__(self, name, t):
        self.name, self.t = name, t            # t None: text
        self.mode = None
        self.pos = 0
        self.ext = None
        self.pend = b''
        self.frozen = 0


def build(case):
    g = Gen(case)
    r = g.r
    if r.random() < 0.02:
        return churn(g, r)
    ts = types()
    used = {}
    fs = []
    for i in range(r.randint(1, 4)):
        t = None if r.random() < 0.5 else r.choice(ts)
        f = F('f%d' % i, t)
        fs.append(f)
        if t:
            used[t.name] = t
    src = {}
    names = {}
    for f in fs:
        k = f.t.name if f.t else 'txt'
        names[k] = ['%s_a' % k, '%s_b' % k]
        for n in names[k]:
            if n not in src and r.random() < 0.4:
                lines, data = [], b''
                if f.t:
                    for _ in range(r.choice([0, 1, 5, 50])):
                        v = f.t.gen(r)
                        lines.append(v)
                        data += f.t.enc(v)
                else:
                    for _ in range(r.choice([0, 1, 3, 20])):
                        x = line(r)
                        lines.append(x)
                        data += (''.join(y if isinstance(y, str) else y.text() for y in x)).encode() + (
                            b'\r\n' if r.random() < 0.1 else b'\n')
                src[n] = data
                g.disk[n], g.toks[n] = data, lines
    for k in names.values():
        for n in k:
            g.mark(n)
    writers = {}                               # external name -> F
    readers = {}

    def can_open(f, n, m):
        w = writers.get(n)
        if m == 'read_mode':
            return w is None or (not w.pend)
        return w is None and not readers.get(n)

    def do_open(f, n, m, plain):
        """Emits the opening."""
        ok = True
        if f.mode:
            st = 'status_error'
            ok = False
        elif n == '' or '/' in n or m == 'read_mode' and n not in g.disk:
            st = 'name_error'
            ok = False
        else:
            st = 'open_ok'
        lit = '"%s"' % n
        if plain and ok:
            g.emit('file_open(%s, %s, %s);' % (f.name, lit, m))
        else:
            v = g.var('file_open_status', 'st')
            g.emit('file_open(%s, %s, %s, %s);' % (v, f.name, lit, m))
            g.report('file_open_status\'image(%s)' % v, st)
        if ok:
            f.mode, f.ext, f.pend = m, n, b''
            if m == 'read_mode':
                f.pos = 0
                f.bytes = 0
                f.idx = 0
                f.part = None
                readers[n] = readers.get(n, 0) + 1
                f.src = list(g.toks[n])
            else:
                writers[n] = f
                if m == 'write_mode' or n not in g.disk:
                    g.disk[n], g.toks[n] = b'', []
                g.mark(n)
        return ok

    def close(f):
        g.emit('file_close(%s);' % f.name)
        if f.mode == 'read_mode':
            readers[f.ext] -= 1
        elif f.mode:
            g.disk[f.ext] += f.pend
            del writers[f.ext]
            safe(f)
        f.mode = None

    def safe(f):
        f.pend = b''
        g.mark(f.ext)

    crowd = []                                 # Further files that stay open for a while
    if r.random() < 0.2:
        for i in range(r.choice([3, 12, 15, 16, 17, 33, 40])):
            n = 'z%d' % i
            crowd.append(n)
            g.decls.append('  file %s : text%s;' % (n, ' open write_mode is "%s"' % n if i % 2 else ''))
            if i % 2 == 0:
                g.emit('file_open(%s, "%s", write_mode);' % (n, n))
            g.disk[n] = b''
            if not i % 3:
                g.emit('write(%s, "first %d" & LF);' % (n, i))
                g.disk[n] = b'first %d\n' % i
            if not i % 5:
                g.emit('file_close(%s);' % n)
                crowd.pop()
    for k in range(r.randint(5, 60)):
        if crowd and r.random() < 0.2:
            g.cur = r.randrange(g.np)
            g.time += 1
            n = r.choice(crowd)
            g.emit('write(%s, "%d" & LF);' % (n, k))
            g.disk[n] += b'%d\n' % k
            if r.random() < 0.3:
                g.emit('file_close(%s);' % n)
                crowd.remove(n)
        g.cur = r.randrange(g.np)
        g.time += r.choice([0, 0, 1, 3]) if g.np == 1 else 1
        f = r.choice(fs)
        tn = f.t.name if f.t else 'txt'
        x = r.random()
        if f.mode is None:
            if x < 0.06:
                close(f)                       # closing a closed file does nothing
                continue
            if x > 0.8 and local(g, r, f, tn, names, can_open):
                continue
            m = r.choice(['read_mode', 'write_mode', 'write_mode', 'append_mode'])
            n = r.choice(names[tn]) if x < 0.9 else r.choice(['', 'nodir/x', 'missing'])
            if n == 'missing':
                m = 'read_mode'
            if can_open(f, n, m):
                do_open(f, n, m, r.random() < 0.5)
            continue
        if x < 0.03 and local(g, r, f, tn, names, can_open):
            continue
        if x < 0.04:
            do_open(f, r.choice(names[tn]), r.choice(['read_mode', 'write_mode']), False)
        elif x < 0.14:
            close(f)
        elif f.mode == 'read_mode':
            if f.t:
                for _ in range(r.choice([1, 1, 3, 10])):
                    end = f.idx >= len(f.src)
                    if end or r.random() < 0.3:
                        g.report('boolean\'image(endfile(%s))' % f.name, str(end).lower())
                    if end:
                        break
                    v = g.var(VHDL[f.t.name], f.t.name)
                    g.emit('read(%s, %s);' % (f.name, v))
                    g.report(f.t.img[0](v), f.t.img[1](f.src[f.idx]))
                    f.idx += 1
            else:
                end = f.idx >= len(f.src)
                if end or r.random() < 0.3:
                    g.report('boolean\'image(endfile(%s))' % f.name, str(end).lower())
                if not end:
                    readline(g, r, f)
        elif x < 0.24:
            g.emit('flush(%s);' % f.name)
            g.disk[f.ext] += f.pend
            safe(f)
            if r.random() < 0.5:
                g.report('"flushed"', 'flushed')
        elif readers.get(f.ext):
            pass                               # somebody reads what was flushed
        elif f.t:
            for _ in range(r.choice([1, 1, 3, 10])):
                v = f.t.gen(r)
                g.emit('write(%s, %s);' % (f.name, f.t.lit(v)))
                g.toks[f.ext].append(v)
                f.pend += f.t.enc(v)
            g.mark(f.ext, f.pend)
        else:
            for _ in range(r.choice([1, 1, 2, 5])):
                x = line(r)
                l = g.var('line', 'l')
                for y in x:
                    g.emit('write(%s, string\'("%s"));' % (l, y) if isinstance(y, str) else y.write(l))
                t = ''.join(y if isinstance(y, str) else y.text() for y in x)
                if r.random() < 0.2 and x:
                    g.report('integer\'image(%s\'length)' % l, str(len(t)))
                if not x:
                    g.emit('if %s = null then %s := new string\'(""); end if;' % (l, l))
                g.emit('writeline(%s, %s);' % (f.name, l))
                g.toks[f.ext].append(x)
                f.pend += t.encode() + b'\n'
            g.mark(f.ext, f.pend)
    # How the simulation ends
    end = r.choice(['wait', 'wait', 'wait', 'finish', 'stop', 'failure', 'error'])
    msg = None
    g.time += 1
    g.cur = r.randrange(g.np)
    if end in ('finish', 'stop'):
        g.emit('%s;' % end)
    elif end == 'failure':
        g.emit('assert false report "the end" severity failure;')
        msg = 'the end'
    elif end == 'error':
        f = r.choice(fs)
        x = r.choice(['read', 'write', 'endfile', 'flush', 'open', 'wrong'])
        tn = f.t.name if f.t else 'txt'
        if f.mode and x == 'wrong':
            # Against the mode of the file
            if f.mode == 'read_mode':
                g.emit('write(%s, %s);' % (f.name, f.t.lit(f.t.gen(r)) if f.t else '"text"'))
            elif f.t:
                g.emit('read(%s, %s);' % (f.name, g.var(VHDL[f.t.name], f.t.name)))
            else:
                g.emit('readline(%s, %s);' % (f.name, g.var('line', 'l')))
            msg = '.'
        elif f.mode or x in ('open', 'wrong'):
            g.emit('file_open(%s, "nodir/x", %s);' % (f.name, r.choice(['read_mode', 'write_mode'])))
            msg = 'already associated' if f.mode else 'nodir/x'
        else:
            g.emit({'read': 'read(%s, %s);' % (f.name, g.var(VHDL[f.t.name], f.t.name)) if f.t else
                    'readline(%s, %s);' % (f.name, g.var('line', 'l')),
                    'write': 'write(%s, %s);' % (f.name, f.t.lit(f.t.gen(r)) if f.t else '"text"'),
                    'endfile': 'assert endfile(%s);' % f.name, 'flush': 'flush(%s);' % f.name}[x])
            msg = 'closed'
        g.emit('report "not reached";')
    # Everything that is still open is complete at the end of the simulation
    total = dict(g.disk)
    for n, f in writers.items():
        total[n] += f.pend
    o = ['use std.textio.all;', 'use std.env.all;', 'library ieee;', 'use ieee.std_logic_1164.all;', 'entity top is', 'end entity;',
         'architecture a of top is']
    for t in used.values():
        o.append('  ' + t.decl)
    for f in fs:
        o.append('  file %s : %s;' % (f.name, 'f_' + f.t.name if f.t else 'text'))
    if any('slurp' in v for v in g.vars):
        o += ['  impure function size_of (n : string) return natural is', '    file f : text open read_mode is n;',
              '    variable l : line;', '    variable k : natural := 0;', '  begin', '    while not endfile(f) loop',
              '      readline(f, l);', '      k := k + l.all\'length + 1;', '    end loop;', '    return k;', '  end function;']
    o += g.decls
    o.append('begin')
    for p in range(g.np):
        o.append('  process is')
        for n, s in sorted(g.vars[p].items()):
            o.append('    variable %s : %s;' % (n, s))
        o.append('  begin')
        o += ['    ' + s for s in g.body[p]]
        o += ['    wait;', '  end process;']
    o.append('end architecture;')
    return '\n'.join(o) + '\n', src, g.expect, total, g.hist, msg


def seekable(case):
    """Positions in files (VHDL-2019)."""
    g = Gen(case)
    r = g.r
    g.np = 1
    nf = r.choice([1, 1, 2])
    o = ['entity top is', 'end entity;', 'architecture a of top is', '  type ft is file of character;']
    st = []                                    # per file: mode, name, position
    names = ['p', 'q', 'r']
    src = {}
    for n in names:
        if r.random() < 0.6:
            src[n] = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 100, 5000, 9000])))
            g.disk[n] = src[n]
    for i in range(nf):
        o.append('  file f%d : ft;' % i)
        st.append(None)

    def size(n):
        return len(g.disk[n])

    def ch(x):
        return 'character\'val(%d)' % x
    for _ in range(r.choice([10, 60, 200])):
        i = r.randrange(nf)
        f = 'f%d' % i
        s = st[i]
        x = r.random()
        if s is None:
            m = r.choice(['read_mode', 'write_mode', 'append_mode', 'read_write_mode', 'read_write_mode', 'read_write_mode'])
            n = r.choice(names)
            if any(y and y[1] == n for y in st):
                continue
            if m == 'read_mode' and n not in g.disk:
                continue
            if m == 'read_write_mode' and n not in g.disk:
                continue                       # Whether the file is created is left open
            e = 'open_ok'
            g.report('file_open_status\'image(file_open(%s, "%s", %s))' % (f, n, m), e)
            if m == 'write_mode' or n not in g.disk:
                g.disk[n] = b''
            st[i] = [m, n, size(n) if m == 'append_mode' else 0]
            if m == 'append_mode':
                st[i].append(True)
            continue
        m, n, p = s[:3]
        can_r = m in ('read_mode', 'read_write_mode')
        can_w = m != 'read_mode'
        if x < 0.08:
            g.emit('file_close(%s);' % f)
            st[i] = None
        elif x < 0.12:
            g.report('file_open_state\'image(file_state(%s)) & " " & file_open_kind\'image(file_mode(%s))' % (f, f),
                     'state_open ' + m)
        elif x < 0.24 and m != 'append_mode':
            k = r.choice(['', ', file_origin_begin', ', file_origin_end', ', file_origin_current'])
            g.report('integer\'image(file_position(%s%s))' % (f, k),
                     {'': p, ', file_origin_begin': p, ', file_origin_end': size(n) - p, ', file_origin_current': 0}[k])
        elif x < 0.32:
            g.report('integer\'image(file_size(%s))' % f, size(n))
        elif x < 0.50 and m != 'append_mode':
            t = r.choice([0, size(n), r.randint(0, size(n)), r.randint(0, size(n)), min(size(n), 4096), min(size(n), p + 1),
                          max(0, p - 1), size(n) + r.choice([1, 10, 5000]) if can_w else 0])
            k = r.randrange(4)
            if t == 0 and r.random() < 0.5:
                g.emit('file_rewind(%s);' % f)
            else:
                g.emit('file_seek(%s, %d%s);' % (f, (t, t, t - p, t - size(n))[k], (
                    '', ', file_origin_begin', ', file_origin_current', ', file_origin_end')[k]))
            s[2] = t
        elif x < 0.56 and can_w and m != 'append_mode':
            t = r.choice([0, size(n), r.randint(0, size(n)), p, p, min(size(n), p + 3)])
            t = min(t, size(n))
            k = r.randrange(4)
            g.emit('file_truncate(%s, %d%s);' % (f, (t, t, t - p, t - size(n))[k], (
                '', ', file_origin_begin', ', file_origin_current', ', file_origin_end')[k]))
            g.disk[n] = g.disk[n][:t]
            if k == 3:
                t = r.randint(0, t)
                g.emit('file_seek(%s, %d);' % (f, t))
                s[2] = t
            else:
                s[2] = min(p, t)
        elif x < 0.60 and can_w:
            g.emit('flush(%s);' % f)
        elif x < 0.63 and m != 'append_mode':
            g.report('boolean\'image(file_canseek(%s))' % f, 'true')
        elif x < 0.80 and can_r:
            k = r.choice([1, 1, 2, 5])
            c = g.var('character', 'c')
            for _ in range(k):
                end = s[2] >= size(n)
                if end or r.random() < 0.3:
                    g.report('boolean\'image(endfile(%s))' % f, str(end).lower())
                if end:
                    break
                g.emit('read(%s, %s);' % (f, c))
                g.report('integer\'image(character\'pos(%s))' % c, g.disk[n][s[2]])
                s[2] += 1
        elif can_w:
            for _ in range(r.choice([1, 1, 2, 5])):
                v = r.randrange(256)
                g.emit('write(%s, %s);' % (f, ch(v)))
                b = g.disk[n]
                if m == 'append_mode':
                    s[2] = len(b)
                b = b + b'\0' * (s[2] - len(b))
                g.disk[n] = b[:s[2]] + bytes([v]) + b[s[2] + 1:]
                s[2] += 1
    o.append('begin')
    o.append('  process is')
    for n, t in sorted(g.vars[0].items()):
        o.append('    variable %s : %s;' % (n, t))
    o.append('  begin')
    o += ['    ' + s for s in g.body[0]]
    o += ['    wait;', '  end process;', 'end architecture;']
    return '\n'.join(o) + '\n', src, g.expect, g.disk, {}, None


def churn(g, r):
    """The same file is opened and closed many times."""
    k = r.choice([1, 2, 3, 20])                # so many objects take turns
    n = min(r.choice([10, 300, 2**16 + 10, 2**16 + 2**10]) * k, 200000)
    keep = r.randint(0, k)                     # and so many others stay open
    o = ['entity top is', 'end entity;', 'architecture a of top is', '  type ft is file of integer;',
         '  type fp is protected', '    procedure go (i : integer);', '  end protected;',
         '  type fp is protected body', '    file f : ft;', '    procedure go (i : integer) is', '    begin',
         '      file_open(f, "x" & integer\'image(i rem %d), write_mode);' % k,
         '      write(f, i);', '      file_close(f);', '    end procedure;', '  end protected body;',
         '  shared variable s : fp;']
    o += ['  file k%d : ft open write_mode is "k%d";' % (i, i) for i in range(keep)]
    o += ['begin', '  process is', '  begin', '    for i in 1 to %d loop' % n, '      s.go(i);', '    end loop;']
    g.nrep = 1
    g.expect.append('R1 done')
    for i in range(keep):
        o.append('    write(k%d, %d);' % (i, i))
        g.disk['k%d' % i] = struct.pack('<i', i)
    o += ['    report "R1 done";', '    wait;', '  end process;', 'end architecture;']
    for i in range(n - k + 1, n + 1):
        g.disk['x%d' % (i % k)] = struct.pack('<i', i)
    g.hist = {x: [(0, None, b), (0, b'', b)] for x, b in g.disk.items() if x[0] == 'k'}
    return '\n'.join(o) + '\n', {}, g.expect, g.disk, g.hist, None


def local(g, r, f, tn, names, can_open):
    """A file that belongs to a procedure is closed when the procedure returns."""
    n = r.choice(names[tn])
    k = len(g.decls)
    if r.random() < 0.4 and n in g.disk and can_open(f, n, 'read_mode'):
        return function(g, r, f, n, k)
    m = r.choice(['append_mode', 'write_mode'])
    if not can_open(f, n, m):
        return False
    ret = r.choice(['', 'if i < 3 then return; end if;', 'return;'])
    par = 'i : integer; v : %s' % (VHDL[f.t.name] if f.t else 'string')
    wr = 'write(f, v);'
    ty = 'f_' + f.t.name if f.t else 'text'
    how = r.random() < 0.5
    # Further files of the procedure, one per call
    more = r.choice([0, 0, 1, 3])
    extra = ''.join('    file g%d : text open append_mode is "y%d_%d";\n' % (i, k, i) for i in range(more))
    wr2 = ''.join('write(g%d, "again" & LF); ' % i for i in range(more))
    own = '    file f : %s%s;\n' % (ty, ' open %s is "%s"' % (m, n) if how else '')
    g.decls.append(('  procedure p%d (%s) is\n%s  begin\n    %s\n    %s\n    %s\n    %s\n  end procedure;') % (
        k, par, own + extra if r.random() < 0.5 else extra + own, '' if how else 'file_open(f, "%s", %s);' % (n, m),
        wr2 + wr, ret, 'null;' if not ret or ret == 'return;' else wr))
    for i in range(more):
        g.disk['y%d_%d' % (k, i)] = b''
    for _ in range(r.choice([1, 1, 3])):
        i = r.randrange(6)
        if f.t:
            v = f.t.gen(r)
            lit, b, tok = f.t.lit(v), f.t.enc(v), v
        else:
            t = ''.join(r.choice('abc d') for _ in range(r.choice([0, 1, 200])))
            lit, b, tok = 'string\'("%s" & LF)' % t, t.encode() + b'\n', [t] if t else []
        c = 2 if ret.startswith('if') and i >= 3 else 1
        g.emit('p%d(%d, %s);' % (k, i, lit))
        for j in range(more):
            y = 'y%d_%d' % (k, j)
            g.disk[y] += b'again\n'
            if r.random() < 0.4:
                if 'slurp' not in g.vars[g.cur]:
                    g.vars[g.cur]['slurp'] = 'natural'
                g.emit('slurp := size_of("%s");' % y)
                g.report('integer\'image(slurp)', len(g.disk[y]))
        if m == 'write_mode' or n not in g.disk:
            g.disk[n], g.toks[n] = b'', []
            g.mark(n)
        g.mark(n, b * c)
        g.disk[n] += b * c
        g.toks[n] += [tok] * c
        g.mark(n)
    return True


def function(g, r, f, n, k):
    """The result of a function depends on a file of its own."""
    ty = 'f_' + f.t.name if f.t else 'text'
    first = g.toks[n] and f.t and r.random() < 0.5
    res = VHDL[f.t.name] if first else 'boolean'
    head = '  impure function p%d (n : string; i : integer) return %s is\n    file f : %s%s;\n' % (
        k, res, ty, ' open read_mode is n' if r.random() < 0.5 else '')
    op = '' if 'open' in head else 'file_open(f, n, read_mode);'
    nested = r.random() < 0.5
    if first:
        nest = '    impure function q return %s is\n      variable v : %s;\n    begin\n      read(f, v);\n      return v;\n    end function;\n' % (
            res, res)
        e = 'q'
    else:
        nest = '    impure function q return boolean is\n    begin\n      return endfile(f);\n    end function;\n' if nested else ''
        e = 'q' if nested else 'endfile(f)'
    early = '    if i > 3 then\n      return %s;\n    end if;\n' % e if r.random() < 0.5 else ''
    g.decls.append('%s%s  begin\n    %s\n%s    return %s;\n  end function;' % (head, nest, op, early, e))
    for _ in range(r.choice([1, 1, 3])):
        c = 'p%d("%s", %d)' % (k, n, r.randrange(6))
        if first:
            v = g.var(res, f.t.name)
            g.emit('%s := %s;' % (v, c))
            g.report(f.t.img[0](v), f.t.img[1](g.toks[n][0]))
        else:
            g.report('boolean\'image(%s)' % c, str(not g.toks[n]).lower())
    return True


def line(r):
    """A line: tokens and strings of blanks between them."""
    x = []
    for i in range(r.choice([0, 1, 1, 2, 4])):
        if i:
            x.append(' ' * r.choice([1, 1, 2]))
        x.append(Tok(r, False))
    return x


def readline(g, r, f):
    x = f.src[f.idx]
    f.idx += 1
    l = g.var('line', 'k')
    g.emit('readline(%s, %s);' % (f.name, l))
    t = ''.join(y if isinstance(y, str) else y.text() for y in x)
    if r.random() < 0.3:
        g.report('integer\'image(%s\'length) & "[" & %s.all & "]"' % (l, l), '%d[%s]' % (len(t), t))
    if r.random() < 0.2:
        return
    rest = [y if isinstance(y, str) else y for y in x]
    # Blanks in front of strings and characters belong to them
    txt = t
    for y in rest:
        if r.random() < 0.1:
            break
        if isinstance(y, str):
            if r.random() < 0.3:
                v = g.var('string(1 to %d)' % len(y), 'b%d' % len(y))
                g.emit('read(%s, %s);' % (l, v))
                g.report('"<" & %s & ">"' % v, '<%s>' % y)
                txt = txt[len(y):]
            continue
        if y.kind in ('str', 'chr'):
            # skip to the value
            n = len(txt) - len(txt.lstrip(' '))
            if n:
                v = g.var('string(1 to %d)' % n, 'b%d' % n)
                g.emit('read(%s, %s);' % (l, v))
                txt = txt[n:]
        v = g.var(y.var(), y.kind + str(y.n))
        p = {'hex': 'hread', 'slvx': 'hread', 'oct': 'oread'}.get(y.kind, 'read')
        if r.random() < 0.4:
            b = g.var('boolean', 'good')
            g.emit('%s(%s, %s, %s);' % (p, l, v, b))
            g.report('boolean\'image(%s)' % b, 'true')
        else:
            g.emit('%s(%s, %s);' % (p, l, v))
        g.report('"(" & %s & ")"' % y.image(v), '(%s)' % y.shown())
        txt = txt.lstrip(' ')[len(y.txt):]
        if r.random() < 0.2:
            g.report('"[" & %s.all & "]"' % l, '[%s]' % txt)


def new(seed, opts):
    r = random.Random('vfn%d' % seed)
    c = dict(seed=seed, mode=opts['mode'], plan=[], thr=r.random() < 0.3)
    for _ in range(r.choice([0, 1, 3, 10, 40])):
        c['plan'].append([r.random(), 'w' if opts['mode'][:4] == 'seek' else 'h', r.choice([1, 2, 3, 10, 100, 1000])])
    if opts['mode'] in ('seekerr', 'err'):
        import errno
        c['plan'].append([r.random(), 'e', r.choice([errno.EIO, errno.ENOSPC, errno.EINTR, errno.EACCES])])
    if opts['mode'] == 'crash':
        c['plan'].append([r.random(), r.choice('ckt'), r.choice([0, 1, 10, 100])])
    c['plan'].sort()
    return c


def run(srv, d, case):
    text, src, expect, total, hist, msg = seekable(case) if case['mode'][:4] == 'seek' else build(case)
    d += '/w'
    os.mkdir(d)
    for n, t in src.items():
        with open(os.path.join(d, n), 'wb') as o:
            o.write(t)
    with open(d + '/top.vhd', 'w') as o:
        o.write(text)
    os.utime(d + '/top.vhd', (MTIME, MTIME))
    A = ['nvc'] + nvcsim.lib_args(2019 if case['mode'][:4] == 'seek' else 2008)
    detail = [text]

    def out(sig=None, msg='', res=None, faults={}):
        il = hashlib.sha1(('%s %s %s' % (case['seed'], res and res['ops'], res and res['hash'])).encode()).hexdigest()[:16]
        return result(sig, msg, il if res else None, (res['now'] - NOW) * 1e-9 if res else 0, faults,
                      dict(operations=res['ops'] if res else 0, reports=len(expect), files=len(total)), [case['mode']],
                      '\n'.join(detail))
    for a in (A + ['-a', 'top.vhd', '-e', '--jit', 'top'],):
        res = srv.run(d, [a], now=NOW, plan=[], secs=60, out='../out')
        if res['procs'][0]['rc'] != 0 or failed_proc(res):
            return out('setup', res['outs'][0][:400])
    run_ = A + ['-r', 'top']
    env = dict(NVC_JIT_THRESHOLD='0') if case['thr'] else {}
    plan = []
    if case['plan']:
        # Count the operations of the run once
        import shutil
        save = {n: open(os.path.join(d, n), 'rb').read() for n in os.listdir(d) if os.path.isfile(os.path.join(d, n))}
        res = srv.run(d, [run_], now=NOW, plan=[], secs=60, out='../out', env=env)
        n0 = res['ops']
        for n in os.listdir(d):
            if os.path.isfile(os.path.join(d, n)):
                os.unlink(os.path.join(d, n))
        for n, t in save.items():
            with open(os.path.join(d, n), 'wb') as o:
                o.write(t)
        plan = [(min(n0 - 1, int(x * n0)), k, a) for x, k, a in case['plan']]
    res = srv.run(d, [run_], now=NOW, plan=plan, secs=60, out='../out', env=env)
    p, t = res['procs'][0], res['outs'][0]
    detail.append('-- plan %s exit %s\n%s' % (plan, p['rc'], t[:3000]))
    faults = {}
    for n, k, a in res.get('hits', []):
        nm = {'c': 'crash_before_operation', 'k': 'crash_after_operation', 't': 'torn_write_and_crash', 'h': 'short_transfer', 'w': 'short_transfer', 'e': 'io_error'}[k]
        faults[nm] = faults.get(nm, 0) + 1
    got = re.findall(r'Note: [^:]*: (R\d+ .*)$', t, re.M)
    crashed = p['rc'] == 97
    if faults.get('io_error') and p['rc'] != 0:
        bad = failed_proc(res)
        if bad and bad[0] != 'fatal':
            return out(bad[0], bad[1], res, faults)
        if not re.search('Fatal|Failure|Error', t):
            return out('message', 'the run fails without a message: %s' % t[-300:], res, faults)
        for a, b in zip(got, expect):
            if a != b and not re.search('(name|mode|status)_error', a):
                return out('value', 'the run reports %s, expected %s' % (a, b), res, faults)
            if a != b:
                break
        return out(None, '', res, faults)
    if faults.get('io_error') and any(re.search('(name|mode|status)_error', x) for x in got):
        return out(None, '', res, faults)
    if not crashed:
        bad = failed_proc(res)
        if msg and p['rc'] != 0 and (not bad or bad[0] == 'fatal'):
            if not re.search('Fatal|Failure|Error', t) or not re.search(msg, t, re.I):
                return out('message', 'the run fails without the expected message: %s' % t[-300:], res, faults)
        elif msg and p['rc'] == 0:
            return out('accepted', 'the run does not fail at the last statement', res, faults)
        elif bad or p['rc'] != 0:
            return out(bad[0] if bad else 'fails', 'the run ends with %s: %s' % (p['rc'], (bad or ('', t[-300:]))[1]), res, faults)
    for i, e in enumerate(expect):
        if i >= len(got):
            if crashed:
                break
            return out('value', 'the run does not report %s' % e, res, faults)
        if got[i] != e:
            return out('value', 'the run reports %s, expected %s' % (got[i], e), res, faults)
    if len(got) > len(expect):
        return out('value', 'the run reports %s' % got[len(expect)], res, faults)
    if not crashed:
        for n, b in total.items():
            p_ = os.path.join(d, n)
            c = open(p_, 'rb').read() if os.path.exists(p_) else None
            if c != b:
                k = 0
                while c and k < min(len(b), len(c)) and b[k] == c[k]:
                    k += 1
                return out('contents', 'file %s has %s bytes instead of %d, different from byte %d: %r instead of %r' % (
                    n, c and len(c), len(b), k, (c or b'')[k:k + 20], b[k:k + 20]), res, faults)
        return out(None, '', res, faults)
    for n, h in hist.items():
        p_ = os.path.join(d, n)
        c = open(p_, 'rb').read() if os.path.exists(p_) else None
        # The state when the last report was made or any later one
        k = max(i for i, e in enumerate(h) if i == 0 or e[0] < len(got))
        if not any((c is None) == (b is None) if b is None or c is None else t.startswith(c) and c.startswith(b)
                   for _, b, t in h[k:]):
            return out('durable', 'after the crash file %s has %s bytes, at least %s were flushed' % (
                n, c and len(c), h[k][1] and len(h[k][1])), res, faults)
    return out(None, '', res, faults)


def lists(case):
    def plan(k):
        return dict(case, plan=k)
    return [(case['plan'], plan)]
