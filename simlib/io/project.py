"""Small VHDL projects whose run reports which version of every unit took part."""
import os, random, re, shutil

NOW = 1600000000 * 10**9
MTIME = 1.5e9


class Project:
    """Packages K0.. (with bodies), entities E0.., top.  Every file has a version number."""

    def __init__(self, r, small=False):
        self.npk = r.randint(1, 2 if small else 3)
        self.nent = r.randint(1, 2 if small else 4)
        self.pad = {}
        self.split = r.random() < 0.4              # package bodies in files of their own
        self.uses = {}
        for i in range(self.npk):
            self.uses['k%d' % i] = ['k%d' % j for j in range(i) if r.random() < 0.5]
        for i in range(self.nent):
            ks = ['k%d' % j for j in range(self.npk) if r.random() < 0.7]
            self.uses['e%d' % i] = ks or ['k0']
        self.uses['top'] = ['k%d' % j for j in range(self.npk) if r.random() < 0.5]
        self.insts = ['e%d' % i for i in range(self.nent)]
        self.files = []
        for i in range(self.npk):
            self.files.append('k%d' % i)
            if self.split:
                self.files.append('b%d' % i)
        self.files += self.insts + ['top']
        for f in self.files:
            self.pad[f] = [r.randint(0, 10**6) for _ in range(r.choice([0, 0, 3, 30, 300]))]

    def provides(self, f):
        """Version keys decided by the file."""
        if f[0] == 'k' and not self.split:
            return [f, 'b' + f[1:]]
        return [f]

    def deps(self, f):
        """Files whose re-analysis makes this one obsolete."""
        d = set()
        if f[0] == 'b':
            d.add('k' + f[1:])
        for k in self.uses.get(f, self.uses.get('k' + f[1:], [])):
            d.add(k)
        if f == 'top':
            d |= set(self.insts)
        return d

    def closure(self, changed):
        """Files to analyse again, in order."""
        out = []
        for f in self.files:
            if f in changed or self.deps(f) & set(out):
                out.append(f)
        return out

    def padding(self, f, v):
        p = self.pad[f]
        if not p:
            return ''
        return '  type t_pad is array (natural range <>) of integer;\n  constant pad : t_pad := (%s);\n' % (
            ', '.join('%d => %d' % (i, x + v) for i, x in enumerate(p)))

    def pk_text(self, f, v):
        i = f[1:]
        t = ''.join('use work.%s.all;\n' % k for k in self.uses[f])
        # The layout of the package differs between versions
        n = (v * 5 + int(i)) % 4
        x = ''.join('  constant x%d : integer := %d;\n' % (j, -1 - j) for j in range(n))
        fn = '  function f%s return integer;\n' % i
        return t + 'package %s is\n%s%s  constant c%s : integer := %d;\n%send package;\n' % (
            f, x, fn if n == 3 else '', i, v, fn if n != 3 else '')

    def body_text(self, i, v, pad):
        t = ''.join('use work.%s.all;\n' % k for k in self.uses['k' + i])
        return t + 'package body k%s is\n%s  function f%s return integer is\n  begin\n    return %d;\n  end function;\nend package body;\n' % (
            i, pad, i, v)

    def text(self, f, vs):
        v = vs[f]
        if f[0] == 'k':
            t = self.pk_text(f, v)
            if not self.split:
                t += self.body_text(f[1:], v, self.padding(f, v))
            return t
        if f[0] == 'b':
            return self.body_text(f[1:], v, self.padding(f, v))
        ks = self.uses[f]
        rep = ' & '.join(['"V %s %d"' % (f, v)] + ['" c%s=" & integer\'image(c%s) & " f%s=" & integer\'image(f%s)'
                                                   % (k[1:], k[1:], k[1:], k[1:]) for k in ks])
        t = ''.join('use work.%s.all;\n' % k for k in ks)
        if f == 'top':
            t += 'entity top is\nend entity;\n' + ''.join('use work.%s.all;\n' % k for k in ks)
            t += 'architecture a of top is\n  signal s : integer := %d;\n%sbegin\n' % (v, self.padding(f, v))
            for e in self.insts:
                t += '  u_%s : entity work.%s port map (s);\n' % (e, e)
        else:
            t += 'entity %s is\n  port (p : in integer);\nend entity;\n' % f
            t += 'architecture a of %s is\n%sbegin\n' % (f, self.padding(f, v))
        t += '  process is\n  begin\n    report %s;\n    wait for 1 ns;\n' % rep
        if self.pad[f]:
            t += '    assert pad(%d) = %d report "wrong padding";\n' % (len(self.pad[f]) - 1, self.pad[f][-1] + v)
        t += '    wait;\n  end process;\nend architecture;\n'
        return t

    def write(self, d, f, vs, mtime=MTIME):
        p = os.path.join(d, f + '.vhd')
        with open(p, 'w') as o:
            o.write(self.text(f, vs))
        os.utime(p, (mtime, mtime))

    def units(self):
        u = []
        for i in range(self.npk):
            u += ['WORK.K%d' % i, 'WORK.K%d-body' % i]
        for e in self.insts + ['top']:
            u += ['WORK.' + e.upper(), 'WORK.%s-A' % e.upper()]
        return u

    def judge(self, text, own):
        """None or what is inconsistent in the output of a run.  own: unit -> versions it may have."""
        seen = {}
        cs = {}
        if 'wrong padding' in text:
            return 'a constant has a wrong value'
        for m in re.finditer(r'V (\w+) (\d+)((?: [cf]\d+=\d+)*)', text):
            seen.setdefault(m.group(1), []).append(int(m.group(2)))
            for k, x in re.findall(r'([cf]\d+)=(\d+)', m.group(3)):
                cs.setdefault(k, set()).add(int(x))
        for u in self.insts + ['top']:
            if len(seen.get(u, [])) != 1:
                return 'unit %s reported %d times' % (u, len(seen.get(u, [])))
            if seen[u][0] not in own[u]:
                return 'unit %s has version %d, expected %s' % (u, seen[u][0], sorted(own[u]))
        for k, xs in cs.items():
            u = ('k' if k[0] == 'c' or not self.split else 'b') + k[1:]
            if len(xs) > 1:
                return 'units see different versions of %s: %s' % (u, sorted(xs))
            if not xs <= own[u]:
                return '%s has version %s, expected %s' % (u, sorted(xs), sorted(own[u]))
        return None


def tree(d, skip=()):
    """Contents of all files below d."""
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            n = os.path.relpath(p, d)
            if n not in skip:
                with open(p, 'rb') as i:
                    out[n] = i.read()
    return out
