"""C12: a command that meets an I/O error says so; success means complete output."""
import gzip, hashlib, os, random, re, shutil
from .. import nvcsim
from ..cases import result, failed_proc
from .project import Project, NOW, MTIME, tree

ERRNO = {5: 'EIO', 28: 'ENOSPC', 13: 'EACCES', 24: 'EMFILE', 122: 'EDQUOT', 27: 'EFBIG'}

WAVE = '''library ieee;
use ieee.std_logic_1164.all;
entity sub is
  generic (n : integer);
  port (c : in std_logic; q : out std_logic_vector(7 downto 0));
end entity;
architecture a of sub is
  signal k : integer range 0 to 255 := n;
begin
  process (c) is
  begin
    if rising_edge(c) then
      k <= (k * 5 + n) mod 256;
    end if;
    for i in q'range loop
      if (k / 2 ** i) mod 2 = 1 then
        q(i) <= '1';
      else
        q(i) <= '0';
      end if;
    end loop;
  end process;
end architecture;
library ieee;
use ieee.std_logic_1164.all;
entity top is
end entity;
architecture a of top is
  type t_mem is array (0 to 3) of std_logic_vector(7 downto 0);
  type t_en is (idle, busy, done);
  type t_rec is record
    x : integer;
    y : std_logic;
  end record;
  signal clk : std_logic := '0';
  signal m : t_mem;
  signal st : t_en;
  signal rc : t_rec := (0, '0');
  signal r : real := 0.0;
  signal str : string(1 to 3) := "abc";
begin
  g : for i in 0 to 3 generate
    u : entity work.sub generic map (i + 3) port map (clk, m(i));
  end generate;
  process is
  begin
    for i in 1 to CYCLES loop
      clk <= not clk;
      st <= t_en'val(i mod 3);
      rc.x <= i;
      r <= real(i) * 0.5;
      str(1 + i mod 3) <= character'val(65 + i mod 26);
      wait for 1 ns;
    end loop;
    report "finished " & integer'image(rc.x);
    wait;
  end process;
end architecture;
'''

FILES = '''use std.textio.all;
entity top is
end entity;
architecture a of top is
  type t_int is file of integer;
  type t_vec is array (natural range <>) of integer;
begin
  process is
    file f : text open write_mode is "out.txt";
    file b : t_int;
    file g : text;
    variable l : line;
    variable st : file_open_status;
    variable x, s : integer := 0;
  begin
    file_open(st, b, "out.bin", WMODE);
    assert st = open_ok report "cannot write" severity failure;
    for i in 1 to LINES loop
      write(l, string'("line "));
      write(l, i, right, 8);
      write(l, string'(" of the file"));
      writeline(f, l);
      write(b, i * 7);
      FLUSH
      if i mod 50 = 0 then
        wait for 1 ns;
      end if;
    end loop;
    CLOSE
    file_open(st, g, "in.txt", read_mode);
    assert st = open_ok report "cannot read" severity failure;
    while not endfile(g) loop
      readline(g, l);
      read(l, x);
      s := s + x;
    end loop;
    file_close(g);
    report "sum " & integer'image(s);
    file_open(st, b, "in.bin", read_mode);
    assert st = open_ok report "cannot read" severity failure;
    s := 0;
    while not endfile(b) loop
      read(b, x);
      s := s + 1;
    end loop;
    report "count " & integer'image(s) & " " & integer'image(x);
    wait;
  end process;
end architecture;
'''

COVER = '''entity top is
end entity;
architecture a of top is
  type t_st is (s0, s1, s2);
  signal st : t_st;
  signal k : bit_vector(7 downto 0);
begin
  process is
    variable v : integer := 1;
  begin
    for i in 1 to STEPS loop
      v := (v * 13 + i) mod 64;
      if v > 32 and k(0) = '0' then
        st <= s1;
      elsif v = 3 then
        st <= s2;
      else
        st <= s0;
      end if;
      k(v mod 8) <= not k(v mod 8);
      wait for 1 ns;
    end loop;
    report "finished";
    wait;
  end process;
end architecture;
'''

KINDS = ['an', 'el', 'run', 'fst', 'fst', 'vcd', 'vcd', 'files', 'files', 'files', 'covel', 'covrun', 'covrun', 'covrep',
         'covexp', 'covmerge', 'list', 'chain']


def new(seed, opts):
    r = random.Random('ie%d' % seed)
    kind = r.choice(opts.get('kinds') or KINDS)
    c = dict(seed=seed, kind=kind, par={}, plan=[])
    p = c['par']
    p['n'] = r.choice([3, 10, 60, 200, 600])
    if kind in ('fst', 'vcd'):
        p['opt'] = [x for x in ('--dump-arrays', '--gtkw=w.gtkw') if r.random() < 0.4]
    elif kind == 'files':
        p['close'] = r.random() < 0.6
        p['flush'] = r.random() < 0.3
        p['append'] = r.random() < 0.3
    elif kind == 'covexp':
        p['fmt'] = r.choice(['cobertura', 'xml'])
    p['cov'] = r.choice(['', '=statement', '=statement,branch', '=toggle'])
    # Positions are fractions of the operations of the run without faults
    m = r.choice(['e', 'e', 'e', 'e', 'h', 'dD', 'd'])
    n = r.choice([1, 1, 1, 2, 4]) if m in 'eh' else 1
    for _ in range(n):
        x = r.random() ** r.choice([1, 1, 0.3])
        if m == 'e':
            c['plan'].append([x, 'e', r.choice(list(ERRNO))])
        elif m == 'h':
            c['plan'].append([x, 'h', r.choice([1, 2, 3, 10, 100, 511])])
        else:
            c['plan'].append([x, 'd', 0])
            if m == 'dD':
                c['plan'].append([min(1, x + r.random() * 0.2), 'D', 0])
    if r.random() < 0.2:
        c['plan'].append([r.random(), 'h', r.choice([1, 2, 3, 10, 100, 511])])
    c['plan'].sort()
    return c


def cmds(P, case):
    """Sources, commands that prepare and the command under test."""
    k, p, n = case['kind'], case['par'], case['par']['n']
    A = ['nvc'] + nvcsim.lib_args()
    src = {}
    if k in ('an', 'el', 'run', 'list', 'chain'):
        vs = {f: 1 + (case['seed'] + i) % 9 for i, f in enumerate(P.files)}
        src = {f + '.vhd': P.text(f, vs) for f in P.files}
        an = A + ['-a'] + [f + '.vhd' for f in P.files]
    else:
        t = {'fst': WAVE, 'vcd': WAVE, 'files': FILES}.get(k, COVER)
        for a, b in (('CYCLES', n), ('LINES', n), ('STEPS', n), ('WMODE', 'append_mode' if p.get('append') else 'write_mode'),
                     ('FLUSH', 'flush(f);' if p.get('flush') else ''),
                     ('CLOSE', 'file_close(f); file_close(b);' if p.get('close') else 'file_close(b);')):
            t = t.replace(a, str(b))
        src['top.vhd'] = t
        if k == 'files':
            src['in.txt'] = ''.join('%d\n' % (i * 3) for i in range(n))
            src['in.bin'] = b''.join(i.to_bytes(4, 'little') for i in range(n * 2))
        an = A + ['-a', 'top.vhd']
    el = A + ['-e', '--jit', 'top']
    ru = A + ['-r', 'top']
    if k.startswith('cov'):
        el = A + ['-e', '--jit', '--cover' + p['cov'], 'top']
    pre = {'an': [], 'chain': [], 'el': [an], 'covel': [an], 'list': [an]}.get(k, [an, el])
    tgt = {'an': an, 'el': el, 'covel': el, 'run': ru, 'files': ru, 'covrun': ru, 'list': A + ['--list']}
    if k == 'chain':
        return src, pre, an + el[len(A):] + ru[len(A):]
    if k in ('fst', 'vcd'):
        return src, pre, A + ['-r', '--format=' + k, '--wave=w.' + k] + p['opt'] + ['top']
    if k in ('covrep', 'covexp', 'covmerge'):
        pre = pre + [ru]
        if k == 'covrep':
            return src, pre, A + ['--cover-report', '-o', 'html', 'top.ncdb']
        if k == 'covexp':
            return src, pre, A + ['--cover-export', '--format=' + p['fmt'], '-o', 'exported', 'top.ncdb']
        src['cp'] = None
        return src, pre, A + ['--cover-merge', '-o', 'm.ncdb', 'top.ncdb', 'top2.ncdb']
    return src, pre, tgt[k]


def restore(save, d):
    for f in os.listdir(d):
        p = os.path.join(d, f)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    shutil.copytree(save, d, dirs_exist_ok=True)


def strip(t):
    t = '\n'.join(x for x in t.split('\n') if not x.startswith('** Warning:'))
    return re.sub(r'0x[0-9a-f]+|nvcsim\.\w+', '', t)


def contents(d):
    """Files of a directory with the wrapper around a repacked FST file taken off."""
    t = {}
    # The text in the marker file means nothing; a temporary file may stay
    for f in tree(d, ('work/_NVC_LIB', 'w.fst.hier')):
        with open(os.path.join(d, f), 'rb') as i:
            b = i.read()
        if f.endswith('.fst') and b[:1] == b'\xfe':
            try:
                b = gzip.decompress(b[17:])
            except Exception as e:
                b = b'damaged: ' + b
        t[f] = hashlib.sha1(b).hexdigest()
    return t


def run(srv, d, case):
    r = random.Random('ie%d' % case['seed'])
    P = Project(r, small=True)
    src, pre, tgt = cmds(P, case)
    top = d
    d, save = top + '/w', top + '/s'
    os.mkdir(d)
    for f, t in src.items():
        if t is None:
            continue
        with open(os.path.join(d, f), 'wb') as o:
            o.write(t if isinstance(t, bytes) else t.encode())
        os.utime(os.path.join(d, f), (MTIME, MTIME))
    log = []

    def go(a, plan, what):
        res = srv.run(d, [a], now=NOW, plan=plan, secs=60, out='../out')
        p = res['procs'][0]
        log.append('%s%s -> exit %s (%s)\n%s' % (' '.join(a[4:]), ' with %s' % plan if plan else '', p['rc'], what,
                                                 res['outs'][0][:800]))
        return res, p, res['outs'][0]
    for a in pre:
        res, p, t = go(a, [], 'setup')
        if p['rc'] != 0 or failed_proc(res):
            return result('setup', '%s fails: %s' % (' '.join(a[4:]), t[:300]), detail='\n'.join(log))
    if src.get('cp', 0) is None:
        shutil.copy2(d + '/top.ncdb', d + '/top2.ncdb')
    shutil.copytree(d, save)
    r0, p0, t0 = go(tgt, [], 'without faults')
    if p0['rc'] != 0 or failed_proc(r0):
        return result('setup', '%s fails: %s' % (' '.join(tgt[4:]), t0[:300]), detail='\n'.join(log))
    clean = contents(d)
    n0 = r0['ops']
    restore(save, d)
    plan = [(min(n0 - 1, int(x * n0)), k, a) for x, k, a in case['plan']]
    r1, p1, t1 = go(tgt, plan, 'with faults')
    got = contents(d)
    faults = {}
    hits = len(r1.get('hits', []))
    for n, k, a in r1.get('hits', []):
        nm = {'e': 'error_' + ERRNO.get(a, ''), 'h': 'short_transfer', 'd': 'disk_full', 'D': 'disk_free_again'}[k]
        faults[nm] = faults.get(nm, 0) + 1
    il = hashlib.sha1(('%s %s %s %s' % (tgt[4:], p1['rc'], r1['ops'], r1['hash'])).encode()).hexdigest()[:16]
    nm = ' '.join(tgt[4:])

    def out(sig=None, msg=''):
        return result(sig, msg, il if hits else None, (r1['now'] - NOW) * 1e-9, faults,
                      dict(operations=r1['ops'], failed=int(p1['rc'] != 0), commands=len(log)), [case['kind']],
                      '\n'.join(log))
    bad = failed_proc(r1)
    if bad and bad[0] != 'fatal':
        return out(bad[0], '%s: %s' % (nm, bad[1]))
    k = case['kind']
    if p1['rc'] == 0:
        if strip(t1) != strip(t0):
            return out('output/' + k, '%s succeeds with other output: %s' % (nm, t1[:300]))
        if got != clean and 'omitting hierarchy' not in t1:
            df = sorted(f for f in set(got) | set(clean) if got.get(f) != clean.get(f))
            return out('files/' + k, '%s succeeds but left out or changed parts of %s' % (nm, ', '.join(df)))
    else:
        if not re.search(r'Fatal|Error|Failure', t1):
            return out('silent/' + k, '%s fails without a message: %s' % (nm, t1[:300]))
    # The same command works once the faults are gone
    if case['par'].get('append') or k == 'covrun':
        return out()
    r2, p2, t2 = go(tgt, [], 'again')
    bad = failed_proc(r2)
    if bad or p2['rc'] != 0:
        return out('stuck/' + k, '%s still fails when the faults are gone: %s' % (nm, t2[:300]))
    if strip(t2) != strip(t0):
        return out('again/' + k, '%s has other output after the faults are gone: %s' % (nm, t2[:300]))
    got = contents(d)
    df = sorted(f for f in clean if got.get(f) != clean.get(f))
    if df:
        return out('again/' + k, '%s after the faults are gone leaves other contents in %s' % (nm, ', '.join(df)))
    return out()


def lists(case):
    def plan(k):
        return dict(case, plan=k)
    return [(case['plan'], plan)]
