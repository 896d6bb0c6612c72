"""Fixed small designs with the observations the standard demands (known findings)."""
import os
from .. import nvcsim
from ..cases import result, failed_proc
from . import run as vrun
from .kcheck import write, NOW

DESIGNS = {}


def demo(name, text, expect):
    DESIGNS[name] = (text.strip() + '\n', expect)


demo('delayed-initial', '''
entity top is end entity;
architecture a of top is
  signal s : integer := 5;
begin
  process begin
    report integer'image(s'delayed(2 ns));
    wait;
  end process;
end architecture;''', ['0:5'])

demo('postponed-timeout', '''
entity top is end entity;
architecture a of top is
  signal s : integer := 0;
begin
  s <= 1 after 1 ns;
  q : postponed process begin
    wait for 1 ns;
    report integer'image(s);
    wait;
  end process;
  p : process (s) is begin
    if s = 1 then s <= 2; end if;
  end process;
end architecture;'''.replace('s <= 1 after 1 ns;', '').replace(
    'if s = 1 then s <= 2; end if;', 'if s = 0 then s <= 1 after 1 ns; elsif s = 1 then s <= 2; end if;'),
    ['1:2'])

demo('postponed-until', '''
entity top is end entity;
architecture a of top is
  signal s : integer := 0;
begin
  q : postponed process begin
    wait until s = 1;
    report "resumed";
    wait;
  end process;
  p : process (s) is begin
    if s = 0 then s <= 1 after 1 ns; elsif s = 1 then s <= 2; end if;
  end process;
end architecture;''', ['1:resumed'])

demo('release-undriven', '''
entity sub is port (p : in integer); end entity;
architecture a of sub is begin
  process (p) is begin
    report integer'image(p);
  end process;
end architecture;
entity top is end entity;
architecture a of top is
  signal s : integer := 3;
begin
  u : entity work.sub port map (s);
  process is begin
    wait for 1 ns;
    s <= force 7;
    wait for 1 ns;
    s <= release;
    wait for 1 ns;
    report "end " & boolean'image(s'quiet(1 ns));
    wait;
  end process;
end architecture;''', ['0:3', '1:7', '2:3', '3:end true'])

demo('inout-active', '''
entity sub is port (p : inout integer); end entity;
architecture a of sub is begin
  process (p) is begin
    report boolean'image(p'active) & " " & integer'image(p);
  end process;
end architecture;
entity top is end entity;
architecture a of top is
  type int_vec is array (natural range <>) of integer;
  function add (v : int_vec) return integer is
    variable r : integer := 0;
  begin
    for i in v'range loop r := r + v(i); end loop;
    return r;
  end function;
  signal s : add integer := 0;
begin
  u : entity work.sub port map (s);
  s <= 4 after 1 ns;
end architecture;'''.replace('inout integer)', 'inout integer := 0)'),
    ['0:false 0', '1:true 4'])

demo('force-active', '''
entity sub is port (p : in integer); end entity;
architecture a of sub is begin
  process (p) is begin
    report boolean'image(p'active);
  end process;
end architecture;
entity top is end entity;
architecture a of top is
  signal s : integer := 3;
begin
  u : entity work.sub port map (s);
  s <= 4 after 5 ns;
  process is begin
    wait for 1 ns;
    s <= force 7;
    wait;
  end process;
end architecture;''', ['0:false', '1:true'])

demo('same-value-last-active', '''
entity top is end entity;
architecture a of top is
  signal s : bit := '0';
begin
  p : process begin
    wait for 1 ns;
    s <= s;
    report boolean'image(s'last_active = 0 ns);
    wait for 0 ns;
    report boolean'image(s'last_active = 0 ns);
    wait;
  end process;
end architecture;''', ['1:false', '1:true'])

demo('element-last-event', '''
entity top is end entity;
architecture a of top is
  signal s : bit_vector(0 to 1) := "00";
begin
  s <= "10" after 1 ns, "11" after 3 ns;
  process begin
    wait for 4 ns;
    report time'image(s(0)'last_event / 1 ns * 1 ns);
    wait;
  end process;
end architecture;'''.replace("time'image(s(0)'last_event / 1 ns * 1 ns)", "boolean'image(s(0)'last_event = 3 ns)"),
    ['4:true'])

demo('all-dead-branch', '''
entity top is end entity;
architecture a of top is
  signal s, t : bit := '0';
  constant off : boolean := false;
begin
  s <= '1' after 1 ns;
  process (all) is begin
    if off then t <= s; end if;
    report "ran";
  end process;
end architecture;''', ['0:ran', '1:ran'])


demo('delayed-resolved', '''
package p3 is
  type iv is array(natural range <>) of integer;
  function rs (v : iv) return integer;
  subtype ri is rs integer;
end package;
package body p3 is
  function rs (v : iv) return integer is
    variable s : integer := 1000;
  begin
    for i in v'range loop s := s + v(i); end loop;
    return s;
  end function;
end package body;
use work.p3.all;
entity top is end entity;
architecture a of top is
  signal s : ri := 5;
begin
  s <= 7 after 1 ns;
  process begin
    wait for 5 ns;
    report integer'image(s'delayed(2 ns));
    wait;
  end process;
end architecture;''', ['5:1007'])

demo('pulse-active', '''
entity top is end entity;
architecture a of top is
  signal s : bit_vector(0 to 1) := "00";
begin
  process begin
    s <= transport "11" after 1 ns;
    s <= "10" after 2 ns;
    s <= "00" after 2 ns;
    wait for 1 ns;
    report boolean'image(s'active);
    wait;
  end process;
end architecture;''', ['1:false'])

demo('cancel-same-value', '''
entity sub is port (p : in bit); end entity;
architecture a of sub is
  signal t : bit := '0';
begin
  process (p, t) begin
    report boolean'image(p'active);
  end process;
  t <= '1';
end architecture;
entity top is end entity;
architecture a of top is
  signal s : bit := '1';
begin
  process begin
    s <= '1';
    s <= '0' after 1 ns;
    wait;
  end process;
  u : entity work.sub port map (s);
end architecture;''', ['0:false', '0:false', '1:true'])

demo('same-value-twice', '''
entity top is end entity;
architecture a of top is
  signal s : bit := '1';
begin
  process begin
    s <= '1';
    wait for 0 ns;
    s <= '1';
    report boolean'image(s'active);
    s <= '1';
    report boolean'image(s'active);
    wait;
  end process;
end architecture;''', ['0:true', '0:true'])

demo('update-then-null', '''
package p3 is
  type iv is array(natural range <>) of integer;
  function rs (v : iv) return integer;
  subtype ri is rs integer;
end package;
package body p3 is
  function rs (v : iv) return integer is
    variable s : integer := 1000;
  begin
    for i in v'range loop s := s + v(i); end loop;
    return s;
  end function;
end package body;
use work.p3.all;
entity top is end entity;
architecture a of top is
  signal s : ri bus := 5;
begin
  process begin
    s <= 7;
    s <= transport null after 1 ns;
    wait;
  end process;
  process (s) begin report integer'image(s); end process;
end architecture;''', ['0:1005', '0:1007', '1:1000'])

demo('driver-not-resolved', '''
package p3 is
  type iv is array(natural range <>) of integer;
  function rs (v : iv) return integer;
  subtype ri is rs integer;
end package;
package body p3 is
  function rs (v : iv) return integer is
    variable s : integer := 1000;
  begin
    for i in v'range loop s := s + v(i); end loop;
    return s;
  end function;
end package body;
use work.p3.all;
entity top is end entity;
architecture a of top is
  signal s : ri := 5;
begin
  process begin
    s <= 7;
    s <= 9 after 1 ns;
    report "d " & integer'image(s'driving_value);
    wait;
  end process;
  process (s) begin report integer'image(s); end process;
end architecture;''', ['0:d 5', '0:1005', '1:1009'])

demo('update-then-force', '''
entity top is end entity;
architecture a of top is
  signal s : integer := 5;
begin
  process begin
    s <= 7;
    s <= force 3;
    report "d " & integer'image(s'driving_value);
    wait for 0 ns;
    report "d " & integer'image(s'driving_value);
    s <= release;
    wait for 1 ns;
    s <= 8;
    s <= release;
    wait for 1 ns;
    report "end " & integer'image(s);
    wait;
  end process;
  process (s) begin report integer'image(s); end process;
end architecture;''', ['0:d 5', '0:5', '0:d 7', '0:3', '0:7', '1:8', '2:end 8'])


demo('inout-child', '''
library ieee; use ieee.std_logic_1164.all;
entity sub1 is port (p1 : in std_logic_vector); end entity;
architecture a of sub1 is begin
 process (p1) begin report "c " & to_string(p1); end process;
end architecture;
library ieee; use ieee.std_logic_1164.all;
entity sub0 is port (p0 : inout std_logic_vector(1 downto 0) := "ZZ"); end entity;
architecture a of sub0 is begin
 u1 : entity work.sub1 port map (p0);
 process begin report "p " & to_string(p0); wait on p0; end process;
 p0 <= "1Z" after 5 ns;
end architecture;
library ieee; use ieee.std_logic_1164.all;
entity top is end entity;
architecture a of top is signal s : std_logic_vector(1 downto 0) := "0H"; begin
 u : entity work.sub0 port map (s);
 s <= "0H", "LL" after 2 ns;
end architecture;''',
    ['0:c 0H', '0:p 0H', '2:c LL', '2:p LL', '5:c 1L', '5:p 1L'])


def prog(name, decls, body, expect, std=2008):
    """A process that runs to an error ('!' in expect) or to the end."""
    demo(name, """
entity top is end entity;
architecture a of top is
%s
begin
  process is
    impure function five return integer is begin return 5; end;
    variable n : integer := five;
%s
    wait;
  end process;
end architecture;""" % (decls, body), expect)
    STD[name] = std


STD = {}

prog('aggregate-element', 'type t is array (1 to 3) of natural;', """    variable v : t := (1, 2, 3);
  begin
    v := (1, n - 10, 2);
    report integer'image(v(2));""", ['!'])

prog('overflow-64', '', """    type big is range -9223372036854775807 to 9223372036854775807;
    variable v : big := 9223372036854775807;
  begin
    v := v + big(n);
    report big'image(v);""", ['!'], 2019)

prog('abs-low', '', """    variable v : integer := integer'low;
  begin
    if n = 5 then v := v + 5; end if;
    v := abs (v - n);
    report integer'image(v);""", ['!'])

prog('time-quotient', '', """    variable t : time := 10 sec;
  begin
    n := t / 1 ns;
    report integer'image(n);""", ['!'])

prog('null-range-element', 'type t is array (integer range <>) of integer;', """    procedure p(k : integer) is
      constant c : t := (1 to k => 1 / k);
    begin
      report integer'image(c'length);
    end;
  begin
    p(n - 5);""", ['0:0'])

prog('out-by-copy', '', """    procedure p(x : out integer) is begin
      x := 7;
      report integer'image(n);
    end;
  begin
    p(n);
    report integer'image(n);""", ['0:5', '0:7'])

prog('out-may-wait', 'procedure p(x : out integer; w : boolean) is begin x := -1; if w then wait for 1 ns; end if; end;', """    variable k : natural := 1;
  begin
    p(k, n = 4);
    report integer'image(k);""", ['!'])


def run(srv, d, case):
    text, expect = DESIGNS[case['name']]
    write(d, 't.vhd', text)
    r = srv.run(d, [['nvc'] + nvcsim.lib_args(STD.get(case['name'], 2008)) + ['-a', '--relaxed', 't.vhd', '-e', '--jit', 'top', '-r',
                                                   '--stop-time=20ns']], now=NOW, secs=60)
    out = r['outs'][0]
    bad = failed_proc(r)
    obs, other = vrun.parse(out)
    got = ['%d:%s' % (t // 10**6, m) for t, _, m in obs]
    if '!' in expect and bad and bad[0] == 'fatal':
        bad = None
        got.append('!')
    msg = ''
    if bad:
        msg = bad[1]
    elif got != expect:
        msg = 'expected %s but found %s %s' % (expect, got, other[:1])
    return result('demo/' + case['name'] if msg else None, msg, None, 20e-9, {}, {}, [], text)


def cases(*names):
    return [('demo/' + n, dict(name=n)) for n in names]
