"""Random VHDL designs together with their meaning for the reference model.

Every construct is a pair of VHDL text and a Python closure."""
import random
from . import kernel
from .kernel import Port, Sim, Process, Implicit, Group, NEVER

MOD = 97

# -- types -------------------------------------------------------------------
MVL = "X01Z"
RES4 = [[0, 0, 0, 0], [0, 1, 0, 1], [0, 0, 2, 2], [0, 1, 2, 3]]
SL = "UX01ZWLH-"
SLRES = ["UUUUUUUUU", "UXXXXXXXX", "UX0X0000X", "UXX11111X", "UX01ZWLHX", "UX01WWWWX",
         "UX01LWLWX", "UX01HWWHX", "UXXXXXXXX"]


def res_sum(vs):
    return (sum(vs) + 5) % MOD


def res_max(vs):
    return max([0] + list(vs))


def res_mvl(vs):
    r = 3
    for v in vs:
        r = RES4[r][v]
    return r


def res_sl(vs):
    if len(vs) == 1:
        return vs[0]
    r = 4
    for v in vs:
        r = SL.index(SLRES[r][v])
    return r


class Type:
    def __init__(self, name, vhdl, lits, image, res=None, vec=None, lo=0, hi=0):
        self.name, self.vhdl, self.image, self.res, self.vec = name, vhdl, image, res, vec
        self.base = 'integer' if vhdl in ('integer', 'rsum', 'rmax') else vhdl
        self.lit = lits          # value -> VHDL literal
        self.lo, self.hi = lo, hi

    def rand(self, r):
        return r.randint(self.lo, self.hi)


INT = Type('int', 'integer', str, "integer'image(%s)", None, 'int_vec', 0, MOD - 1)
BIT = Type('bit', 'bit', lambda v: "'%d'" % v, "bit'image(%s)", None, 'bit_vector', 0, 1)
RSUM = Type('rsum', 'rsum', str, "integer'image(%s)", res_sum, 'rsum_vec', 0, MOD - 1)
RMAX = Type('rmax', 'rmax', str, "integer'image(%s)", res_max, 'rmax_vec', 0, MOD - 1)
RMVL = Type('rmvl', 'rmvl', lambda v: "'%s'" % MVL[v], "mvl'image(%s)", res_mvl, 'rmvl_vec', 0, 3)
RSL = Type('rsl', 'std_logic', lambda v: "'%s'" % SL[v], "std_logic'image(%s)", res_sl,
           'std_logic_vector', 0, 8)
SCALARS = [INT, BIT, RSUM, RMAX, RMVL]

# Record with mixed fields; field name -> (type, width or None)
REC = [('a', INT, None), ('b', BIT, 3), ('c', RSUM, None), ('d', RMVL, None)]

PKG = """package pkg is
  type mvl is ('X', '0', '1', 'Z');
  type mvl_vector is array (natural range <>) of mvl;
  function res4 (s : mvl_vector) return mvl;
  subtype rmvl is res4 mvl;
  type rmvl_vec is array (natural range <>) of rmvl;
  type int_vec is array (natural range <>) of integer;
  function ressum (s : int_vec) return integer;
  subtype rsum is ressum integer;
  type rsum_vec is array (natural range <>) of rsum;
  function resmax (s : int_vec) return integer;
  subtype rmax is resmax integer;
  type rmax_vec is array (natural range <>) of rmax;
  type rec is record
    a : integer; b : bit_vector(2 downto 0); c : rsum; d : rmvl;
  end record;
  subtype iv3 is int_vec(0 to 2);
  type iv3_vec is array (natural range <>) of iv3;
  function resiv3 (s : iv3_vec) return iv3;
  subtype riv3 is resiv3 iv3;
  function bsel (b : boolean; x, y : integer) return integer;
  procedure pulse (signal s : out integer; v1, v2 : integer; d : delay_length);
  procedure tpulse (signal s : out integer; v1, v2 : integer; d : delay_length);
end package;
package body pkg is
  type tab is array (mvl, mvl) of mvl;
  constant T : tab := (('X','X','X','X'), ('X','0','X','0'), ('X','X','1','1'), ('X','0','1','Z'));
  function res4 (s : mvl_vector) return mvl is
    variable r : mvl := 'Z';
  begin
    for i in s'range loop r := T(r, s(i)); end loop;
    return r;
  end function;
  function ressum (s : int_vec) return integer is
    variable r : integer := 5;
  begin
    for i in s'range loop r := r + s(i); end loop;
    return r mod 97;
  end function;
  function resmax (s : int_vec) return integer is
    variable r : integer := 0;
  begin
    for i in s'range loop
      if s(i) > r then r := s(i); end if;
    end loop;
    return r;
  end function;
  function resiv3 (s : iv3_vec) return iv3 is
    variable r : iv3 := (0, 0, 0);
  begin
    for i in s'range loop
      for j in r'range loop r(j) := (r(j) + s(i)(j)) mod 97; end loop;
    end loop;
    return r;
  end function;
  function bsel (b : boolean; x, y : integer) return integer is
  begin
    if b then return x; else return y; end if;
  end function;
  procedure pulse (signal s : out integer; v1, v2 : integer; d : delay_length) is
  begin
    s <= v1;
    wait for d;
    s <= v2;
  end procedure;
  procedure tpulse (signal s : out integer; v1, v2 : integer; d : delay_length) is
  begin
    s <= transport v1 after d, v2 after d + 2 ns;
  end procedure;
end package body;
"""


class E:
    """Expression: text, value function of a process context, nets read."""
    __slots__ = ('t', 'f', 'reads', 'attr')
    collect = None           # set of nets while process (all) is generated

    def __init__(self, t, f, reads=frozenset(), attr=False):
        self.t, self.f, self.reads, self.attr = t, f, frozenset(reads), attr
        if E.collect is not None:
            E.collect |= self.reads


class Sig:
    """A signal or port as seen in one declarative region."""

    def __init__(self, name, order, shape, nets, types, typ=None, mode=None, inits=None, comp=None):
        self.name = name
        self.order = order       # position for the zero-delay rule
        self.shape = shape       # 'scalar', 'array' or 'record' or 'riv3'
        self.nets = nets         # [Net]
        self.types = types       # [Type] per net
        self.typ = typ           # element type of scalars and arrays
        self.mode = mode         # None for signals, else in/out/inout
        self.inits = inits       # initial value of drivers made through this name
        self.asc = False         # 0 to n-1 rather than n-1 downto 0
        self.kind = None         # bus/register
        # Known finding: nvc misses activity of an inout port caused by its actual
        self.activity = mode != 'inout'

    def elem(self, i):
        """VHDL index of element position i."""
        return i if self.asc else len(self.nets) - 1 - i

    def elem_name(self, i):
        if self.shape == 'scalar':
            return self.name
        if self.shape in ('array', 'riv3'):
            return '%s(%d)' % (self.name, self.elem(i))
        k = 0
        for f, t, w in REC:
            if w is None:
                if k == i:
                    return '%s.%s' % (self.name, f)
                k += 1
            else:
                if i < k + w:
                    return '%s.%s(%d)' % (self.name, f, w - 1 - (i - k))
                k += w

    def readable(self):
        return self.mode != 'out'

    def type_vhdl(self):
        n = len(self.nets)
        if self.shape == 'scalar':
            return self.typ.vhdl
        if self.shape == 'array':
            return '%s(%s)' % (self.typ.vec, '0 to %d' % (n - 1) if self.asc else '%d downto 0' % (n - 1))
        return 'riv3' if self.shape == 'riv3' else 'rec'

    def init_vhdl(self, inits=None):
        v = inits or self.inits
        if self.shape == 'scalar':
            return self.typ.lit(v[0])
        if self.shape in ('array', 'riv3'):
            return '(' + ', '.join('%d => %s' % (self.elem(i), self.types[i].lit(v[i]))
                                   for i in range(len(v))) + ')'
        out, k = [], 0
        for f, t, w in REC:
            if w is None:
                out.append('%s => %s' % (f, t.lit(v[k])))
                k += 1
            else:
                out.append('%s => (%s)' % (f, ', '.join('%d => %s' % (w - 1 - j, t.lit(v[k + j]))
                                                       for j in range(w))))
                k += w
        return '(' + ', '.join(out) + ')'


def rec_layout():
    ts = []
    for f, t, w in REC:
        ts += [t] * (w or 1)
    return ts


class Ctx:
    """Execution context of one process."""
    __slots__ = ('sim', 'proc', 'v', 'count')

    def __init__(self, sim, proc):
        self.sim, self.proc = sim, proc
        self.v = {}
        self.count = 0


class Design:
    def __init__(self, seed, feat=None, dev=(), drop=()):
        self.seed = seed
        self.drop = frozenset(drop)     # numbers of the statements left out (minimisation)
        self.count = 0
        self.r = random.Random(seed)
        self.sim = Sim(dev=tuple(dev))
        self.features = set()
        self.inout_in = False    # an inout port is associated with a port of mode in
        self.dev = dev           # known deviations of nvc to reproduce
        r = self.r
        p = dict(hier=0.45, guard=0.25, force=0.2, stdlogic=0.15, postponed=0.2, implicit=0.5,
                 records=0.4, conc=0.6, generate=0.3, comp=0.2, big=0.15)
        p.update(feat or {})     # probabilities
        self.feat = {k: r.random() < v for k, v in p.items()}
        self.owner = {}          # unresolved net -> process name
        self.grouped = {}
        self.nproc = 0
        self.entities = []
        self.order = 0
        self.stop = r.randint(12, 45)
        self.build()

    # -- declarations -------------------------------------------------------
    def new_signal(self, name, typ=None, shape=None):
        r = self.r
        if shape is None:
            shape = r.choices(['scalar', 'array', 'record', 'riv3'],
                              [6, 4, 1.5 if self.feat['records'] else 0, 1 if self.feat['comp'] else 0])[0]
        if typ is None and shape in ('scalar', 'array'):
            typ = r.choice(SCALARS + ([RSL, RSL] if self.feat['stdlogic'] else []))
        if shape == 'scalar':
            types = [typ]
        elif shape == 'array':
            types = [typ] * (r.randint(2, 5) if not self.feat['big'] else r.choice([3, 9, 17]))
        elif shape == 'riv3':
            types = [INT] * 3
            typ = INT
        else:
            types = rec_layout()
        inits = [t.rand(r) for t in types]
        kind = None
        if self.feat['guard'] and shape == 'scalar' and typ in (RSUM, RMAX, RMVL) and r.random() < 0.6:
            kind = r.choice(['bus', 'register'])
        nets = [self.sim.net('%s.%d' % (name, i), inits[i], t.res, kind) for i, t in enumerate(types)]
        for n, t in zip(nets, types):
            left = -2147483648 if t in (INT, RSUM, RMAX) else 0
            n.left = left
        self.order += 1
        s = Sig(name, self.order, shape, nets, types, typ, None, inits)
        s.kind = kind
        s.asc = shape == 'riv3' or r.random() < 0.5
        if shape == 'riv3':
            def rf(srcs):
                return [sum(x[j] for x in srcs) % MOD for j in range(3)]
            self.sim.groups.append(Group(nets, rf))
        return s

    # -- expressions --------------------------------------------------------
    def nets_expr(self, s, i):
        n = s.nets[i]
        return E(s.elem_name(i), lambda c: n.val, [n])

    def int_expr(self, sc, d=2):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.15:
            v = r.randint(0, MOD - 1)
            return E(str(v), lambda c: v)
        if k < 0.5:
            cand = [(s, i) for s in sc.sigs if s.readable() for i, t in enumerate(s.types)
                    if t in (INT, RSUM, RMAX)]
            if cand:
                s, i = r.choice(cand)
                if s.shape == 'array' and r.random() < 0.3 and sc.ivars:
                    # dynamic index
                    n = len(s.nets)
                    v = r.choice(sc.ivars)
                    return E('%s(%s mod %d)' % (s.name, v, n),
                             lambda c: s.nets[(c.v[v] % n) if s.asc else n - 1 - (c.v[v] % n)].val,
                             s.nets)
                if s.mode is None and s.shape == 'scalar' and r.random() < 0.15 and sc.attrs:
                    n = s.nets[0]
                    return E("%s'last_value" % s.name, lambda c: n.last_val, [n], True)
                return self.nets_expr(s, i)
        if k < 0.65 and sc.ivars:
            v = r.choice(sc.ivars)
            return E(v, lambda c: c.v[v])
        if k < 0.75:
            b = self.bool_expr(sc, d - 1)
            x, y = self.int_expr(sc, d - 1), self.int_expr(sc, d - 1)
            return E('bsel(%s, %s, %s)' % (b.t, x.t, y.t),
                     lambda c: x.f(c) if b.f(c) else y.f(c), b.reads | x.reads | y.reads,
                     b.attr or x.attr or y.attr)
        x, y = self.int_expr(sc, d - 1), self.int_expr(sc, d - 1)
        op = r.choice(['+', '-', '*'])
        fn = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b}[op]
        return E('((%s %s %s) mod 97)' % (x.t, op, y.t),
                 lambda c: fn(x.f(c), y.f(c)) % MOD, x.reads | y.reads, x.attr or y.attr)

    def always(self, sc):
        x = self.dynamic_int(sc)
        return E('(%s >= 0)' % x.t, lambda c: x.f(c) >= 0, x.reads, x.attr)

    def dynamic_int(self, sc):
        cand = [(s, i) for s in sc.sigs if s.readable() for i, t in enumerate(s.types)
                if t in (INT, RSUM, RMAX)]
        if cand:
            return self.nets_expr(*self.r.choice(cand))
        if sc.ivars:
            v = self.r.choice(sc.ivars)
            return E(v, lambda c: c.v[v])
        cand = [(s, i) for s in sc.sigs if s.readable() for i in range(len(s.nets))]
        s, i = self.r.choice(cand)
        n, tn = s.nets[i], s.types[i]
        return E("%s'pos(%s)" % ({'bit': 'bit', 'rmvl': 'mvl', 'rsl': 'std_ulogic'}[tn.name],
                                s.elem_name(i)), lambda c: n.val, [n])

    def enum_expr(self, sc, t, d=2):
        r = self.r
        cand = [(s, i) for s in sc.sigs if s.readable() for i, u in enumerate(s.types) if u is t]
        if cand and r.random() < 0.6:
            s, i = r.choice(cand)
            e = self.nets_expr(s, i)
            if t is BIT and r.random() < 0.5:
                return E('(not %s)' % e.t, lambda c: 1 - e.f(c), e.reads)
            return e
        if t is BIT and d > 0 and r.random() < 0.4:
            x, y = self.enum_expr(sc, t, d - 1), self.enum_expr(sc, t, d - 1)
            op = r.choice(['and', 'or', 'xor'])
            fn = {'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}[op]
            return E('(%s %s %s)' % (x.t, op, y.t), lambda c: fn(x.f(c), y.f(c)), x.reads | y.reads)
        v = t.rand(r)
        return E(t.lit(v), lambda c: v)

    def expr(self, sc, t, d=2):
        return self.int_expr(sc, d) if t in (INT, RSUM, RMAX) else self.enum_expr(sc, t, d)

    def prefix(self, sc, scalar_only=False):
        """A signal or element usable as attribute prefix: text, nets."""
        r = self.r
        cand = [s for s in sc.sigs if s.mode in (None, 'in', 'inout')]
        if not cand:
            return None
        s = r.choice(cand)
        self.prefix_activity = s.activity and s.shape != 'riv3'
        self.prefix_elem = False
        if s.shape == 'scalar' or (not scalar_only and r.random() < 0.4):
            return s.name, list(s.nets)
        i = r.randrange(len(s.nets))
        # Known finding: nvc tracks elements that are always assigned together as one
        self.prefix_elem = True
        return s.elem_name(i), [s.nets[i]]

    def implicit(self, kind, name, nets, t):
        key = (kind, tuple(id(n) for n in nets), t)
        if key in self.imp:
            return self.imp[key]
        self.features.add(kind)
        if kind == 'delayed':
            # Known finding: nvc starts S'delayed with the leftmost value
            out = [self.sim.net("%s'delayed" % n.name, n.left if 'delayed' in self.dev else n.default)
                   for n in nets]

            def body(sim, p):
                for n, o in zip(nets, out):
                    sim.assign(p, o, [(n.val, t)], 'transport', None)
                while True:
                    yield (nets, None, None)
                    # A composite is assigned as a whole
                    for n, o in zip(nets, out):
                        sim.assign(p, o, [(n.val, t)], 'transport', None)
            p = Process('delayed', body)
            self.delayed.append((p, nets, out))
            self.imp[key] = out
            return out
        n = self.sim.net("%s'%s(%d)" % (name, kind, t), 1)
        self.sim.nets.remove(n)
        self.sim.implicits.append(Implicit(kind, nets, t, n))
        self.imp[key] = [n]
        return [n]

    def activity_ok(self, nets, attr):
        # Known findings: a force does not make S'active true; S'last_active is wrong in
        # the cycle that makes a zero-delay assignment
        ids = {id(n) for n in nets}
        if not self.prefix_activity or attr != 'stable' and ids & self.forced \
                or attr == 'last_active' and ids & self.zerod \
                or attr != 'stable' and ids & self.pulse:
            return False
        self.act |= ids
        if attr == 'last_active':
            self.lastact |= ids
        return True

    def may_reject(self, s, idx):
        # Known finding: S'active of a composite after two partial pulse rejections in a row
        ids = {id(s.nets[i]) for i in idx}
        if len(idx) > 1:
            if ids & self.act:
                return False
            self.pulse |= ids
        return True

    def bool_expr(self, sc, d=2):
        r = self.r
        k = r.random()
        if k < 0.3 and sc.attrs:
            p = self.prefix(sc)
            if p:
                name, nets = p
                a = r.choice(['event', 'active', 'last_event', 'last_active', 'stable', 'quiet', 'stable0'])
                if a in ('stable', 'quiet', 'stable0') and not (self.feat['implicit'] and sc.implicit_ok):
                    a = 'event'
                if self.prefix_elem and a not in ('stable', 'stable0') or a == 'last_event' and \
                        len(nets) > 1:
                    a = 'event'
                if a not in ('event', 'last_event') and not self.activity_ok(nets, a):
                    a = 'event'
                if not sc.events and a in ('event', 'active'):
                    t = r.randint(1, 6)
                    self.features.add('last_event')
                    return E("(%s'last_event < %d ns)" % (name, t), lambda c: c.sim.since_event(nets) < t, nets, True) \
                        if len(nets) == 1 and not self.prefix_elem else self.always(sc)
                if a == 'event':
                    return E("%s'event" % name, lambda c: c.sim.event(nets), nets, True)
                if a == 'active':
                    return E("%s'active" % name, lambda c: c.sim.active(nets), nets, True)
                self.features.add(a)
                t = r.randint(1, 6)
                if a == 'last_event':
                    return E("(%s'last_event < %d ns)" % (name, t), lambda c: c.sim.since_event(nets) < t, nets, True)
                if a == 'last_active':
                    return E("(%s'last_active < %d ns)" % (name, t), lambda c: c.sim.since_active(nets) < t, nets, True)
                if a == 'stable0':
                    a, t = 'stable', 0
                (n,) = self.implicit(a, name, nets, t)
                txt = "%s'%s" % (name, a) + ('' if t == 0 and r.random() < 0.5 else '(%d ns)' % t)
                return E(txt, lambda c: n.val == 1, [n], True)
        if k < 0.45 and d > 0:
            x, y = self.bool_expr(sc, d - 1), self.bool_expr(sc, d - 1)
            op = r.choice(['and', 'or', 'xor'])
            fn = {'and': lambda a, b: bool(a and b), 'or': lambda a, b: bool(a or b),
                  'xor': lambda a, b: bool(a) != bool(b)}[op]
            return E('(%s %s %s)' % (x.t, op, y.t), lambda c: fn(x.f(c), y.f(c)), x.reads | y.reads,
                     x.attr or y.attr)
        if k < 0.52 and d > 0:
            x = self.bool_expr(sc, d - 1)
            return E('(not %s)' % x.t, lambda c: not x.f(c), x.reads, x.attr)
        if k < 0.75:
            x, y = self.int_expr(sc, d - 1), self.int_expr(sc, d - 1)
            if x.t.isdigit() and y.t.isdigit():
                # No static conditions: nvc drops the dead branch
                x = self.dynamic_int(sc)
            op = r.choice(['<', '>=', '=', '/='])
            fn = {'<': lambda a, b: a < b, '>=': lambda a, b: a >= b, '=': lambda a, b: a == b,
                  '/=': lambda a, b: a != b}[op]
            return E('(%s %s %s)' % (x.t, op, y.t), lambda c: fn(x.f(c), y.f(c)), x.reads | y.reads,
                     x.attr or y.attr)
        ts = [t for t in (BIT, RMVL, RSL) if any(u is t for s in sc.sigs if s.readable() for u in s.types)]
        if not ts:
            x = self.dynamic_int(sc)
            v = r.randint(10, 80)
            return E('(%s < %d)' % (x.t, v), lambda c: x.f(c) < v, x.reads, x.attr)
        t = r.choice(ts)
        cand = [(s, i) for s in sc.sigs if s.readable() for i, u in enumerate(s.types) if u is t]
        s, i = r.choice(cand)
        v = t.rand(r)
        n = s.nets[i]
        return E("(%s = %s)" % (s.elem_name(i), t.lit(v)), lambda c: n.val == v, [n])

    # -- statements ----------------------------------------------------------
    # A statement is (lines, fn) with fn(ctx) a generator yielding waits
    def obs_stmt(self, sc, p):
        r = self.r
        parts, es = [], []
        cand = [(s, i) for s in sc.sigs if s.readable() for i in range(len(s.nets))]
        for s, i in r.sample(cand, min(len(cand), r.randint(1, 4))):
            n, t = s.nets[i], s.types[i]
            lit = t.lit
            if E.collect is not None:
                E.collect.add(n)
            parts.append(t.image % s.elem_name(i))
            es.append(lambda c, n=n, lit=lit: lit(n.val))
        for _ in range(r.choice([0, 0, 1, 2])):
            b = self.bool_expr(sc, 1)
            parts.append("boolean'image(%s)" % b.t)
            es.append(lambda c, b=b: 'true' if b.f(c) else 'false')
        if sc.ivars and r.random() < 0.5:
            v = r.choice(sc.ivars)
            parts.append("integer'image(%s)" % v)
            es.append(lambda c, v=v: str(c.v[v]))
        if r.random() < 0.15 and p.targets:
            s, idx = r.choice(p.targets)
            n = s.nets[idx[0]]
            if len(idx) == 1 and not p.nodv:
                lit = s.types[idx[0]].lit
                parts.append(s.types[idx[0]].image % ("%s'driving_value" % s.elem_name(idx[0])))
                self.features.add('driving_value')
                # A disconnected driver has no driving value
                if s.kind is None:
                    es.append(lambda c: lit(c.proc.drv[n].cur))
                else:
                    parts.pop()
        if not parts:
            parts.append("integer'image(v0)")
            es.append(lambda c: str(c.v['v0']))
        tag = p.new_tag()
        gi = sc.gi
        if gi is not None:
            txt = 'report "%s." & integer\'image(gi) & ":" & ' % tag
            pre = '%s.%d:' % (tag, gi)
        else:
            txt = 'report "%s:" & ' % tag
            pre = '%s:' % tag
        txt += ' & " " & '.join(parts) + ';'

        def fn(c):
            c.sim.observe(pre + ' '.join(e(c) for e in es))
            return
            yield
        return [txt], fn

    def may_drive(self, p, s, idx):
        if s.mode == 'in':
            return False
        for i in idx:
            if s.types[i].res is None and s.shape != 'riv3':
                if self.owner.get(id(s.nets[i]), p.name) != p.name:
                    return False
        return True

    def target(self, sc, p):
        """(text, sig, [element positions], dynamic index or None)"""
        r = self.r
        for _ in range(12):
            cand = [s for s in sc.sigs if s.mode != 'in']
            if not cand:
                return None
            if p.targets and r.random() < 0.5:
                s, idx = r.choice(p.targets)
            else:
                s = r.choice(cand)
                n = len(s.nets)
                if s.shape in ('scalar', 'riv3') or r.random() < 0.35:
                    idx = list(range(n))
                elif s.shape == 'array' and r.random() < 0.3 and n > 2:
                    lo = r.randrange(n - 1)
                    hi = r.randrange(lo + 1, n)
                    idx = list(range(lo, hi + 1))
                else:
                    idx = [r.randrange(n)]
            if not self.may_drive(p, s, idx):
                continue
            # Longest static prefixes of one process must not partly overlap
            # in ways that make the reference ambiguous; any overlap is fine
            for i in idx:
                if s.types[i].res is None and s.shape != 'riv3':
                    self.owner[id(s.nets[i])] = p.name
            if (s, idx) not in p.targets:
                p.targets.append((s, idx))
            for i in idx:
                p.drives.setdefault(s.nets[i], s.inits[i])
            return s, idx
        return None

    def target_text(self, s, idx):
        if len(idx) == len(s.nets) and not (len(idx) == 1 and s.shape == 'array'):
            return s.name
        if len(idx) == 1:
            return s.elem_name(idx[0])
        a, b = s.elem(idx[0]), s.elem(idx[-1])
        return '%s(%d %s %d)' % (s.name, a, 'to' if s.asc else 'downto', b)

    def value_text(self, s, idx, es):
        if s.shape == 'scalar' or len(idx) == 1 and len(idx) < len(s.nets):
            return es[0].t
        if s.shape in ('array', 'riv3'):
            if len(idx) == len(s.nets):
                return '(' + ', '.join('%d => %s' % (s.elem(i), e.t) for i, e in zip(idx, es)) + ')'
            return '(' + ', '.join(e.t for e in es) + ')'
        out, k = [], 0
        for f, t, w in REC:
            if w is None:
                out.append('%s => %s' % (f, es[k].t))
                k += 1
            else:
                out.append('%s => (%s)' % (f, ', '.join(e.t for e in es[k:k + w])))
                k += w
        return '(' + ', '.join(out) + ')'

    def delay(self, p, s, first=0):
        r = self.r
        zero_ok = p.maxsens is None or s.order > p.maxsens
        ids = {id(n) for n in s.nets}
        lo = 0 if zero_ok and not ids & self.lastact else 1
        t = first + r.choice([0, 0, 1, 1, 2, 3, 5, 8]) if lo == 0 and first == 0 else \
            first + r.choice([1, 1, 2, 2, 3, 5, 8])
        if t == 0:
            self.zerod |= ids
        return t

    def assign_stmt(self, sc, p):
        r = self.r
        before, ntarg = dict(p.drives), len(p.targets)
        tg = self.target(sc, p)
        if tg is None:
            return self.var_stmt(sc, p)
        s, idx = tg
        nets = [s.nets[i] for i in idx]
        # Known finding: nvc aborts when a signal without a driver is released
        if self.feat['force'] and (nets[0] in before or nets[0].drivers) and s.mode is None and s.kind is None and s.shape == 'scalar' \
                and id(nets[0]) not in self.act \
                and r.random() < 0.4 and (p.maxsens is None or s.order > p.maxsens) \
                and p.forcer and self.owner.get(('f', id(s.nets[0])), p.name) == p.name:
            # Force and release from one process only; neither creates a driver
            p.drives = before
            del p.targets[ntarg:]
            self.owner[('f', id(s.nets[0]))] = p.name
            self.features.add('force')
            self.forced.add(id(nets[0]))
            n = nets[0]
            if r.random() < 0.6:
                e = self.expr(sc, s.types[idx[0]], 1)

                def fn(c):
                    n.force_req = (e.f(c), True)
                    return
                    yield
                return ['%s <= force %s;' % (s.name, e.t)], fn

            def fn(c):
                n.force_req = (None, False)
                return
                yield
            return ['%s <= release;' % s.name], fn
        nw = r.choices([1, 2, 3], [7, 2, 1])[0]
        null_ok = s.kind is not None and r.random() < 0.35
        waves, t = [], self.delay(p, s)
        for k in range(nw):
            if null_ok:
                waves.append(([], t))
                break
            es = [self.expr(sc, s.types[i], 1) for i in idx]
            waves.append((es, t))
            t += r.choice([1, 1, 2, 3])
        mode, reject, mtxt = 'inertial', None, ''
        k = r.random()
        if k < 0.3:
            mode, mtxt = 'transport', 'transport '
        elif k < 0.5 and waves[0][1] > 0:
            reject = r.randint(0, waves[0][1])
            mtxt = 'reject %d ns inertial ' % reject
            self.features.add('reject')
        elif k < 0.6:
            mtxt = 'inertial '
        if mode == 'inertial' and waves[0][1] > 0 and not null_ok and not self.may_reject(s, idx):
            mode, reject, mtxt = 'transport', None, 'transport '
        txt = '' if null_ok else ', '.join(self.value_text(s, idx, es) + ('' if t == 0 else ' after %d ns' % t)
                        for es, t in waves)
        if null_ok:
            txt = 'null' + ('' if waves[0][1] == 0 else ' after %d ns' % waves[0][1])
            t0 = waves[0][1]
            n = nets[0]
            if r.random() < 0.4:
                e, tn = self.expr(sc, s.types[idx[0]], 1), t0 + r.randint(1, 4)
                txt = '%s%s, null after %d ns' % (e.t, '' if t0 == 0 else ' after %d ns' % t0, tn)
                ws = [(e.f, t0), (lambda c: None, tn)]
            else:
                ws = [(lambda c: None, t0)]

            def fn(c):
                c.sim.assign(c.proc, n, [(f(c), t) for f, t in ws], mode, reject)
                return
                yield
            self.features.add('null')
            return ['%s <= %s%s;' % (s.name, mtxt, txt)], fn
        fs = [([e.f for e in es], t) for es, t in waves]

        def fn(c):
            vals = [([f(c) for f in ff], t) for ff, t in fs]
            for j, n in enumerate(nets):
                c.sim.assign(c.proc, n, [(v[j], t) for v, t in vals], mode, reject)
            return
            yield
        return ['%s <= %s%s;' % (self.target_text(s, idx), mtxt, txt)], fn

    def var_stmt(self, sc, p):
        v = self.r.choice(['v0', 'v1'])
        e = self.int_expr(sc, 2)

        def fn(c):
            c.v[v] = e.f(c)
            return
            yield
        return ['%s := %s;' % (v, e.t)], fn

    def dyn_stmt(self, sc, p):
        """Assignment to a dynamically indexed element."""
        r = self.r
        cand = [s for s in sc.sigs if s.mode != 'in' and s.shape == 'array'
                and self.may_drive(p, s, range(len(s.nets)))]
        if not cand:
            return self.assign_stmt(sc, p)
        s = r.choice(cand)
        n = len(s.nets)
        for i in range(n):
            if s.types[i].res is None:
                self.owner[id(s.nets[i])] = p.name
            p.drives.setdefault(s.nets[i], s.inits[i])
        p.targets.append((s, list(range(n))))
        v = r.choice(sc.ivars)
        e = self.expr(sc, s.typ, 1)
        t = self.delay(p, s)
        mode = r.choice(['inertial', 'transport'])
        self.features.add('dynamic index')

        def fn(c):
            k = c.v[v] % n
            net = s.nets[k if s.asc else n - 1 - k]
            c.sim.assign(c.proc, net, [(e.f(c), t)], mode, None)
            return
            yield
        return ['%s(%s mod %d) <= %s%s after %d ns;' % (s.name, v, n, '' if mode == 'inertial' else
                                                       'transport ', e.t, t)], fn

    def call_stmt(self, sc, p):
        r = self.r
        cand = [s for s in sc.sigs if s.mode != 'in' and s.shape == 'scalar'
                and s.typ in (INT, RSUM, RMAX) and s.kind is None and self.may_drive(p, s, [0])]
        if not cand:
            return self.assign_stmt(sc, p)
        s = r.choice(cand)
        if s.types[0].res is None:
            self.owner[id(s.nets[0])] = p.name
        p.drives.setdefault(s.nets[0], s.inits[0])
        p.targets.append((s, [0]))
        n = s.nets[0]
        x, y = self.int_expr(sc, 1), self.int_expr(sc, 1)
        d = r.randint(1, 4)
        self.features.add('signal parameter')
        if p.canwait and (p.maxsens is None or s.order > p.maxsens) and r.random() < 0.5 \
                and id(n) not in self.lastact:
            self.zerod.add(id(n))

            def fn(c):
                a, b = x.f(c), y.f(c)
                c.sim.assign(c.proc, n, [(a, 0)], 'inertial', None)
                yield ([], None, d)
                c.sim.assign(c.proc, n, [(b, 0)], 'inertial', None)
            return ['pulse(%s, %s, %s, %d ns);' % (s.name, x.t, y.t, d)], fn

        def fn(c):
            c.sim.assign(c.proc, n, [(x.f(c), d), (y.f(c), d + 2)], 'transport', None)
            return
            yield
        return ['tpulse(%s, %s, %s, %d ns);' % (s.name, x.t, y.t, d)], fn

    def seq(self, sc, p, n, depth):
        out, fns = [], []
        for _ in range(n):
            l, f = self.stmt(sc, p, depth)
            out += l
            fns.append(f)

        def fn(c):
            for f in fns:
                yield from f(c)
        return out, fn

    def stmt(self, sc, p, depth):
        num = self.count
        self.count += 1
        if num not in self.drop:
            return self.stmt1(sc, p, depth)
        drives, reads = dict(p.drives), None if E.collect is None else set(E.collect)
        owner = dict(self.owner)
        self.stmt1(sc, p, depth)
        p.drives, E.collect, self.owner = drives, reads, owner

        def fn(c):
            return
            yield
        return ['null;'], fn

    def stmt1(self, sc, p, depth):
        r = self.r
        k = r.random()
        if k < 0.45:
            return self.assign_stmt(sc, p)
        if k < 0.52:
            return self.var_stmt(sc, p)
        if k < 0.60:
            return self.dyn_stmt(sc, p)
        if k < 0.66 and not p.is_conc:
            return self.call_stmt(sc, p)
        if k < 0.80 and depth > 0:
            b = self.bool_expr(sc, 1)
            tl, tf = self.seq(sc, p, r.randint(1, 2), depth - 1)
            el, ef = self.seq(sc, p, r.randint(0, 2), depth - 1)
            lines = ['if %s then' % b.t] + ['  ' + x for x in tl]
            if el:
                lines += ['else'] + ['  ' + x for x in el]
            lines += ['end if;']

            def fn(c):
                yield from (tf if b.f(c) else ef)(c)
            return lines, fn
        if k < 0.86 and depth > 0:
            n = r.randint(2, 3)
            v = 'i%d' % depth
            sc.ivars.append(v)
            bl, bf = self.seq(sc, p, r.randint(1, 2), depth - 1)
            sc.ivars.remove(v)
            p.loopvars.add(v)

            def fn(c):
                for i in range(n):
                    c.v[v] = i
                    yield from bf(c)
            # The loop parameter is constant: assignments to it are not generated
            return ['for %s in 0 to %d loop' % (v, n - 1)] + ['  ' + x for x in bl] + ['end loop;'], fn
        if k < 0.92 and p.canwait:
            return self.wait_stmt(sc, p)
        return self.obs_stmt(sc, p)

    def sens(self, sc, p, n):
        """Sensitivity items: texts and nets; keeps the zero-delay order."""
        r = self.r
        txt, nets = [], []
        cand = [s for s in sc.sigs if s.readable() and (p.maxsens is None or s.order <= p.maxsens)]
        if not cand:
            return [], []
        for _ in range(n):
            s = r.choice(cand)
            k = r.random()
            if s.shape == 'scalar' or k < 0.4:
                name, ns = s.name, list(s.nets)
            else:
                i = r.randrange(len(s.nets))
                name, ns = s.elem_name(i), [s.nets[i]]
            if self.feat['implicit'] and sc.implicit_ok and s.mode in (None, 'in') \
                    and s.activity and r.random() < 0.25 \
                    and len(ns) == 1:
                k = r.choice(['transaction', 'delayed', 'stable', 'quiet'])
                self.prefix_activity = s.shape == 'scalar'
                if not self.activity_ok(ns, k):
                    k = 'stable'
                t = 0 if k == 'transaction' else r.choice([0, 1, 3])
                ns = self.implicit(k, name, ns, t)
                name = "%s'%s" % (name, k) + ('' if k == 'transaction' else '(%d ns)' % t)
            if name in txt:
                continue
            txt.append(name)
            nets += ns
        return txt, nets

    def wait_stmt(self, sc, p):
        r = self.r
        k = r.random()
        if k < 0.45:
            t = r.choice([0, 1, 1, 2, 3, 5, 7]) if p.zero_wait else r.choice([1, 1, 2, 3, 5, 7])

            def fn(c):
                yield ([], None, t)
            return ['wait for %d ns;' % t], fn
        t = r.choice([1, 2, 4, 6, 9])
        if k < 0.7:
            txt, nets = self.sens(sc, p, r.randint(1, 3))
            if txt:
                tm = r.random() < 0.7

                def fn(c):
                    yield (nets, None, t if tm else None)
                return ['wait on %s%s;' % (', '.join(txt), ' for %d ns' % t if tm else '')], fn
        b = self.bool_expr(Limited(sc, p), 1)
        reads = list(b.reads)
        # Known finding: a postponed process tests the condition too late
        if not reads or p.postponed:
            def fn(c):
                yield ([], None, t)
            return ['wait for %d ns;' % t], fn
        if r.random() < 0.3:
            txt, nets = self.sens(sc, p, 2)
            if txt:
                def fn(c):
                    yield (nets, lambda: b.f(c), t)
                return ['wait on %s until %s for %d ns;' % (', '.join(txt), b.t, t)], fn

        def fn(c):
            yield (reads, lambda: b.f(c), t)
        return ['wait until %s for %d ns;' % (b.t, t)], fn

    # -- processes -----------------------------------------------------------
    def process(self, sc, gi_all=None):
        r = self.r
        p = Proc(self)
        sc.ivars = ['v0', 'v1']
        sc.attrs = True
        sc.events = True
        maxo = max(s.order for s in sc.sigs)
        mino = min(s.order for s in sc.sigs)
        p.maxsens = r.randint(mino, maxo)
        p.forcer = r.random() < 0.5
        post = self.feat['postponed'] and r.random() < 0.35
        p.postponed = post
        kind = r.choices(['sens', 'wait', 'all'], [4, 5, 0.7])[0]
        sc.implicit_ok = sc.gi is None
        inits = {'v0': r.randint(0, 9), 'v1': r.randint(0, 9)}
        if post:
            p.maxsens = 1 << 30      # Only delayed assignments
            p.zero_wait = False
            sc.events = False        # The number of empty delta cycles is left open
        if kind == 'all':
            sc.attrs = False
            self.features.add('process(all)')
        if kind in ('sens', 'all'):
            txt, nets = self.sens(sc, p, r.randint(1, 3))
            if not txt:
                kind = 'wait'
        if kind in ('sens', 'all'):
            # Zero delay only to signals above everything read by process(all)
            if kind == 'all':
                p.maxsens = 1 << 30
                E.collect = set()
            bl, bf = self.seq(sc, p, r.randint(1, 4), 2)
            ol, of = self.obs_stmt(sc, p)
            if kind == 'all':
                s = r.choice([s for s in sc.sigs if s.readable()])
                v = 'v0'
                i = r.randrange(len(s.nets))
                cmpv = s.types[i].rand(r)
                nn = s.nets[i]
                extra = 'if %s = %s then v0 := v0 + 1; end if;' % (s.elem_name(i), s.types[i].lit(cmpv))

                def xf(c):
                    if nn.val == cmpv:
                        c.v['v0'] += 1
                    return
                    yield
                bl.insert(0, extra)
                bf0 = bf

                def bf(c):
                    yield from xf(c)
                    yield from bf0(c)
                nets = list(E.collect | {nn})
                E.collect = None
                head = 'all'
            else:
                head = ', '.join(txt)

            def body(sim, pr):
                c = Ctx(sim, pr)
                c.v.update(inits)
                while True:
                    yield from bf(c)
                    yield from of(c)
                    yield (nets, None, None)
            lines = bl + ol
            opener = '%sprocess (%s)' % ('postponed ' if post else '', head)
        else:
            p.canwait = True
            p.zero_wait = not post
            bl, bf = self.seq(sc, p, r.randint(2, 6), 2)
            ol, of = self.obs_stmt(sc, p)
            # At least one pause of positive length per iteration
            t = r.randint(1, 6)
            once = r.random() < 0.15
            lines = bl + ol + (['wait;'] if once else ['wait for %d ns;' % t])

            def body(sim, pr):
                c = Ctx(sim, pr)
                c.v.update(inits)
                while True:
                    yield from bf(c)
                    yield from of(c)
                    if once:
                        return
                    yield ([], None, t)
            opener = '%sprocess' % ('postponed ' if post else '')
        text = ['%s : %s' % (p.name, opener)]
        text += ['  variable v%d : integer := %d;' % (i, inits['v%d' % i]) for i in (0, 1)]
        text += ['begin'] + ['  ' + x for x in lines] + ['end %sprocess;' % ('postponed ' if post else '')]
        self.add_proc(p, body)
        if post:
            self.features.add('postponed')
        return text

    def add_proc(self, p, body):
        pr = Process(p.name, body, p.postponed)
        for net, init in p.drives.items():
            self.sim.driver(pr, net, init, self.portmap[-1].get(id(net)))
        self.sim.procs.append(pr)

    def concurrent(self, sc):
        """Concurrent conditional assignment."""
        r = self.r
        p = Proc(self)
        p.is_conc = True
        sc.ivars = []
        sc.attrs = r.random() < 0.3
        sc.events = True
        sc.implicit_ok = sc.gi is None
        cand = [s for s in sc.sigs if s.mode != 'in']
        tg = self.target(sc, p)
        if tg is None:
            return None
        s, idx = tg
        if s.kind:
            return None
        lower = [x for x in sc.sigs if x.order < s.order and x.readable()]
        t = self.delay(p, s)
        sub = Limited(sc, p)
        if t == 0:
            if not lower:
                t = 1
            else:
                sub.sigs = lower
        b = self.bool_expr(sub, 1)
        xs = [self.expr(sub, s.types[i], 1) for i in idx]
        ys = [self.expr(sub, s.types[i], 1) for i in idx]
        reads = set(b.reads)
        for e in xs + ys:
            reads |= e.reads
        reads = list(reads)
        nets = [s.nets[i] for i in idx]
        mode = r.choice(['inertial', 'transport'])
        if mode == 'inertial' and t > 0 and not self.may_reject(s, idx):
            mode = 'transport'
        xf, yf = [e.f for e in xs], [e.f for e in ys]

        def body(sim, pr):
            c = Ctx(sim, pr)
            while True:
                vs = [f(c) for f in (xf if b.f(c) else yf)]
                for n, v in zip(nets, vs):
                    sim.assign(pr, n, [(v, t)], mode, None)
                if not reads:
                    return
                yield (reads, None, None)
        self.add_proc(p, body)
        self.features.add('concurrent assignment')
        after = '' if t == 0 else ' after %d ns' % t
        return ['%s : %s <= %s%s%s when %s else %s%s;' % (
            p.name, self.target_text(s, idx), 'transport ' if mode == 'transport' else '',
            self.value_text(s, idx, xs), after, b.t, self.value_text(s, idx, ys), after)]

    def copy(self, sc):
        """Concurrent assignment of a signal name (nvc does without a process for it)."""
        r = self.r
        p = Proc(self)
        p.is_conc = True
        tg = self.target(sc, p)
        if tg is None or tg[0].kind:
            return None
        s, idx = tg
        if s.shape == 'riv3':
            return None
        n = len(idx)
        part = s.shape == 'array' and (n > 1 or n == len(s.nets)) and self.target_text(s, idx) != s.elem_name(idx[0])
        t = self.delay(p, s)
        cand = []
        for x in sc.sigs:
            if not x.readable() or x.shape == 'riv3' or t == 0 and x.order >= s.order:
                continue
            if s.shape == 'record' and n > 1:
                if x.shape == 'record':
                    cand.append((x, list(range(len(x.nets)))))
            elif part:
                if x.shape == 'array' and x.typ is s.typ and len(x.nets) >= n:
                    lo = r.randrange(len(x.nets) - n + 1)
                    xi = list(range(lo, lo + n))
                    if self.target_text(x, xi) != x.elem_name(lo):
                        cand.append((x, xi))
            else:
                for i, y in enumerate(x.types):
                    if y.base == s.types[idx[0]].base:
                        cand.append((x, [i]))
        cand = [(x, xi) for x, xi in cand
                if all(a.base == b.base for a, b in zip([x.types[i] for i in xi], [s.types[i] for i in idx]))]
        x, xi = r.choice(cand) if cand else (None, ())
        if not cand or {id(x.nets[i]) for i in xi} & {id(s.nets[i]) for i in idx}:
            for i in idx:           # no driver after all
                if self.owner.get(id(s.nets[i])) == p.name:
                    del self.owner[id(s.nets[i])]
            return None
        mode = r.choice(['inertial', 'inertial', 'transport'])
        if mode == 'inertial' and t > 0 and not self.may_reject(s, idx):
            mode = 'transport'
        rej = r.randint(1, t) if mode == 'inertial' and t > 1 and r.random() < 0.3 else None
        src, dst = [x.nets[i] for i in xi], [s.nets[i] for i in idx]

        def body(sim, pr):
            while True:
                for a, b in zip(src, dst):
                    sim.assign(pr, b, [(a.val, t)], mode, rej)
                yield (src, None, None)
        self.add_proc(p, body)
        self.features.add('signal copy')
        return ['%s : %s <= %s%s%s;' % (
            p.name, self.target_text(s, idx), 'transport ' if mode == 'transport' else
            'reject %d ns inertial ' % rej if rej else '', self.target_text(x, xi),
            ' after %d ns' % t if t or r.random() < 0.2 else '')]

    def guarded(self, sc):
        """Block with a guard and guarded assignments."""
        r = self.r
        sub = Limited(sc, None)
        sub.ivars = []
        sub.attrs = False
        sub.implicit_ok = False
        cand = [s for s in sc.sigs if s.shape == 'scalar' and s.mode is None]
        if len(cand) < 2:
            return None
        cand.sort(key=lambda s: s.order)
        lower = [s for s in sc.sigs if s.order < cand[-1].order and s.readable()]
        if not lower:
            return None
        sub.sigs = lower
        g = self.bool_expr(sub, 1)
        if not g.reads:
            return None
        name = 'b%d' % len(self.sim.implicits)
        gnet = self.sim.net('guard', 0)
        self.sim.nets.remove(gnet)
        gfn = lambda sim: 1 if g.f(Ctx(sim, None)) else 0
        self.sim.implicits.append(Implicit('guard', list(g.reads), 0, gnet, gfn))
        lines = ['%s : block (%s)' % (name, g.t), 'begin']
        done = 0
        for _ in range(r.randint(1, 2)):
            p = Proc(self)
            p.is_conc = True
            ss = [s for s in cand if s.kind is not None] or cand
            s = r.choice(ss)
            if not self.may_drive(p, s, [0]) or s.order <= max(x.order for x in lower[:1]):
                continue
            if s.types[0].res is None:
                self.owner[id(s.nets[0])] = p.name
            p.drives[s.nets[0]] = s.inits[0]
            t = r.choice([1, 1, 2, 3])
            e = self.expr(sub, s.types[0], 1)
            dt = self.disc.get(s.name, 0)
            reads = list(e.reads | {gnet})
            n = s.nets[0]
            isg = s.kind is not None

            def body(sim, pr, e=e, n=n, t=t, reads=reads, isg=isg, dt=dt):
                c = Ctx(sim, pr)
                while True:
                    if gnet.val:
                        sim.assign(pr, n, [(e.f(c), t)], 'inertial', None)
                    elif isg:
                        sim.assign(pr, n, [(None, dt)], 'transport', None)
                    yield (reads, None, None)
            self.add_proc(p, body)
            lines.append('  %s : %s <= guarded %s after %d ns;' % (p.name, s.name, e.t, t))
            done += 1
            self.features.add('guarded ' + (s.kind or 'plain'))
        lines.append('end block;')
        return lines if done else None

    # -- hierarchy -------------------------------------------------------------
    def instance(self, sc, depth):
        """An entity with ports bound to parts of the parent's signals."""
        r = self.r
        en = 'sub%d' % len(self.entities)
        self.entities.append(None)
        slot = len(self.entities) - 1
        ports, decl, pmap = [], [], []
        for k in range(r.randint(1, 4)):
            s = r.choice(sc.sigs if ports else [x for x in sc.sigs if x.readable()])
            if s.shape == 'record':
                idx = list(range(len(s.nets)))
            elif s.shape == 'array':
                kk = r.random()
                n = len(s.nets)
                if kk < 0.4:
                    idx = list(range(n))
                elif kk < 0.7 and n > 2:
                    lo = r.randrange(n - 1)
                    idx = list(range(lo, r.randrange(lo + 1, n) + 1))
                else:
                    idx = [r.randrange(n)]
            else:
                idx = list(range(len(s.nets)))
            mode = r.choice(['in', 'in', 'out', 'inout'] if ports else ['in', 'inout'])
            if mode == 'out' and s.mode == 'in' or mode == 'inout' and s.mode in ('in', 'out'):
                mode = 'in'
            if s.kind is not None or s.shape == 'riv3':
                mode = 'in'
            if mode == 'in' and s.mode == 'out':
                continue
            single = len(idx) == 1 and s.shape in ('array',)
            shape = 'scalar' if single else s.shape
            if mode != 'in':
                # The instance becomes the only owner of unresolved elements
                if any(s.types[i].res is None and id(s.nets[i]) in self.owner or any(
                        s.nets[i] in q.nets and q.mode != 'in' for q in ports) for i in idx):
                    # Also keeps the port through which a net is driven unique
                    mode = 'in'
                    if s.mode == 'out':
                        continue
            # The driver's initial value comes from the port's own default
            inits = [t.rand(r) for t in [s.types[i] for i in idx]] if r.random() < 0.5 else [s.inits[i] for i in idx]
            q = Sig('p%d' % k, s.order, shape, [s.nets[i] for i in idx], [s.types[i] for i in idx],
                    s.typ, mode, inits)
            if mode == 'in' and s.mode == 'inout':
                self.inout_in = True
            q.activity &= s.activity
            q.asc = r.random() < 0.5 if shape == 'array' else s.asc
            if shape == 'riv3':
                q.asc = True
            # Outputs must be driven inside: added below
            ports.append(q)
            decl.append('p%d : %s %s := %s' % (k, mode, q.type_vhdl(), q.init_vhdl()))
            pmap.append('p%d => %s' % (k, self.target_text(s, idx)))
        if not ports:
            self.entities.pop()
            return None
        sub = Scope(list(ports))
        pmap2 = {}
        for q in ports:
            if q.mode in ('out', 'inout'):
                for n in q.nets:
                    pn = pmap2[id(n)] = Port(n)
                    up = self.portmap[-1].get(id(n))
                    up = n.ports if up is None else up.ports
                    up.append(pn)
                    self.links.append((up, pn))
        self.portmap.append(pmap2)
        body = self.body(sub, depth - 1, r.randint(0, 2), r.randint(1, 3), 'e%d' % slot)
        # Every out/inout port element needs a driver inside
        extra = []
        for q in ports:
            if q.mode in ('out', 'inout'):
                driven = set()
                for pr in self.sim.procs[self.mark[-1]:]:
                    driven |= set(id(n) for n in pr.drv)
                todo = [i for i in range(len(q.nets)) if id(q.nets[i]) not in driven]
                if todo:
                    p = Proc(self)
                    waves = []
                    vals = [q.types[i].rand(r) for i in range(len(q.nets))]
                    for i in todo:
                        if q.types[i].res is None:
                            if id(q.nets[i]) in self.owner:
                                continue
                            self.owner[id(q.nets[i])] = p.name
                        p.drives[q.nets[i]] = q.inits[i]
                        t = r.randint(1, 9)
                        waves.append((q.nets[i], vals[i], t))
                        extra.append('%s_%d : %s <= %s after %d ns;' % (p.name, i, q.elem_name(i),
                                                                       q.types[i].lit(vals[i]), t))

                    def bodyf(sim, pr, waves=waves):
                        for n, v, t in waves:
                            sim.assign(pr, n, [(v, t)], 'inertial', None)
                        return
                        yield
                    self.add_proc(p, bodyf)
                # The port is a source whether or not it is driven
                for n in q.nets:
                    self.owner.setdefault(id(n), en)
        self.mark.pop()
        self.portmap.pop()
        decls, stmts = body
        txt = ['use work.pkg.all;']
        if self.feat['stdlogic']:
            txt = ['library ieee; use ieee.std_logic_1164.all;'] + txt
        txt += ['entity %s is' % en, '  port (' + ';\n    '.join(decl) + ');', 'end entity;',
                'architecture a of %s is' % en] + ['  ' + x for x in decls] + ['begin'] \
            + ['  ' + x for x in stmts + extra] + ['end architecture;']
        self.entities[slot] = '\n'.join(txt)
        self.elist.append(slot)
        self.features.add('hierarchy')
        return ['u%d : entity work.%s port map (%s);' % (slot, en, ', '.join(pmap))]

    def generate(self, sc):
        """for-generate with one process per index driving its own element."""
        r = self.r
        cand = [s for s in sc.sigs if s.shape == 'array' and s.mode is None
                and not any(id(n) in self.owner for n in s.nets)]
        if not cand:
            return None
        s = r.choice(cand)
        n = len(s.nets)
        src = r.choice([x for x in sc.sigs if x.readable()])
        si = r.randrange(len(src.nets))
        t = r.randint(1, 4)
        step = r.randint(0, 3)
        name = 'g%d' % self.nproc
        for k in range(n):
            p = Proc(self)
            pos = k if s.asc else n - 1 - k
            net = s.nets[pos]
            if s.types[pos].res is None:
                self.owner[id(net)] = p.name
            p.drives[net] = s.inits[pos]
            sn = src.nets[si]
            left = s.nets[(k + 1) % n if s.asc else n - 1 - (k + 1) % n]

            def body(sim, pr, net=net, sn=sn, left=left, d=t + step * k, k=k, nm=p.name):
                while True:
                    sim.assign(pr, net, [(left.val, d)], 'inertial', None)
                    sim.observe('%s.%d:%s' % (name, k, s.typ.lit(left.val)))
                    yield ([sn], None, None)
            self.add_proc(p, body)
        self.features.add('generate')
        return ['%s : for gi in 0 to %d generate' % (name, n - 1),
                '  q : process', '  begin',
                '    %s(gi) <= %s((gi + 1) mod %d) after (%d + %d * gi) * ns;' % (s.name, s.name, n, t, step),
                '    report "%s." & integer\'image(gi) & ":" & %s;' % (name, s.typ.image % (
                    '%s((gi + 1) mod %d)' % (s.name, n))),
                '    wait on %s;' % src.elem_name(si),
                '  end process;', 'end generate;']

    def body(self, sc, depth, nsig, nproc, prefix):
        r = self.r
        decls, stmts = [], []
        self.mark.append(len(self.sim.procs))
        for k in range(nsig):
            s = self.new_signal('%ss%d' % (prefix, k))
            sc.sigs.append(s)
            decls.append('signal %s : %s %s:= %s;' % (s.name, s.type_vhdl(),
                                                     s.kind + ' ' if s.kind else '', s.init_vhdl()))
            if s.kind and r.random() < 0.5:
                dt = r.randint(1, 4)
                self.disc[s.name] = dt
                decls.append('disconnect %s : %s after %d ns;' % (s.name, s.type_vhdl(), dt))
        items = []
        for _ in range(nproc):
            items.append('proc')
        if self.feat['conc']:
            items += ['conc'] * r.randint(1, 3)
        if self.feat['guard']:
            items += ['guard'] * r.randint(1, 2)
        if depth > 0 and self.feat['hier']:
            items += ['inst'] * r.randint(1, 2)
        if self.feat['generate'] and r.random() < 0.7:
            items.append('gen')
        r.shuffle(items)
        for it in items:
            num = self.count
            self.count += 1
            nproc, nimp, nlink = len(self.sim.procs), len(self.sim.implicits), len(self.links)
            owner = dict(self.owner)
            if it == 'proc':
                x = self.process(sc)
            elif it == 'conc':
                x = self.copy(sc) if self.r.random() < 0.4 else self.concurrent(sc)
            elif it == 'guard':
                x = self.guarded(sc)
            elif it == 'inst':
                x = self.instance(sc, depth)
            else:
                x = self.generate(sc)
            if x and num in self.drop:
                self.owner = owner
                for pr in self.sim.procs[nproc:]:
                    for net, d in pr.drv.items():
                        net.drivers.remove(d)
                        d.home.remove(d)
                del self.sim.procs[nproc:]
                for up, pn in self.links[nlink:]:
                    up.remove(pn)
                del self.links[nlink:]
                if it == 'guard':
                    del self.sim.implicits[nimp:]
                elif it == 'inst':
                    self.elist.pop()
            elif x:
                stmts += x
        return decls, stmts

    def build(self):
        r = self.r
        self.imp = {}
        self.delayed = []
        self.disc = {}
        self.act, self.forced, self.zerod, self.lastact = set(), set(), set(), set()
        self.pulse = set()
        self.mark = []
        self.portmap = [{}]
        self.links = []
        self.elist = []
        sc = Scope([])
        decls, stmts = self.body(sc, 2, r.randint(2, 7), r.randint(2, 5), 's')
        self.top = sc
        head = ['use work.pkg.all;']
        if self.feat['stdlogic']:
            head = ['library ieee; use ieee.std_logic_1164.all;'] + head
        txt = head + ['entity top is', 'end entity;', 'architecture a of top is'] \
            + ['  ' + x for x in decls] + ['begin'] + ['  ' + x for x in stmts] + ['end architecture;']
        ents = [self.entities[k] for k in self.elist]
        self.text = PKG + '\n'.join(ents) + ('\n' if ents else '') + '\n'.join(txt) + '\n'
        # 'delayed is a process of its own; runs after everything else starts
        for p, nets, out in self.delayed:
            for n, o in zip(nets, out):
                self.sim.driver(p, o, o.default)
            self.sim.procs.append(p)

    @property
    def late(self):
        return {p.name for p in self.sim.procs if p.postponed}

    def expected(self):
        self.sim.run(self.stop)
        return self.sim.obs


class Scope:
    def __init__(self, sigs):
        self.sigs = sigs
        self.ivars = []
        self.attrs = True
        self.events = True
        self.implicit_ok = True
        self.gi = None


class Limited:
    """Scope restricted to signals a process may wait for."""

    def __init__(self, sc, p):
        self.ivars = list(sc.ivars)
        self.attrs = sc.attrs
        self.events = sc.events
        self.implicit_ok = sc.implicit_ok
        self.gi = sc.gi
        self.sigs = [s for s in sc.sigs if p is None or p.maxsens is None or s.order <= p.maxsens] \
            or [s for s in sc.sigs if s.readable()][:1]
        if not any(s.readable() for s in self.sigs):
            self.sigs = [s for s in sc.sigs if s.readable()][:1]


class Proc:
    """Book-keeping while a process is generated."""

    def __init__(self, design):
        self.name = 'x%d' % design.nproc
        design.nproc += 1
        self.tags = 0
        self.targets = []
        self.drives = {}
        self.maxsens = None
        self.canwait = False
        self.zero_wait = True
        self.postponed = False
        self.is_conc = False
        self.loopvars = set()
        self.forcer = False
        self.nodv = False

    def new_tag(self):
        self.tags += 1
        return '%s.%d' % (self.name, self.tags)
