"""Random sequential VHDL programs together with their reference evaluation.

Every expression is generated as a pair of its VHDL text and a Python function
of the current frame; statements likewise.  Nothing here looks at nvc.
"""
import math, random, re

IMIN, IMAX = -2**31, 2**31 - 1


class VErr(Exception):
    """An error the standard requires: args[0] is its kind."""


class Vague(Exception):
    """From here on the standard leaves the outcome open."""


class Budget(Exception):
    pass


class Leave(Exception):
    def __init__(self, loop, again):
        self.loop, self.again = loop, again


class Ret(Exception):
    def __init__(self, v):
        self.v = v


# ---------------------------------------------------------------- types and values

class Ty:
    def __init__(self, name, kind, base=None, **kw):
        self.name, self.kind = name, kind
        self.base = base.base if base is not None else self
        self.bounds = None
        self.__dict__.update(kw)

    def __repr__(self):
        return self.name


class Arr:
    __slots__ = ('b', 'v')

    def __init__(self, b, v):
        self.b, self.v = b, v              # b: [(left, dir, length)]

    def n(self):
        return len(self.v)

    def low(self, k=0):
        l, d, n = self.b[k]
        return l if d > 0 else l - n + 1

    def high(self, k=0):
        l, d, n = self.b[k]
        return l + n - 1 if d > 0 else l

    def right(self, k=0):
        l, d, n = self.b[k]
        return l + d * (n - 1)

    def off(self, idx):
        o = 0
        for (l, d, n), i in zip(self.b, idx):
            k = (i - l) * d
            if k < 0 or k >= n:
                raise VErr('index')
            o = o * n + k
        return o


class Rec:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Cell:
    __slots__ = ('v', 'dead')

    def __init__(self, v):
        self.v = v
        self.dead = False


def copy(v):
    if isinstance(v, Arr):
        return Arr(list(v.b), [copy(x) for x in v.v] if v.v and isinstance(v.v[0], (Arr, Rec)) else list(v.v))
    if isinstance(v, Rec):
        return Rec([copy(x) for x in v.v])
    return v


def within(ty, v):
    """Like check, where nvc does not (see known_findings.txt)."""
    try:
        return check(ty, v)
    except VErr as e:
        if e.args == ('range',):
            raise Vague()
        raise


def check(ty, v):
    """The value as stored in an object of subtype ty."""
    if ty.kind in ('int', 'enum', 'real', 'time'):
        if not ty.lo <= v <= ty.hi:
            raise VErr('range')
        return v
    if ty.kind == 'array':
        if ty.bounds is not None:
            if [x[2] for x in v.b] != [x[2] for x in ty.bounds]:
                raise VErr('length')
            return Arr(list(ty.bounds), v.v)
        for (l, d, n), it in zip(v.b, ty.idx):
            if n and not (it.lo <= l <= it.hi and it.lo <= l + d * (n - 1) <= it.hi):
                raise VErr('range')
    return v


def default(ty):
    if ty.kind in ('int', 'enum', 'real', 'time'):
        return ty.lo
    if ty.kind == 'array':
        n = 1
        for b in ty.bounds:
            n *= b[2]
        return Arr(list(ty.bounds), [default(ty.elem) for _ in range(n)])
    if ty.kind == 'record':
        return Rec([default(t) for _, t in ty.fields])
    return None


def image(ty, v):
    k = ty.kind
    if k == 'int':
        return str(v)
    if k == 'enum':
        l = ty.base.lits[v]
        return l
    if k == 'real':
        return '%.15g' % v
    if k == 'time':
        return '%d' % v
    if k == 'array':
        if ty.base.name == 'string':
            return ''.join(chr(c or 0x2400) for c in v.v)
        return '(' + ''.join(image(ty.elem, x) + ',' for x in v.v) + ')'
    if k == 'record':
        return '[' + ''.join(image(t, x) + ';' for (_, t), x in zip(ty.fields, v.v)) + ']'
    if k == 'access':
        return 'null' if v is None else '@'
    raise Exception(k)


class Var:
    def __init__(self, name, ty, scope, cls='var', mode='in'):
        self.name, self.ty, self.scope, self.cls, self.mode = name, ty, scope, cls, mode
        self.lo, self.hi = (ty.lo, ty.hi) if ty.kind in ('int', 'enum') else (None, None)
        self.assigned = True


class Frame:
    __slots__ = ('scope', 'up', 'vals')

    def __init__(self, scope, up):
        self.scope, self.up, self.vals = scope, up, {}

    def find(self, scope):
        f = self
        while f.scope is not scope:
            f = f.up
        return f


class Scope:
    def __init__(self, parent, kind):
        self.parent, self.kind, self.vars, self.subs = parent, kind, [], []


class Ref:
    """A place: (container, key)."""
    __slots__ = ('c', 'k')

    def __init__(self, c, k):
        self.c, self.k = c, k

    def get(self):
        if isinstance(self.c, Cell):
            if self.c.dead:
                raise Vague()
            return self.c.v
        return self.c[self.k]

    def set(self, v):
        if isinstance(self.c, Cell):
            if self.c.dead:
                raise Vague()
            self.c.v = v
        else:
            self.c[self.k] = v


class SliceRef:
    __slots__ = ('a', 'o', 'l', 'd', 'n')

    def __init__(self, a, o, l, d, n):
        self.a, self.o, self.l, self.d, self.n = a, o, l, d, n

    def get(self):
        return Arr([(self.l, self.d, self.n)], self.a.v[self.o:self.o + self.n])

    def set(self, v):
        self.a.v[self.o:self.o + self.n] = v.v


class E:
    """An expression: text, value, and what is known about it."""
    __slots__ = ('ty', 't', 'f', 'n', 'wb', 'lo', 'hi', 'static')

    def __init__(self, ty, t, f, n=None, wb=False, lo=None, hi=None, static=False):
        self.ty, self.t, self.f = ty, t, f
        self.n = n            # static length
        self.wb = wb          # bounds are well defined
        self.lo, self.hi = lo, hi
        self.static = static


class S:
    def __init__(self, id, text, ex, keep=False):
        self.id, self.text, self.ex, self.keep = id, text, ex, keep


class Sub:
    pass


def lit(v):
    return str(v) if v >= 0 else '(%d)' % v


def vdiv(a, b):
    if b == 0:
        raise VErr('div')
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def vmod(a, b):
    if b == 0:
        raise VErr('div')
    return a % b


def vrem(a, b):
    if b == 0:
        raise VErr('div')
    return a - b * vdiv(a, b)


def chr_lit(c):
    return "'%s'" % chr(c) if c else 'nul'


class Prog:
    NSTEP = 4000

    def __init__(self, seed, drop=(), opts=None):
        self.r = random.Random('prog%s' % seed)
        self.opts = opts or {}
        # Favours values at the ends of ranges
        self.edge = bool(self.opts.get('edge'))
        self.drop = set(drop)
        self.subs = {}
        self.features = set()
        self.nstmt = 0
        self.nname = 0
        self.must = set()
        self.run_drop = []
        self.build()

    # ------------------------------------------------------------ helpers

    def p(self, x):
        return self.r.random() < x

    def name(self, pre):
        self.nname += 1
        return '%s%d' % (pre, self.nname)

    def feat(self, f):
        self.features.add(f)

    # ------------------------------------------------------------ types

    def build_types(self):
        r = self.r
        lo, hi = self.imin, self.imax
        self.INT = Ty('integer', 'int', lo=lo, hi=hi, blo=lo, bhi=hi)
        NAT = Ty('natural', 'int', self.INT, lo=0, hi=hi)
        POS = Ty('positive', 'int', self.INT, lo=1, hi=hi)
        self.NAT = NAT
        self.POS = POS
        self.BIG = Ty('big', 'int', lo=-2**62, hi=2**62 - 1, blo=-2**63, bhi=2**63 - 1)
        self.BOOL = Ty('boolean', 'enum', lits=['false', 'true'], lo=0, hi=1)
        self.BIT = Ty('bit', 'enum', lits=["'0'", "'1'"], lo=0, hi=1)
        self.CHAR = Ty('character', 'enum', lits=[chr_lit(c) for c in range(256)], lo=0, hi=255)
        self.REAL = Ty('real', 'real', lo=-1.7976931348623157e308, hi=1.7976931348623157e308)
        self.TIME = Ty('time', 'time', lo=-2**63, hi=2**63 - 1)
        self.STR = Ty('string', 'array', elem=self.CHAR, idx=[POS])
        self.BV = Ty('bit_vector', 'array', elem=self.BIT, idx=[NAT])
        self.BLV = Ty('boolean_vector', 'array', elem=self.BOOL, idx=[NAT])
        self.INV = Ty('integer_vector', 'array', elem=self.INT, idx=[NAT])
        decl = ['type big is range -4611686018427387904 to 4611686018427387903;']
        self.ints = [self.INT, self.INT, NAT]
        self.enums = []
        img = [self.BOOL, self.BIT, self.CHAR, self.INT, self.BIG, self.REAL, self.TIME]
        for i in range(r.randint(1, 4)):
            lo = r.choice([-100, -8, -1, 0, 0, 1, 3, -6, -300])
            hi = lo + r.choice([1, 2, 4, 5, 7, 100, 255, 30000])
            t = Ty('si%d' % i, 'int', self.INT, lo=lo, hi=hi)
            decl.append('subtype %s is integer range %d to %d;' % (t.name, lo, hi))
            self.ints.append(t)
        for i in range(r.randint(1, 2)):
            n = r.choice([2, 3, 4, 6, 9, 20])
            lits = []
            for k in range(n):
                lits.append("'%s'" % chr(ord('A') + k) if self.p(0.25) else 'e%d_%d' % (i, k))
            t = Ty('te%d' % i, 'enum', lits=lits, lo=0, hi=n - 1)
            decl.append('type %s is (%s);' % (t.name, ', '.join(lits)))
            self.enums.append(t)
            img.append(t)
            if n > 3 and self.p(0.6):
                a = r.randrange(0, n - 2)
                b = r.randrange(a + 1, n)
                s = Ty('se%d' % i, 'enum', t, lo=a, hi=b)
                decl.append('subtype %s is %s range %s to %s;' % (s.name, t.name, lits[a], lits[b]))
                self.enums.append(s)
        self.scalars = self.ints + [self.BIG] + self.enums + [self.BOOL, self.BIT, self.CHAR, self.REAL, self.TIME]
        self.arrays = [self.BV, self.STR, self.INV] + ([self.BLV] if self.p(0.3) else [])
        self.recs = []
        for i in range(r.randint(3, 6)):
            if self.p(0.35) and i:
                fs = [('f%d' % k, self.obj_ty(small=True)) for k in range(r.randint(1, 4))]
                t = Ty('tr%d' % i, 'record', fields=fs)
                decl.append('type %s is record %s end record;' % (t.name, ' '.join(
                    '%s : %s;' % (n, self.ty_text(x)) for n, x in fs)))
                self.recs.append(t)
            else:
                e = self.obj_ty(small=True)
                k = r.random()
                if k < 0.2:
                    it = r.choice(self.enums)
                    b = [(it.lo, 1, it.hi - it.lo + 1)]
                    t = Ty('ta%d' % i, 'array', elem=e, idx=[it], bounds=b)
                    decl.append('type %s is array (%s) of %s;' % (t.name, it.name, self.ty_text(e)))
                    self.feat('array indexed by enumeration')
                elif k < 0.4:
                    t = Ty('ta%d' % i, 'array', elem=e, idx=[r.choice([NAT, self.INT]), r.choice([POS, self.INT])])
                    decl.append('type %s is array (%s range <>, %s range <>) of %s;'
                                % (t.name, t.idx[0], t.idx[1], self.ty_text(e)))
                    self.feat('two-dimensional array')
                else:
                    t = Ty('ta%d' % i, 'array', elem=e, idx=[r.choice([NAT, POS, self.INT])])
                    decl.append('type %s is array (%s range <>) of %s;' % (t.name, t.idx[0], self.ty_text(e)))
                self.arrays.append(t)
                if t.bounds:
                    # The base type is anonymous: treat it as a type of its own
                    pass
            img.append(t)
        self.accs = []
        for i in range(r.randint(0, 3)):
            k = r.random()
            if k < 0.4:
                # a linked list
                e = r.choice(self.ints + self.enums)
                node = Ty('tn%d' % i, 'record', fields=None)
                ap = Ty('tp%d' % i, 'access', target=node, link=True)
                node.fields = [('val', e), ('nxt', ap)]
                decl += ['type tn%d;' % i, 'type tp%d is access tn%d;' % (i, i),
                         'type tn%d is record val : %s; nxt : tp%d; end record;' % (i, e.name, i)]
            else:
                t = r.choice([self.STR, self.INV, self.BV] + [a for a in self.arrays if len(a.idx) == 1]
                             + self.ints + self.recs)
                ap = Ty('tp%d' % i, 'access', target=t, link=False)
                decl.append('type %s is access %s;' % (ap.name, self.ty_text(t)))
            self.accs.append(ap)
            img.append(ap)
        self.tdecl, self.imgs = decl, img + self.arrays_img()

    def arrays_img(self):
        return [t for t in (self.BV, self.INV, self.BLV) if t in self.arrays]

    def arr_sub(self, t, lens=(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 33)):
        """A constrained subtype of an unconstrained array type."""
        bs, txt = [], []
        for it in t.idx:
            n = self.r.choice(lens if len(t.idx) == 1 else (1, 2, 3, 4))
            if n == 0 and self.p(0.7):
                n = 3
            d = self.r.choice([1, 1, -1])
            lo = max(it.lo, self.r.choice([0, 1, 1, 0, 2, 5, 10, -3, -10]))
            l = lo if d > 0 else lo + n - 1
            if n == 0:
                l = max(it.lo, 1) + 1 if d > 0 else max(it.lo, 1)
            bs.append((l, d, n))
            txt.append('%d %s %d' % (l, 'to' if d > 0 else 'downto', l + d * (n - 1)))
        s = Ty('%s(%s)' % (t.name, ', '.join(txt)), 'array', t, elem=t.elem, idx=t.idx)
        s.bounds = bs
        return s

    def ty_text(self, t):
        return t.name

    def obj_ty(self, small=False):
        """A subtype an object can have."""
        r = self.r
        k = r.random()
        if k < (0.75 if small else 0.5):
            return r.choice(self.scalars + self.ints)
        if k < 0.9 or not self.recs:
            t = r.choice(self.arrays)
            if small and t.elem.kind in ('array', 'record'):
                return r.choice(self.ints)
            return t if t.bounds else self.arr_sub(t, (1, 2, 3, 4, 8) if small else (0, 1, 2, 3, 4, 5, 7, 8, 16, 17))
        t = r.choice(self.recs)
        return t

    # ------------------------------------------------------------ names

    def visible(self):
        """Objects that may be read here."""
        out = list(self.loopv)
        sc = self.scope
        own = True
        while sc is not None:
            out += [v for v in sc.vars if v.cls == 'const' or own]
            if sc.kind == 'sub' and sc.sub.pure:
                own = False
            sc = sc.parent
        return out

    def selects(self, ty):
        """One random step into a composite: (ty, text, fn(ref)->ref)."""
        r = self.r
        if ty.kind == 'record':
            k = r.randrange(len(ty.fields))
            n, t = ty.fields[k]
            return t, '.' + n, lambda fr, ref: Ref(ref.get().v, k)
        if ty.kind == 'access':
            def deref(fr, ref):
                c = ref.get()
                if c is None:
                    raise VErr('null')
                if c.dead:
                    raise Vague()
                return Ref(c, None)
            return ty.target, '.all', deref
        cur = self.cur
        idx = [self.index(ty, k, cur) for k in range(len(ty.idx))]

        def elem(fr, ref):
            a = ref.get()
            return Ref(a.v, a.off([e.f(fr) for e in idx]))
        return ty.elem, '(%s)' % ', '.join(e.t for e in idx), elem

    def index(self, ty, k, cur):
        """An index for dimension k of the array cur = (text, ref) of type ty."""
        self.nest += 1
        try:
            return self.index1(ty, k, cur)
        finally:
            self.nest -= 1

    def index1(self, ty, k, cur):
        d = 1 if self.nest < 2 else 0
        it = ty.idx[k]
        if ty.bounds:
            l, d, n = ty.bounds[k]
            lo, hi = min(l, l + d * (n - 1)), max(l, l + d * (n - 1))
            if n == 0:
                lo = hi = l
            if it.kind == 'enum':
                return self.enum(it, d, lo, hi)
            if self.p(0.03):
                self.feat('unsafe index')
                e = self.unsafe(self.INT)
                if e is not None:
                    return e
            return self.int(self.INT, d, lo, hi)
        a = '%s' % (k + 1) if len(ty.idx) > 1 else ''
        a = '(%s)' % a if a else ''
        if it.kind == 'enum':
            return self.enum(it, d)
        for v in self.loopv:
            if getattr(v, 'over', None) == (cur[0], k) and self.p(0.7):
                return E(self.INT, v.name, lambda fr, v=v: fr.find(v.scope).vals[v])
        q = self.r.random()
        if q < 0.6:
            e = self.int(self.INT, d, 0, 30)
            return E(self.INT, "%s'low%s + (%s mod %s'length%s)" % (cur[0], a, e.t, cur[0], a),
                     lambda fr: self.ov(self.INT, cur[1](fr).get().low(k) + vmod(e.f(fr), cur[1](fr).get().b[k][2])))
        if q < 0.75:
            return E(self.INT, "%s'left%s" % (cur[0], a), lambda fr: cur[1](fr).get().b[k][0])
        if q < 0.9:
            return E(self.INT, "%s'high%s" % (cur[0], a), lambda fr: cur[1](fr).get().high(k))
        return self.unsafe(self.INT) or E(self.INT, "%s'right%s" % (cur[0], a), lambda fr: cur[1](fr).get().right(k))

    def path(self, want, write=False, tries=10, deref=True, flat=False):
        """A name denoting an object whose type satisfies want, or None: (ty, text, ref)."""
        vs = self.visible()
        if write:
            vs = [v for v in vs if v.cls == 'var' and v.mode != 'in' and self.writable(v)]
        for _ in range(tries):
            if not vs:
                return None
            v = self.r.choice(vs)
            if write is False and not v.assigned:
                continue
            if any(v is x for x in self.avoid):
                continue
            ty, txt = v.ty, v.name
            if v.cls == 'loop':
                steps = []
            else:
                steps = []

            def ref(fr, v=v):
                return Ref(fr.find(v.scope).vals, v)
            for depth in range(4):
                if want(ty) and (self.p(0.7) or ty.kind in ('int', 'enum', 'real', 'time')):
                    return ty, txt, ref
                if ty.kind not in ('array', 'record', 'access') or flat:
                    break
                if ty.kind == 'access' and (not deref or ty.link and depth > 1):
                    break
                if ty.kind == 'array' and ty.bounds and any(b[2] == 0 for b in ty.bounds):
                    break
                self.cur = (txt, ref)
                t2, tx, fn = self.selects(ty)
                if ty.kind == 'access':
                    self.feat('dereference')

                def ref2(fr, ref=ref, fn=fn):
                    return fn(fr, ref(fr))
                ty, ref = t2, ref2
                if txt.endswith('.all') and tx.startswith('('):
                    txt = txt[:-4] + tx if self.p(0.4) else txt + tx
                elif txt.endswith('.all') and tx.startswith('.') and self.p(0.4):
                    txt = txt[:-4] + tx
                else:
                    txt += tx
            if want(ty):
                return ty, txt, ref
        return None

    def writable(self, v):
        """The current subprogram may assign v."""
        sc = self.scope
        while sc is not v.scope:
            if sc.kind == 'sub' and (sc.sub.pure or not sc.sub.writes_up):
                return False
            sc = sc.parent
            if sc is None:
                return False
        return True

    # ------------------------------------------------------------ integers

    def ov(self, ty, v):
        b = ty.base
        if not -2**63 <= v <= 2**63 - 1:
            raise Vague('wrap')      # known finding; physical arithmetic is not checked at all
        if b is self.INT:
            if not self.imin <= v <= self.imax:
                raise VErr('overflow')
        elif not b.lo <= v <= b.hi:
            raise Vague()
        return v

    def narrow(self, v):
        if not self.imin <= v <= self.imax:
            raise Vague('wrap')      # known finding
        return v

    def vabs(self, v):
        if v == self.imin:
            raise Vague('wrap')      # known finding
        return abs(v)

    def fit(self, e, lo, hi):
        """Brings an integer expression into a range."""
        if e.lo is not None and lo <= e.lo and e.hi <= hi:
            return e
        n = hi - lo + 1
        ty = e.ty
        if lo == 0:
            return E(ty, '(%s mod %d)' % (e.t, n), lambda fr: e.f(fr) % n, lo=0, hi=hi)
        if n > 2**31 - 1 or n <= 0:
            return e
        return E(ty, '(%s + (%s mod %d))' % (lit(lo), e.t, n), lambda fr: lo + e.f(fr) % n, lo=lo, hi=hi)

    def scalar_path(self, ty, lo=None, hi=None):
        def want(t):
            return t.base is ty.base and (lo is None or lo <= t.lo and t.hi <= hi)
        if lo is not None:
            vs = [v for v in self.loopv if v.ty.base is ty.base and lo <= v.lo and v.hi <= hi]
            if vs and self.p(0.5):
                v = self.r.choice(vs)
                return E(ty.base, v.name, lambda fr: fr.find(v.scope).vals[v], lo=v.lo, hi=v.hi)
        x = self.path(want, tries=8, flat=self.nest > 0)
        if x is None:
            return None
        t, txt, ref = x
        return E(ty.base, txt, lambda fr: ref(fr).get(), lo=t.lo if t.kind != 'real' else None,
                 hi=t.hi if t.kind != 'real' else None)

    def int(self, ty, d, lo=None, hi=None):
        """An integer expression of ty's base type, usually within lo..hi."""
        r = self.r
        b = ty.base
        if lo is not None and self.p(0.02):
            e = self.unsafe(b)
            if e is not None:
                return e
        e = self.int1(b, d, lo, hi)
        if lo is not None:
            e = self.fit(e, lo, hi)
        return e

    def unsafe(self, b):
        """A variable of any value: nothing a compiler could reject."""
        vs = [v for v in self.visible() if v.cls == 'var' and v.ty.base is b and v.ty.kind in ('int', 'enum')
              and not any(v is x for x in self.avoid)]
        if not vs:
            return None
        v = self.r.choice(vs)
        k = self.r.choice([0, 0, 1, -1, 2]) if b.kind == 'int' else 0
        self.feat('unchecked value')
        return E(b, v.name if not k else '(%s %s %d)' % (v.name, '+' if k > 0 else '-', abs(k)),
                 lambda fr: self.ov(b, fr.find(v.scope).vals[v] + k), lo=v.lo + min(k, 0), hi=v.hi + max(k, 0))

    def ilit(self, b, lo, hi):
        r = self.r
        if lo is None:
            v = r.choice([0, 1, 2, 3, 7, 10, -1, -5, 100, 255, 1000, r.randint(-50, 50)])
            if self.p(0.04):
                v = r.choice([IMAX, self.imin + 1, self.imax // 2, self.imax, IMIN, 65536, 46341, -46341])
            if b is self.BIG and self.p(0.2):
                v = r.choice([2**31, 2**32 + 1, -2**31 - 1, 2**40, 2**61, 3037000500])
        else:
            v = r.choice([lo, hi, r.randint(lo, hi)])
        return E(b, lit(v), lambda fr: v, lo=v, hi=v, static=True)

    def int1(self, b, d, lo, hi):
        r = self.r
        k = r.random()
        if d > 0 and b is self.INT and self.p(0.4 if self.edge else 0.08):
            x = self.interval()
            q = r.random()
            if x is not None and q < 0.75:
                m = r.choice([2, 3, 4, 5, 7, -3, 10])
                if q < 0.5:
                    return E(b, '(%s mod %s)' % (x[0], lit(m)), lambda fr: vmod(x[1](fr), m), lo=min(m, 0), hi=max(m, 0))
                if q < 0.58:
                    return E(b, '(%s rem %s)' % (x[0], lit(m)), lambda fr: vrem(x[1](fr), m), lo=-abs(m), hi=abs(m))
                if q < 0.65:
                    return E(b, '(%s / %s)' % (x[0], lit(m)), lambda fr: vdiv(x[1](fr), m))
                s = r.choice([t for t in self.ints if t is not self.INT])
                return E(b, "%s'(%s)" % (s.name, x[0]), lambda fr: check(s, x[1](fr)), lo=s.lo, hi=s.hi)
            if x is not None:
                return E(b, x[0], x[1])
        if d <= 0 or k < 0.3:
            if self.p(0.75):
                e = self.scalar_path(b, lo, hi) if lo is not None and self.p(0.5) else self.scalar_path(b)
                if e is not None:
                    return e
            return self.ilit(b, lo, hi)
        if k < 0.62:
            op = r.choice(['+', '+', '-', '-', '*', '/', 'mod', 'rem', '**'])
            if self.edge and self.p(0.2):
                op = '**'
            x = self.int(b, d - 1)
            if op == '**':
                y = self.int(self.INT, 0, 0, 3)
                x = self.fit(x, -20, 20) if self.p(0.9) else x
                if y.lo is None or y.lo < 0:
                    y = self.fit(y, 0, 3)
                if self.p(0.6 if self.edge else 0.08):
                    x = self.ilit(self.INT, -3, 16) if self.p(0.5) else self.fit(x, 0, 100000)
                    y = self.fit(self.int(self.INT, d - 1), 0, r.choice([8, 40, 100]))
                    self.feat('large powers')
                    if b is not self.INT:
                        return self.ilit(b, lo, hi)
                return E(b, '(%s ** %s)' % (x.t, y.t), lambda fr: self.ov(b, self.pw(x.f(fr), y.f(fr))))
            y = self.int(b, d - 1)
            if op in ('/', 'mod', 'rem') and self.p(0.85):
                y = self.ilit(b, 1, 40) if self.p(0.6) else self.fit(y, 1, 9)
            elif op in ('/', 'mod', 'rem') and y.static:
                y = self.ilit(b, 1, 40)
            if op == '*' and self.p(0.7):
                x = self.fit(x, -300, 300) if not x.static else x
                y = self.fit(y, -300, 300) if not y.static else y
            fn = {'+': lambda p, q: p + q, '-': lambda p, q: p - q, '*': lambda p, q: p * q,
                  '/': vdiv, 'mod': vmod, 'rem': vrem}[op]
            if x.static and y.static and not -2**31 <= fn(x.f(None), y.f(None)) <= 2**31 - 1:
                return self.ilit(b, lo, hi)

            def f(fr):
                p, q = x.f(fr), y.f(fr)
                return self.ov(b, fn(p, q))
            return E(b, '(%s %s %s)' % (x.t, op, y.t), f)
        if k < 0.7:
            x = self.int(b, d - 1)
            if self.p(0.5):
                return E(b, '(abs %s)' % x.t, lambda fr: self.ov(b, self.vabs(x.f(fr))))
            return E(b, '(-%s)' % x.t, lambda fr: self.ov(b, -x.f(fr)))
        if k < 0.76:
            e = self.call(lambda t: t.base is b, d)
            if e is not None:
                return e
        if k < 0.84:
            e = self.attr(b)
            if e is not None:
                return e
        if k < 0.9:
            return self.conv(b, d)
        if k < 0.94:
            x, y = self.int(b, d - 1), self.int(b, d - 1)
            mx = self.p(0.5)
            self.feat('minimum and maximum')
            return E(b, "%s'(%s(%s, %s))" % (b.name, 'maximum' if mx else 'minimum', x.t, y.t),
                     lambda fr: (max if mx else min)(x.f(fr), y.f(fr)))
        if k < 0.97:
            s = r.choice([t for t in self.ints if t.base is b] or [b])
            x = self.int(b, d - 1, max(s.lo, -1000), min(s.hi, 1000))
            q = r.choice(['succ', 'pred', 'pos', 'val', 'leftof', 'rightof'])
            dd = {'succ': 1, 'pred': -1, 'pos': 0, 'val': 0, 'leftof': -1, 'rightof': 1}[q]
            if b is self.BIG and q == 'pos':
                q, dd = 'succ', 1

            def f(fr):
                # S'succ of a subtype is that of its base type
                v = x.f(fr)
                if q == 'val' and not s.lo <= v <= s.hi:
                    raise Vague()
                if not s.lo <= v <= s.hi:
                    raise Vague()
                if q in ('pos',):
                    return v
                if not b.lo <= v + dd <= b.hi:
                    raise VErr('range')
                if q in ('leftof', 'rightof', 'succ', 'pred') and not s.lo <= v + dd <= s.hi:
                    raise Vague()
                return v + dd
            return E(b, "%s'%s(%s)" % (s.name, q, x.t), f)
        return self.ilit(b, lo, hi)

    def pw(self, x, y):
        if y < 0:
            raise VErr('exponent')
        if abs(x) > 1 and y > 200:
            return 2**70
        return x ** y

    def conv(self, b, d):
        r = self.r
        if b is self.INT:
            k = r.random()
            if k < 0.35:
                x = self.int(self.BIG, d - 1)
                if self.p(0.9):
                    x = self.fit(x, -1000000, 1000000)
                return E(b, 'integer(%s)' % x.t, lambda fr: check(self.INT, x.f(fr)), lo=x.lo, hi=x.hi)
            if k < 0.6:
                x = self.real(d - 1)

                def f(fr):
                    v = x.f(fr)
                    if abs(v) > 2e9:
                        raise Vague()
                    if abs(v - math.floor(v) - 0.5) < 1e-9:
                        raise Vague()
                    return int(math.floor(v + 0.5))
                return E(b, 'integer(%s)' % x.t, f)
            if k < 0.8:
                t = r.choice(self.enums + [self.BOOL, self.BIT, self.CHAR])
                x = self.enum(t, d - 1)
                return E(b, "%s'pos(%s)" % (t.base.name, x.t), lambda fr: x.f(fr), lo=0, hi=t.base.hi)
            if k < 0.9:
                x = self.time(d - 1)
                return E(b, "integer'(%s / 1 ns)" % x.t, lambda fr: self.narrow(vdiv(x.f(fr), 1000000)))
            x = self.int(self.INT, d - 1)
            return E(b, "integer'value(integer'image(%s))" % x.t, lambda fr: x.f(fr))
        x = self.int(self.INT, d - 1)
        return E(b, '%s(%s)' % (b.name, x.t), lambda fr: check(b, x.f(fr)), lo=max(self.imin, b.lo), hi=min(self.imax, b.hi))

    def attr(self, b):
        if b is not self.INT:
            return None
        x = self.path(lambda t: t.kind == 'array', deref=False)
        if x is None:
            return None
        ty, txt, ref = x
        k = self.r.randrange(len(ty.idx))
        a = '(%d)' % (k + 1) if len(ty.idx) > 1 or self.p(0.1) else ''
        q = self.r.choice(['length', 'length', 'left', 'right', 'low', 'high'])
        if q != 'length' and ty.idx[k].kind != 'int':
            q = 'length'
        self.feat('array attributes')

        def f(fr):
            try:
                v = ref(fr).get()
            except VErr:
                raise Vague()      # need not be evaluated when the bounds are known
            if q == 'length':
                return v.b[k][2]
            return {'left': v.b[k][0], 'right': v.right(k), 'low': v.low(k), 'high': v.high(k)}[q]
        lo = hi = None
        if ty.bounds and q == 'length':
            lo = hi = ty.bounds[k][2]
        return E(b, "%s'%s%s" % (txt, q, a), f, lo=lo, hi=hi, static=False)

    # ------------------------------------------------------------ other scalars

    def enum(self, ty, d, lo=None, hi=None):
        r = self.r
        b = ty.base
        if b is self.BOOL and lo is None and d > 0:
            return self.bool(d)
        k = r.random()
        if d <= 0 or k < 0.5:
            if self.p(0.7):
                e = self.scalar_path(b, lo, hi)
                if e is not None:
                    return e
            return self.elit(b, lo, hi)
        if k < 0.65:
            n0 = lo if lo is not None else 0
            n1 = hi if hi is not None else b.hi
            if b is self.CHAR:
                n0, n1 = 65, 90
            e = self.int(self.INT, d - 1, n0, n1)
            if self.p(0.95) and (e.lo is None or e.lo < n0 or e.hi > n1):
                e = self.fit(e, n0, n1)
            return E(b, "%s'val(%s)" % (b.name, e.t), lambda fr: check(b, e.f(fr)), lo=n0, hi=n1)
        if k < 0.75 and b is not self.CHAR and b.hi > 1:
            x = self.elit(b, 0, b.hi - 1) if self.p(0.5) else self.enum(b, d - 1, 0, b.hi - 1)
            e = E(b, "%s'%s(%s)" % (b.name, r.choice(['succ', 'rightof']), x.t), lambda fr: check(b, x.f(fr) + 1))
            if x.static:
                e = E(b, e.t, e.f)
            if lo is None:
                return e
        if k < 0.85:
            e = self.call(lambda t: t.base is b and (lo is None or lo <= t.lo and t.hi <= hi), d)
            if e is not None:
                return e
        if k < 0.92 and b is self.BIT:
            x, y = self.enum(b, d - 1), self.enum(b, d - 1)
            return self.logic2(b, x, y)
        if k < 0.95 and lo is None and b is not self.CHAR:
            x = self.enum(b, d - 1)
            self.feat("'value of 'image")
            return E(b, "%s'value(%s'image(%s))" % (b.name, b.name, x.t), x.f)
        return self.elit(b, lo, hi)

    def elit(self, b, lo=None, hi=None):
        if b is self.CHAR and lo is None:
            lo, hi = 65, 90
        v = self.r.randint(lo if lo is not None else 0, hi if hi is not None else b.hi)
        return E(b, b.lits[v], lambda fr: v, lo=v, hi=v, static=True)

    def logic2(self, b, x, y, op=None):
        op = op or self.r.choice(['and', 'or', 'xor', 'nand', 'nor', 'xnor'])

        def f(fr):
            p = x.f(fr)
            if op in ('and', 'nand') and p == 0:      # short-circuit
                return 0 if op == 'and' else 1
            if op in ('or', 'nor') and p == 1:
                return 1 if op == 'or' else 0
            q = y.f(fr)
            if op in ('and', 'nand'):
                q = p & q
            elif op in ('or', 'nor'):
                q = p | q
            else:
                q = p ^ q
            return 1 - q if op in ('nand', 'nor', 'xnor') else q
        return E(b, '(%s %s %s)' % (x.t, op, y.t), f)

    def leaf(self):
        """(text, function, lowest, highest) of a value of a narrow range."""
        r = self.r
        if self.p(0.25):
            c = r.choice([0, 1, -1, 2, 3, -4, 7, 10])
            return lit(c), lambda fr: c, c, c
        vs = [v for v in self.visible() if v.cls in ('var', 'loop') and v.ty.base is self.INT and v.ty.kind == 'int'
              and (v.cls == 'loop' and v.lo > -2000 and v.hi < 2000 or v.cls == 'var' and v.ty.hi - v.ty.lo < 2000)
              and not any(v is x for x in self.avoid)]
        if not vs:
            return None
        if self.edge and self.p(0.5):
            vs = [v for v in vs if v.lo < 0] or vs
        if self.edge and self.p(0.4):
            vs = [v for v in vs if v.cls == 'loop'] or vs
        v = r.choice(vs)
        return v.name, lambda fr: fr.find(v.scope).vals[v], v.lo, v.hi

    def tree(self, d):
        """(text, function of a frame, function of a list of leaf values, [ranges of the leaves])"""
        r = self.r
        if d <= 0 or self.p(0.15):
            x = self.leaf()
            return x and (x[0], x[1], lambda l: l.pop(), [(x[2], x[3])])
        op = r.choice(['+', '-', '*', '*', '/', 'mod', 'rem', 'neg', 'abs', '**', '-'])
        x = self.tree(d - 1)
        if x is None:
            return None
        ov = lambda v: self.ov(self.INT, v)
        if op in ('neg', 'abs'):
            fn = (lambda a: -a) if op == 'neg' else self.vabs
            return ('(-%s)' if op == 'neg' else '(abs %s)') % x[0], lambda fr: ov(fn(x[1](fr))), \
                lambda l: fn(x[2](l)), x[3]
        if op == '**':
            k = r.choice([1, 2, 2, 3])
            return '(%s ** %d)' % (x[0], k), lambda fr: ov(x[1](fr) ** k), lambda l: x[2](l) ** k, x[3]
        y = None
        for _ in range(4):
            if op in ('/', 'mod', 'rem'):
                y = self.leaf()
                y = y and (y[0], y[1], lambda l: l.pop(), [(y[2], y[3])])
                if y and y[3][0][0] <= 0 <= y[3][0][1]:
                    y = None
            else:
                y = self.tree(d - 1)
            if y is not None:
                break
        if y is None:
            return x
        fn = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b,
              '/': vdiv, 'mod': vmod, 'rem': vrem}[op]

        def f(fr):
            a, b = x[1](fr), y[1](fr)
            if b == 0 and op in ('/', 'mod', 'rem'):
                raise VErr('div')
            return ov(fn(a, b))

        def g(l):
            b = y[2](l)
            return fn(x[2](l), b)
        return '(%s %s %s)' % (x[0], op, y[0]), f, g, x[3] + y[3]

    def interval(self):
        """A computation whose value is compared with, or divided at, an end of its range."""
        r = self.r
        x = self.tree(r.choice([1, 2, 2, 3]))
        if x is None:
            return None
        try:
            c = x[2]([r.choice([lo, hi]) if self.p(0.8) else r.randint(lo, hi) for lo, hi in x[3]])
        except ZeroDivisionError:
            return None
        c += r.choice([0, 0, 0, 1, -1])
        if abs(c) > 2**30 or c and self.p(0.1):
            c = 0
        self.feat('interval')
        x = (x[0] if re.search(r'[a-z]\d', x[0]) else "integer'(%s)" % x[0]), x[1]
        if c == 0:
            return x[0], x[1]
        if self.p(0.3):
            return '(%s - %s)' % (lit(c), x[0]), lambda fr: self.ov(self.INT, c - x[1](fr))
        return '(%s %s %d)' % (x[0], '-' if c > 0 else '+', abs(c)), lambda fr: self.ov(self.INT, x[1](fr) - c)

    def guarded(self):
        """A condition that must hold before the next operand may be evaluated."""
        r = self.r
        vs = [v for v in self.visible() if v.cls == 'var' and v.ty.base is self.INT and v.ty.kind == 'int'
              and not any(v is x for x in self.avoid)]
        if not vs:
            return None
        v = r.choice(vs)
        B = self.BOOL
        self.feat('guarded operand')

        def val(fr):
            return fr.find(v.scope).vals[v]

        def cmp(txt, fn, op, c):
            rel = {'<': lambda p: p < c, '>': lambda p: p > c, '=': lambda p: p == c, '/=': lambda p: p != c,
                   '<=': lambda p: p <= c, '>=': lambda p: p >= c}[op]
            return E(B, '(%s %s %s)' % (txt, op, lit(c)), lambda fr: int(rel(fn(fr))))
        how = r.choice(['conv', 'qual', 'add', 'mul', 'div', 'pow', 'neg', 'conv', 'add'])
        c = r.choice([0, 1, -1, 3, 5, 100])
        rop = r.choice(['<', '>', '=', '/=', '<=', '>='])
        if how in ('conv', 'qual'):
            ss = [t for t in self.ints if t.base is self.INT and t is not self.INT]
            if not ss:
                return None
            s = r.choice(ss)
            risky = cmp(("%s(%s)" if how == 'conv' else "%s'(%s)") % (s.name, v.name),
                        lambda fr: check(s, val(fr)), rop, c)
            lo, hi = s.lo, s.hi
        elif how == 'add':
            k = r.choice([self.imax, self.imax - 5, 5, 1, 1000000, self.imax // 2])
            sub = self.p(0.4)
            risky = cmp('(%s %s %d)' % (v.name, '-' if sub else '+', k),
                        lambda fr: self.ov(self.INT, val(fr) - k if sub else val(fr) + k), rop, c)
            lo, hi = (self.imin + k, self.imax) if sub else (self.imin, self.imax - k)
        elif how == 'mul':
            k = r.choice([2, 3, 100, 65536, 46341])
            risky = cmp('(%s * %d)' % (v.name, k), lambda fr: self.ov(self.INT, val(fr) * k), rop, c)
            lo, hi = -(-self.imin // k) + 1, self.imax // k
        elif how == 'div':
            k = r.choice([100, -7, 1000000])
            op = r.choice(['/', 'mod', 'rem'])
            fn = {'/': vdiv, 'mod': vmod, 'rem': vrem}[op]
            risky = cmp('(%s %s %s)' % (lit(k), op, v.name), lambda fr: fn(k, val(fr)), rop, c)
            lo, hi = 1, 1000
        elif how == 'pow':
            k = r.choice([2, 3, 10, -2])
            risky = cmp('(%s ** %s)' % (lit(k), v.name), lambda fr: self.ov(self.INT, self.pw(k, val(fr))), rop, c)
            lo, hi = 0, 8
        else:
            risky = cmp('(-%s)' % v.name, lambda fr: self.ov(self.INT, -val(fr)), rop, c)
            lo, hi = self.imin + 1, self.imax
        if self.p(0.05):
            lo, hi = r.choice([(0, hi), (lo, 100), (lo, hi)])
        e = risky
        lo = max(lo, self.imin + 1)
        for op, c1, on in (('<=', hi, hi < self.imax), ('>=', lo, lo > self.imin + 1)):
            if not on and self.p(0.7):
                continue
            if self.p(0.6):
                e = self.logic2(B, cmp(v.name, val, op, c1), e, r.choice(['and', 'and', 'nand']))
            else:
                e = self.logic2(B, cmp(v.name, val, {'<=': '>', '>=': '<'}[op], c1), e, r.choice(['or', 'or', 'nor']))
        return e

    def bool(self, d):
        r = self.r
        k = r.random()
        B = self.BOOL
        if d > 0 and self.p(0.25 if self.edge else 0.12):
            e = self.guarded()
            if e is not None:
                return e
        if d > 0 and self.p(0.4 if self.edge else 0.06):
            x = self.interval()
            if x is not None:
                c, rop = r.choice([0, 0, 0, 1, -1]), r.choice(['<', '>', '=', '/=', '<=', '>='])
                fn = {'<': lambda p: p < c, '>': lambda p: p > c, '=': lambda p: p == c, '/=': lambda p: p != c,
                      '<=': lambda p: p <= c, '>=': lambda p: p >= c}[rop]
                return E(B, '(%s %s %s)' % (x[0], rop, lit(c)), lambda fr: int(fn(x[1](fr))))
        if d <= 0 or k < 0.12:
            e = self.scalar_path(B)
            return e if e is not None and self.p(0.8) else self.elit(B)
        if k < 0.5:
            t = r.choice([self.INT] * 3 + self.scalars)
            op = r.choice(['=', '/=', '<', '<=', '>', '>='])
            x, y = self.scalar(t, d - 1), self.scalar(t, d - 1)
            fn = {'=': lambda p, q: p == q, '/=': lambda p, q: p != q, '<': lambda p, q: p < q,
                  '<=': lambda p, q: p <= q, '>': lambda p, q: p > q, '>=': lambda p, q: p >= q}[op]
            xt = self.qual(t, x)
            return E(B, '(%s %s %s)' % (xt, op, y.t), lambda fr: int(fn(x.f(fr), y.f(fr))))
        if k < 0.7:
            return self.logic2(B, self.bool(d - 1), self.bool(d - 1))
        if k < 0.78:
            x = self.bool(d - 1)
            return E(B, '(not %s)' % x.t, lambda fr: 1 - x.f(fr))
        if k < 0.92:
            cand = [a for a in self.arrays if a.elem.kind != 'access']
            t = r.choice(cand)
            x, y = self.arr_any(t, d - 1), self.arr_any(t, d - 1)
            if x is None or y is None:
                return self.elit(B)
            disc = len(t.idx) == 1 and t.elem.kind in ('int', 'enum')
            op = r.choice(['=', '/='] + (['<', '<=', '>', '>='] if disc else []))
            self.feat('array comparison')

            def f(fr):
                p, q = x.f(fr), y.f(fr)
                if op in ('=', '/='):
                    if len(p.b) > 1 and [z[2] for z in p.b] != [z[2] for z in q.b]:
                        e = False
                    else:
                        e = self.eq(p, q)
                    return int(e == (op == '='))
                return int({'<': p.v < q.v, '<=': p.v <= q.v, '>': p.v > q.v, '>=': p.v >= q.v}[op])
            return E(B, '(%s %s %s)' % (self.qual(t, x), op, self.qual(t, y)), f)
        if k < 0.96 and self.recs:
            t = r.choice(self.recs)
            x, y = self.rec(t, d - 1), self.rec(t, d - 1)
            self.feat('record comparison')
            ne = self.p(0.4)
            return E(B, '(%s %s %s)' % (self.qual(t, x), '/=' if ne else '=', y.t),
                     lambda fr: int(self.eq(x.f(fr), y.f(fr)) != ne))
        if self.accs:
            t = r.choice(self.accs)
            x = self.path(lambda u: u is t, deref=False)
            if x is not None:
                eq = self.p(0.5)
                return E(B, '(%s %s null)' % (x[1], '=' if eq else '/='),
                         lambda fr: int((x[2](fr).get() is None) == eq))
        e = self.call(lambda t: t.base is B, d)
        return e or self.elit(B)

    def eq(self, p, q):
        if isinstance(p, Arr):
            return len(p.v) == len(q.v) and all(self.eq(x, y) for x, y in zip(p.v, q.v))
        if isinstance(p, Rec):
            return all(self.eq(x, y) for x, y in zip(p.v, q.v))
        return p == q

    def qual(self, t, x):
        """Text that leaves no doubt about the type."""
        if t.kind != 'access':
            n = t.base.name if t.kind != 'array' else t.name
            if t.kind == 'array' and t.bounds and '(' in t.name:
                n = t.base.name
            return "%s'%s" % (n, x.t if x.t.startswith('(') and x.t.endswith(')') and self.balanced(x.t)
                              else '(' + x.t + ')')
        return x.t

    def balanced(self, t):
        d = 0
        q = False
        for i, c in enumerate(t):
            if c == '"':
                q = not q
            if q:
                continue
            if c == "'" and i + 2 < len(t) and t[i + 2] == "'":
                return False
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
                if d == 0 and i < len(t) - 1:
                    return False
        return True

    def real(self, d):
        r = self.r
        R = self.REAL
        k = r.random()
        if d <= 0 or k < 0.4:
            e = self.scalar_path(R)
            if e is not None and self.p(0.7):
                return e
            v = r.choice([0.0, 1.0, 0.5, 2.25, 3.14159, 1.0e3, 0.1, 7.0, 1.0e-3])
            return E(R, repr(v) if v != 1e-3 else '1.0e-3', lambda fr: v)
        if k < 0.7:
            op = r.choice('++-*/')
            x, y = self.real(d - 1), self.real(d - 1)

            def f(fr):
                p, q = x.f(fr), y.f(fr)
                if op == '/':
                    if q == 0:
                        raise Vague()
                    v = p / q
                else:
                    v = p + q if op == '+' else p - q if op == '-' else p * q
                if math.isinf(v) or math.isnan(v) or v == 0 and (p or q) and op in '*/':
                    raise Vague()
                return v
            return E(R, '(%s %s %s)' % (x.t, op, y.t), f)
        if k < 0.85:
            x = self.int(self.INT, d - 1)
            self.feat('real conversion')
            return E(R, 'real(%s)' % x.t, lambda fr: float(x.f(fr)))
        if k < 0.95:
            x = self.real(d - 1)
            return E(R, '(abs %s)' % x.t, lambda fr: abs(x.f(fr)))
        return self.call(lambda t: t.base is R, d) or self.real(0)

    def time(self, d):
        r = self.r
        T = self.TIME
        k = r.random()
        if d <= 0 or k < 0.4:
            e = self.scalar_path(T)
            if e is not None and self.p(0.6):
                return e
            n, (u, m) = r.randint(0, 50), r.choice([('ns', 10**6), ('us', 10**9), ('ps', 1000)])
            return E(T, '%d %s' % (n, u), lambda fr: n * m)
        if k < 0.7:
            x, y = self.time(d - 1), self.time(d - 1)
            sub = self.p(0.4)
            return E(T, '(%s %s %s)' % (x.t, '-' if sub else '+', y.t), lambda fr: self.ov(
                T, x.f(fr) - y.f(fr) if sub else x.f(fr) + y.f(fr)))
        if k < 0.85:
            x, y = self.time(d - 1), self.int(self.INT, d - 1, -20, 20)
            return E(T, '(%s * %s)' % (x.t, y.t), lambda fr: self.ov(T, x.f(fr) * y.f(fr)))
        x, y = self.time(d - 1), self.fit(self.int(self.INT, d - 1, 1, 9), 1, 9)
        return E(T, '(%s / %s)' % (x.t, y.t), lambda fr: vdiv(x.f(fr), y.f(fr)))

    def scalar(self, t, d, safe=True):
        """An expression of t's base type, usually within t."""
        k = t.kind
        if k == 'int':
            if t.base is t and t is not self.BIG or t.hi - t.lo > 10**7:
                e = self.int(t, d)
                if safe and t.lo >= 0 and (e.lo is None or e.lo < t.lo) and self.p(0.97):
                    e = self.fit(e, t.lo, t.lo + 999)
                elif safe and self.p(0.6):
                    e = self.fit(e, -1000, 1000)
                return e
            return self.int(t, d, t.lo, t.hi)
        if k == 'enum':
            if t.base is t:
                return self.enum(t, d)
            if self.p(0.03):
                e = self.unsafe(t.base)
                if e is not None:
                    return e
            e = self.enum(t, d, t.lo, t.hi)
            return e
        if k == 'real':
            return self.real(d)
        return self.time(d)

    def expr(self, t, d, n=None):
        if t.kind == 'array':
            if t.bounds:
                if len(t.idx) > 1 or t.base is t:
                    return self.arr_full(t, d)
                return self.arr(t.base, t.bounds[0][2], d) or self.agg(t, d)
            return self.arr_any(t, d)
        if t.kind == 'record':
            return self.rec(t, d)
        if t.kind == 'access':
            return self.acc(t, d)
        return self.scalar(t, d)

    # ------------------------------------------------------------ composites

    def elem(self, t, d):
        """An element of an aggregate of subtype t.

        nvc does not check these against the subtype (see known_findings.txt):
        a qualified expression does."""
        e = self.expr(t, d)
        if t.kind in ('int', 'enum', 'real', 'time') and t.base is not t:
            if t.kind == 'real' or e.lo is None or e.lo < t.lo or e.hi > t.hi:
                x = e.t if e.t.startswith('(') and e.t.endswith(')') and self.balanced(e.t) else '(' + e.t + ')'
                return E(t.base, "%s'%s" % (t.name, x), lambda fr: check(t, e.f(fr)), lo=t.lo, hi=t.hi)
        return e

    def simple(self, t):
        """A value without side effects or errors: nvc evaluates the element
        of a null range, which the standard does not."""
        if t.kind == 'int':
            return str(t.lo) if t.lo >= 0 else '(%d)' % t.hi
        if t.kind == 'enum':
            return t.base.lits[t.lo]
        if t.kind == 'real':
            return '0.0'
        if t.kind == 'time':
            return '0 ns'
        if t.kind == 'access':
            return 'null'
        if t.kind == 'record':
            return "%s'(%s)" % (t.name, ', '.join('%s => %s' % (n, self.simple(ft)) for n, ft in t.fields))
        if len(t.idx) > 1:
            return '(others => (others => %s))' % self.simple(t.elem)
        return '(others => %s)' % self.simple(t.elem)

    def rec(self, t, d):
        r = self.r
        if self.p(0.5) or d <= -1:
            x = self.path(lambda u: u is t)
            if x is not None:
                return E(t, x[1], lambda fr: copy(x[2](fr).get()))
        if self.p(0.2):
            e = self.call(lambda u: u is t, d)
            if e is not None:
                return e
        es = [self.elem(ft, min(d - 1, 1)) for _, ft in t.fields]
        named = self.p(0.5) or len(es) == 1

        def f(fr):
            return Rec([check(ft, copy(e.f(fr))) for e, (_, ft) in zip(es, t.fields)])
        if named:
            o = list(range(len(es)))
            r.shuffle(o)
            txt = ', '.join('%s => %s' % (t.fields[k][0], es[k].t) for k in o)
        else:
            txt = ', '.join(e.t for e in es)
        return E(t, '%s\'(%s)' % (t.name, txt), f)

    def acc(self, t, d):
        x = self.path(lambda u: u is t, deref=self.p(0.3)) if self.p(0.4) else None
        if x is not None:
            return E(t, x[1], lambda fr: x[2](fr).get())
        if self.p(0.15) or self.pure:
            return E(t, 'null', lambda fr: None)
        tt = t.target
        self.feat('allocator')
        if t.link:
            nx = self.path(lambda u: u is t, deref=False)
            v = self.elem(tt.fields[0][1], 1)
            nt, nf = (nx[1], lambda fr: nx[2](fr).get()) if nx else ('null', lambda fr: None)
            return E(t, "new %s'(%s, %s)" % (tt.name, v.t, nt),
                     lambda fr: Cell(Rec([check(tt.fields[0][1], v.f(fr)), nf(fr)])))
        if tt.kind == 'array' and not tt.bounds:
            if self.p(0.4):
                s = self.arr_sub(tt, (1, 2, 3, 5, 8, 20))
                return E(t, 'new %s' % s.name, lambda fr: Cell(default(s)))
            e = self.arr_any(tt, 1, wb=True)
            if e is not None:
                return E(t, "new %s'(%s)" % (tt.name, e.t), lambda fr: Cell(copy(check(tt, e.f(fr)))))
            s = self.arr_sub(tt, (1, 2, 3, 5, 8, 20))
            return E(t, 'new %s' % s.name, lambda fr: Cell(default(s)))
        if self.p(0.4):
            return E(t, 'new %s' % tt.name, lambda fr: Cell(default(tt)))
        e = self.expr(tt, 1)
        return E(t, "new %s'(%s)" % (tt.name, e.t), lambda fr: Cell(copy(check(tt, e.f(fr)))))

    def arr_full(self, t, d):
        """Multi-dimensional or enumeration-indexed arrays of subtype t."""
        if self.p(0.5):
            x = self.path(lambda u: u.base is t.base and u.bounds is not None
                          and [b[2] for b in u.bounds] == [b[2] for b in t.bounds])
            if x is not None:
                return E(t, x[1], lambda fr: copy(x[2](fr).get()))
        return self.agg(t, d)

    def agg(self, t, d):
        """An aggregate for a constrained subtype."""
        r = self.r
        if len(t.idx) > 1:
            n0, n1 = t.bounds[0][2], t.bounds[1][2]
            if self.p(0.3):
                e = self.expr(t.elem, min(d - 1, 1))
                # evaluated once or once per element: no side effects here
                return E(t, '(others => (others => %s))' % e.t if '(' in t.name or t.bounds else '',
                         lambda fr: Arr(list(t.bounds), [check(t.elem, copy(e.f(fr))) for _ in range(n0 * n1)]),
                         n=n0 * n1) if False else self.agg2(t, d)
            return self.agg2(t, d)
        l, dr, n = t.bounds[0]
        it = t.idx[0]
        es = []

        def ix(k):
            v = l + dr * k
            return it.base.lits[v] if it.kind == 'enum' else str(v) if v >= 0 else str(v)
        k = r.random()
        if n == 0:
            return E(t, '(%s to %s => %s)' % (1, 0, self.simple(t.elem)), lambda fr: Arr([(l, dr, 0)], []), n=0)
        if k < 0.45 and 1 < n <= 8:
            es = [self.elem(t.elem, min(d - 1, 1)) for _ in range(n)]
            return E(t, '(%s)' % ', '.join(e.t for e in es), lambda fr: Arr(
                [t.bounds[0]], [check(t.elem, copy(e.f(fr))) for e in es]), n=n)
        m = min(n, r.randint(1, 3))
        ks = sorted(r.sample(range(n), m))
        es = [self.elem(t.elem, min(d - 1, 1)) for _ in ks]
        o = self.elem(t.elem, 0)
        full = m == n
        parts = ['%s => %s' % (ix(q), e.t) for q, e in zip(ks, es)]
        r.shuffle(parts)
        self.feat('named aggregate')
        if not full:
            parts.append('others => ' + o.t)

        def f(fr):
            v = [None] * n
            for q, e in zip(ks, es):
                v[q] = check(t.elem, copy(e.f(fr)))
            for q in range(n):
                if v[q] is None:
                    v[q] = check(t.elem, copy(o.f(fr)))
            return Arr([t.bounds[0]], v)
        nm = t.name
        return E(t, "(%s)" % ', '.join(parts), f, n=n)

    def agg2(self, t, d):
        n0, n1 = t.bounds[0][2], t.bounds[1][2]
        es = [[self.elem(t.elem, 0) for _ in range(n1)] for _ in range(n0)]

        def row(k):
            l, dr, n = t.bounds[1]
            return '(%s)' % (', '.join(e.t for e in es[k]) if n1 > 1 else '%d => %s' % (l, es[k][0].t))
        l, dr, n = t.bounds[0]
        txt = '(%s)' % ', '.join(row(k) if n0 > 1 else '%d => %s' % (l, row(k)) for k in range(n0))
        return E(t, txt, lambda fr: Arr(list(t.bounds), [check(t.elem, copy(e.f(fr))) for q in es for e in q]),
                 n=n0 * n1)

    def strlit(self, t, n):
        r = self.r
        if t.elem is self.BIT:
            v = [r.randint(0, 1) for _ in range(n)]
            txt = '"%s"' % ''.join(map(str, v))
            if n % 4 == 0 and n and self.p(0.3):
                txt = 'x"%0*x"' % (n // 4, int(''.join(map(str, v)), 2))
        else:
            v = [r.choice([32, 65, 66, 97, 98, 120, 48, 57, 95]) for _ in range(n)]
            txt = '"%s"' % ''.join(map(chr, v))
        il = t.idx[0].lo
        return E(t, txt, lambda fr: Arr([(il, 1, n)], list(v)), n=n, wb=True)

    def arr_any(self, t, d, wb=False):
        """An array of unconstrained base type t of whatever length."""
        t = t.base
        if t.bounds:
            return self.arr_full(t, d)
        if len(t.idx) > 1:
            x = self.path(lambda u: u.base is t)
            if x is None:
                return None
            return E(t, x[1], lambda fr: copy(x[2](fr).get()), wb=True)
        if self.p(0.7):
            x = self.path(lambda u: u.base is t)
            if x is not None:
                if self.p(0.25) and x[0].bounds:
                    s = self.slice(x)
                    if s is not None:
                        return s
                return E(t, x[1], lambda fr: copy(x[2](fr).get()), wb=True,
                         n=x[0].bounds[0][2] if x[0].bounds else None)
        if self.p(0.3):
            e = self.call(lambda u: u.base is t, d)
            if e is not None and (not wb or e.wb):
                return e
        return self.arr(t, self.r.choice([1, 2, 3, 4, 5, 8, 9]), d, wb)

    def slice(self, x, n=None):
        ty, txt, ref = x
        l, dr, m = ty.bounds[0]
        if m < 1 or txt.endswith('.all') or ty.idx[0].kind != 'int':
            return None
        if n is None:
            n = self.r.randint(0 if self.p(0.15) else 1, m)
        if n > m:
            return None
        o = self.r.randint(0, m - n)
        self.feat('slice')
        a = l + dr * o
        if n == 0:
            return None
        dyn = self.p(0.25)
        if dyn:
            # the bounds are computed
            e = self.int(self.INT, 1, min(a, a), max(a, a)) if self.p(0.2) else self.ilit(self.INT, a, a)
            k = self.scalar_path(self.INT, 0, n - 1)
            if k is not None:
                if dr > 0:
                    bt, bf = '%s + %s' % (lit(a), k.t), lambda fr: a + k.f(fr)
                else:
                    bt, bf = '%s - %s' % (lit(a), k.t), lambda fr: a - k.f(fr)

                def f(fr):
                    v = ref(fr).get()
                    w = abs(bf(fr) - a) + 1
                    return Arr([(a, dr, w)], [copy(q) for q in v.v[o:o + w]])
                return E(ty.base, '%s(%d %s %s)' % (txt, a, 'to' if dr > 0 else 'downto', bt), f, wb=True)
        return E(ty.base, '%s(%d %s %d)' % (txt, a, 'to' if dr > 0 else 'downto', a + dr * (n - 1)),
                 lambda fr: Arr([(a, dr, n)], [copy(q) for q in ref(fr).get().v[o:o + n]]), n=n, wb=True)

    def arr(self, t, n, d, wb=False):
        """A one-dimensional array of type t with exactly n elements."""
        r = self.r
        if t.idx[0].kind != 'int':
            return None
        k = r.random()
        if k < 0.35:
            x = self.path(lambda u: u.base is t and u.bounds is not None and u.bounds[0][2] == n)
            if x is not None:
                return E(t, x[1], lambda fr: copy(x[2](fr).get()), n=n, wb=True)
        if k < 0.5:
            x = self.path(lambda u: u.base is t and u.bounds is not None and u.bounds[0][2] >= n)
            if x is not None:
                s = self.slice(x, n)
                if s is not None and s.n == n:
                    return s
        il = t.idx[0].lo
        if k < 0.68 and d > 0 and n >= 2:
            self.feat('concatenation')
            a = r.randint(1, n - 1)
            if a == 1 and self.p(0.5) and t.elem.kind != 'array':
                x = self.expr(t.elem, d - 1)
                y = self.arr(t, n - 1, d - 1)
                if y is None:
                    return None
                xt = self.qual(t.elem, x)
                return E(t, '(%s & %s)' % (xt, self.qual(t, y)), lambda fr: Arr(
                    [(il, 1, n)], [copy(within(t.elem, x.f(fr)))] + copy(y.f(fr)).v), n=n, wb=True)
            x, y = self.arr(t, a, d - 1), self.arr(t, n - a, d - 1)
            if x is not None and y is not None:
                return E(t, '(%s & %s)' % (self.qual(t, x), self.qual(t, y)), lambda fr: Arr(
                    [(il, 1, n)], copy(x.f(fr)).v + copy(y.f(fr)).v), n=n, wb=True)
        if not wb and k < 0.85 and d > 0 and t.elem in (self.BIT, self.BOOL):
            return self.bits(t, n, d)
        if t.elem in (self.BIT, self.CHAR) and self.p(0.6):
            return self.strlit(t, n)
        if n == 0:
            return None
        s = Ty(t.name, 'array', t, elem=t.elem, idx=t.idx)
        lo = max(t.idx[0].lo, r.choice([0, 1, 4])) if wb else il
        if il == self.imin and not wb:
            lo = 0
        if n == 1 or self.p(0.25):
            e = self.elem(t.elem, 0)
            return E(t, "%s'(%d to %d => %s)" % (t.name, max(lo, 0), max(lo, 0) + n - 1, e.t), lambda fr: Arr(
                [(max(lo, 0), 1, n)], [check(t.elem, copy(e.f(fr))) for _ in range(n)]), n=n, wb=True)
        if n > 12:
            return None
        es = [self.elem(t.elem, min(1, d - 1)) for _ in range(n)]
        return E(t, "%s'(%s)" % (t.name, ', '.join(e.t for e in es)), lambda fr: Arr(
            [(il, 1, n)], [check(t.elem, copy(e.f(fr))) for e in es]), n=n, wb=True)

    def bits(self, t, n, d):
        r = self.r
        k = r.random()
        x = self.arr(t, n, d - 1)
        if x is None:
            return None
        self.feat('vector logic')
        xt = self.qual(t, x)
        if k < 0.2:
            return E(t, '(not %s)' % xt, lambda fr: Arr(x.f(fr).b, [1 - q for q in x.f(fr).v]), n=n)
        if k < 0.6:
            op = r.choice(['and', 'or', 'xor', 'nand', 'nor', 'xnor'])
            fn = {'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q,
                  'nand': lambda p, q: 1 - (p & q), 'nor': lambda p, q: 1 - (p | q),
                  'xnor': lambda p, q: 1 - (p ^ q)}[op]
            if self.p(0.25):
                y = self.enum(t.elem, 1)


                def ev(fr):
                    a, b = x.f(fr), y.f(fr)
                    return Arr(a.b, [fn(p, b) for p in a.v])
                return E(t, '(%s %s %s)' % (xt, op, self.qual(t.elem, y)), ev, n=n)
            y = self.arr(t, n, d - 1)
            if y is None:
                return None
            return E(t, '(%s %s %s)' % (xt, op, self.qual(t, y)), lambda fr: Arr(
                x.f(fr).b, [fn(p, q) for p, q in zip(x.f(fr).v, y.f(fr).v)]), n=n)
        op = r.choice(['sll', 'srl', 'sla', 'sra', 'rol', 'ror'])
        y = self.int(self.INT, 1, -3, n + 3)

        def sh(v, op, s):
            if not v:
                return v
            if s < 0:
                op = {'sll': 'srl', 'srl': 'sll', 'sla': 'sra', 'sra': 'sla', 'rol': 'ror', 'ror': 'rol'}[op]
                s = -s
            s1 = s % len(v) if op in ('rol', 'ror') else min(s, len(v))
            m = len(v)
            if op == 'sll':
                return v[s1:] + [0] * s1
            if op == 'srl':
                return [0] * s1 + v[:m - s1]
            if op == 'sla':
                return v[s1:] + [v[-1]] * s1
            if op == 'sra':
                return [v[0]] * s1 + v[:m - s1]
            if op == 'rol':
                return v[s1:] + v[:s1]
            return v[m - s1:] + v[:m - s1]
        self.feat('shift operators')
        return E(t, '(%s %s %s)' % (xt, op, y.t), lambda fr: Arr(x.f(fr).b, sh(list(x.f(fr).v), op, y.f(fr))), n=n)

    # ------------------------------------------------------------ subprograms

    def subs_here(self, fn):
        out = []
        sc = self.scope
        while sc is not None:
            out += [s for s in sc.subs if fn(s)]
            sc = sc.parent
        return out

    def call(self, want, d):
        """A call of a pure function."""
        if self.calls >= 2 or d <= 0:
            return None
        fs = self.subs_here(lambda s: s.ret is not None and s.pure and want(s.ret))
        if not fs:
            return None
        self.calls += 1
        try:
            s = self.r.choice(fs)
            args = self.args(s, d - 1)
            if args is None:
                return None
            self.feat('function call')
            ret = s.ret
            return E(ret.base, self.call_text(s, args), lambda fr: self.invoke(s, args, fr),
                     n=None if ret.kind != 'array' or ret.bounds is None or len(ret.idx) > 1 else ret.bounds[0][2],
                     wb=s.wb, lo=ret.lo if ret.kind in ('int', 'enum') else None,
                     hi=ret.hi if ret.kind in ('int', 'enum') else None)
        finally:
            self.calls -= 1

    def args(self, s, d):
        """Actuals of a call: list of E or of (ty, text, ref)."""
        out, used = [], []
        save = self.avoid
        try:
            for p in s.params:
                if p.mode == 'in':
                    if p is s.fuel:
                        v = self.r.randint(0, 4)
                        out.append(E(self.INT, str(v), lambda fr, v=v: v))
                        continue
                    if p.ty.kind == 'array' and not p.ty.bounds:
                        e = self.arr_any(p.ty, d, wb=True)
                    else:
                        e = self.expr(p.ty, d)
                    if e is None:
                        return None
                    out.append(e)
                else:
                    # scalars by copy, composites of the very same subtype
                    x = self.path(lambda t: t.base is p.ty.base and (
                        t.kind in ('int', 'enum', 'real', 'time') or t is p.ty or p.ty.bounds is None and t.kind == 'array'),
                        write=True, deref=False)
                    if x is None:
                        return None
                    v = self.root(x)
                    if v is None or v.name in self.names_in(s):
                        # composites by copy or by reference is left open; scalars are
                        # a known finding
                        return None
                    out.append(x)
                    self.avoid = self.avoid + [v]
            # No object may be associated twice when one of them is modified
            for i, (p, a) in enumerate(zip(s.params, out)):
                if p.mode != 'in':
                    w = self.root(a)
                    for j, b in enumerate(out):
                        if j != i and self.mentions(b.t if isinstance(b, E) else b[1], w.name):
                            return None
            return out
        finally:
            self.avoid = save

    def mentions(self, text, name):
        import re
        return re.search(r'\b%s\b' % name, text) is not None

    def names_in(self, s):
        """All names the body of s mentions, itself or through what it calls."""
        import re
        if s.names is not None:
            return s.names
        drop, self.drop = self.drop, set()
        names, todo, seen = set(), [s], set()
        while todo:
            t = todo.pop()
            seen.add(t.name)
            new = set(re.findall(r'\w+', '\n'.join(self.sub_text(t, 0))))
            names |= new
            todo += [self.subs[n] for n in sorted(new - seen) if n in self.subs]
            seen |= new
        self.drop = drop
        if s.done:
            s.names = names
        return names

    def root(self, x):
        import re
        n = re.match(r'\w+', x[1]).group(0)
        for v in self.visible():
            if v.name == n:
                return v

    def call_text(self, s, args):
        ts = [a.t if isinstance(a, E) else a[1] for a in args]
        if not ts:
            return s.name
        # Overload resolution needs no help: names are unique
        if s.named and len(ts) > 1:
            return '%s(%s)' % (s.name, ', '.join('%s => %s' % (p.name, t) for p, t in
                                                 reversed(list(zip(s.params, ts)))))
        return '%s(%s)' % (s.name, ', '.join(ts))

    def invoke(self, s, args, fr):
        self.step()
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Budget()
        nf = Frame(s.scope, fr.find(s.scope.parent))
        back = []
        vals = []
        for p, a in zip(s.params, args):
            if isinstance(a, E):
                vals.append(check(p.ty, copy(a.f(fr))))
            else:
                ref = a[2](fr)
                cur = ref.get()
                # the value of an out parameter before it is assigned is left
                # open: nvc passes the actual
                vals.append(default(p.ty) if p.mode == 'out' else check(p.ty, copy(cur)))
                back.append((p, ref, a[0], len(vals) - 1, cur))
        for p, v in zip(s.params, vals):
            nf.vals[p] = v
        ret = None
        try:
            self.enter(s.scope, nf)
            self.block(s.body, nf)
            if s.ret is not None:
                raise VErr('noreturn')
        except Ret as e:
            ret = e.v
        for p, ref, ty, k, cur in back:
            v = check(p.ty, nf.vals[p])
            if isinstance(v, Arr):
                v = Arr(list(cur.b), v.v)
            # known finding: procedures that may wait do not check the result
            ref.set((within if s.waits or s.scope.parent is self.pkg else check)(ty, copy(v)))
        self.depth -= 1
        if s.ret is not None:
            ret = check(s.ret, ret)
        return ret

    def enter(self, scope, fr):
        for v, init in scope.decls:
            fr.vals[v] = init(fr)

    # ------------------------------------------------------------ statements

    def sid(self):
        self.nstmt += 1
        return self.nstmt

    def step(self):
        self.steps += 1
        if self.steps > self.NSTEP:
            raise Budget()

    def block(self, stmts, fr):
        for s in stmts:
            if s.id in self.drop:
                continue
            self.step()
            try:
                s.ex(fr)
            except (VErr, Budget, RecursionError) as e:
                if not getattr(self, 'blame', None) and not s.keep:
                    self.blame = s.id
                raise

    def text(self, stmts, ind):
        out = []
        for s in stmts:
            if s.id in self.drop:
                continue
            for l in (s.text() if callable(s.text) else [s.text]):
                out.append('  ' * ind + l if isinstance(l, str) else l)
        return out or ['  ' * ind + 'null;']

    def body(self, n, d):
        out = []
        for _ in range(n):
            s = self.stmt(d)
            if s is not None:
                out.append(s)
        return out

    def report_of(self, t, txt, fn, tag=None):
        tag = tag or 'L%d' % self.sid()
        return E(self.STR, '"%s " & %s' % (tag, self.img_call(txt, t)),
                 lambda fr: '%s %s' % (tag, image(t, fn(fr))))

    def emit(self, level, msg):
        self.obs.append((self.now, level, msg))

    def stmt(self, d):
        r = self.r
        k = r.random()
        if self.edge and self.p(0.35):
            return self.s_probe()
        if self.edge and d > 0 and self.p(0.15):
            return self.s_loop(d)
        if d <= 0 and 0.55 < k < 0.8:
            k *= 0.6
        if k < 0.38:
            return self.s_assign()
        if k < 0.48:
            return self.s_report()
        if k < 0.56:
            return self.s_call() or self.s_assign()
        if k < 0.64:
            return self.s_if(d)
        if k < 0.7:
            return self.s_case(d)
        if k < 0.8:
            return self.s_loop(d)
        if k < 0.84:
            return self.s_assert()
        if k < 0.9 and self.accs:
            return self.s_access()
        if k < 0.93 and self.loops:
            return self.s_exit()
        if k < 0.97 and self.may_wait:
            return self.s_wait()
        if k < 0.985 and self.scope.kind == 'sub':
            s = self.scope.sub
            e = self.ret_expr(s)
            if e is not None:
                c = self.bool(1)
                i = self.sid()

                def ex(fr):
                    if c.f(fr):
                        raise Ret(copy(e.f(fr)) if s.ret is not None else None)
                return S(i, 'if %s then return%s; end if;' % (c.t, ' ' + e.t if s.ret is not None else ''), ex)
        return self.s_assign()

    def ret_expr(self, s):
        if s.ret is None:
            return E(None, '', None)
        if s.ret.kind == 'array' and not s.ret.bounds:
            return self.arr_any(s.ret, 2, wb=s.wb)
        return self.expr(s.ret, 2)

    def s_assign(self):
        r = self.r
        want = (lambda t: t.kind in ('array', 'record')) if self.p(0.35) else (lambda t: t.kind not in ('access',))
        x = self.path(want, write=True)
        if x is None:
            return self.s_report()
        ty, txt, ref = x
        i = self.sid()
        if ty.kind == 'array' and ty.bounds and len(ty.idx) == 1 and ty.idx[0].kind == 'int' and self.p(0.3) \
                and not txt.endswith('.all'):
            return self.s_slice(i, x)
        if ty.kind == 'array' and not ty.bounds:
            e = self.arr_any(ty, 2)
            if e is None or not self.p(0.1):
                # same length: modify it in place
                e2 = E(ty, txt, lambda fr: copy(ref(fr).get()))
                if ty.elem is self.BIT and len(ty.idx) == 1:
                    e = E(ty, '(not %s)' % txt, lambda fr: Arr(ref(fr).get().b, [1 - q for q in ref(fr).get().v]))
                else:
                    e = e2
        elif ty.kind == 'array':
            e = self.expr(ty, 2)
            if e is None:
                return self.s_report()
        else:
            e = self.expr(ty, 3)

        def ex(fr):
            rf = ref(fr)
            v = copy(e.f(fr))
            if ty.kind == 'array' and ty.bounds is None:
                old = rf.get()
                if [b[2] for b in old.b] != [b[2] for b in v.b]:
                    raise VErr('length')
                v = Arr(list(old.b), v.v)
            rf.set(check(ty, v))
        if ty.kind in ('int', 'enum', 'real', 'time') and self.p(0.08):
            # conditional assignment
            e2, c = self.expr(ty, 1), self.bool(1)
            self.feat('conditional variable assignment')

            def ex2(fr):
                rf = ref(fr)
                rf.set(check(ty, (e if c.f(fr) else e2).f(fr)))
            return S(i, '%s := %s when %s else %s;' % (txt, e.t, c.t, e2.t), ex2)
        if ty.kind == 'record' and self.p(0.15):
            # aggregate as the target
            vs = []
            for _, ft in ty.fields:
                y = self.path(lambda t: t is ft or t.kind in ('int',) and t.base is ft.base, write=True, deref=False)
                # each part must be a locally static name
                if y is None or any(self.root(y) is self.root(z) for z in vs) \
                        or not re.match(r'\w+(\.f\d+|\(\d+(, \d+)*\))*$', y[1]):
                    break
                vs.append(y)
            if len(vs) == len(ty.fields) and len(vs) > 1:
                roots = [self.root(y) for y in vs]
                if not any(self.mentions(y[1][len(w.name):], z.name) for y, w in zip(vs, roots) for z in roots):
                    e = self.rec(ty, 1)
                    self.feat('aggregate target')

                    def ex3(fr):
                        rs = [y[2](fr) for y in vs]
                        v = e.f(fr)
                        for rf, y, q in zip(rs, vs, v.v):
                            rf.set(check(y[0], q))
                    return S(i, '(%s) := %s;' % (', '.join(y[1] for y in vs), e.t), ex3)
        return S(i, '%s := %s;' % (txt, e.t), ex)

    def s_slice(self, i, x):
        ty, txt, ref = x
        l, dr, m = ty.bounds[0]
        if m == 0:
            return self.s_report()
        n = self.r.randint(1, m)
        o = self.r.randint(0, m - n)
        e = self.arr(ty.base, n, 2)
        if e is None:
            return self.s_report()
        a = l + dr * o
        self.feat('slice assignment')

        def ex(fr):
            v = copy(e.f(fr))
            if len(v.v) != n:
                raise VErr('length')
            rf = ref(fr)
            arr = rf.get()
            arr.v[o:o + n] = [check(ty.elem, q) for q in v.v]
        if self.p(0.2):
            # variable bounds
            k = self.scalar_path(self.INT, 0, m - n)
            if k is not None:
                sg = '+' if dr > 0 else '-'

                def ex2(fr):
                    q = k.f(fr)
                    v = copy(e.f(fr))
                    arr = ref(fr).get()
                    if len(v.v) != n:
                        raise VErr('length')
                    arr.v[q:q + n] = [check(ty.elem, z) for z in v.v]
                return S(i, '%s(%s %s %s %s %s %s %s) := %s;' % (
                    txt, lit(l), sg, k.t, 'to' if dr > 0 else 'downto', lit(l + dr * (n - 1)), sg, k.t, e.t), ex2)
        return S(i, '%s(%d %s %d) := %s;' % (txt, a, 'to' if dr > 0 else 'downto', a + dr * (n - 1), e.t), ex)

    def s_report(self):
        i = self.sid()
        if self.in_func:
            return S(i, 'null;', lambda fr: None)
        if self.p(0.75):
            x = self.path(lambda t: t.kind in ('array', 'int', 'enum', 'real', 'time') or t in self.recs)
            if x is not None:
                e = self.report_of(x[0], x[1], lambda fr: x[2](fr).get(), 'L%d' % i)
                return S(i, 'report %s;' % (self.tag + e.t), lambda fr: self.emit('Note', self.pid + e.f(fr)))
        t = self.r.choice(self.scalars)
        y = self.scalar(t, 3, safe=self.p(0.9))
        e = self.report_of(t.base, self.qual(t.base, y), y.f, 'L%d' % i)
        return S(i, 'report %s;' % (self.tag + e.t), lambda fr: self.emit('Note', self.pid + e.f(fr)))

    def s_probe(self):
        i = self.sid()
        if self.in_func:
            return S(i, 'null;', lambda fr: None)
        t, y = (self.BOOL, self.bool(2)) if self.p(0.6) else (self.INT, self.int(self.INT, 2))
        e = self.report_of(t, self.qual(t, y), y.f, 'L%d' % i)
        return S(i, 'report %s;' % (self.tag + e.t), lambda fr: self.emit('Note', self.pid + e.f(fr)))

    def s_assert(self):
        i = self.sid()
        if self.in_func:
            return S(i, 'null;', lambda fr: None)
        c = self.bool(2)
        sev = self.r.choice(['note', 'warning', 'warning'])

        def ex(fr):
            if not c.f(fr):
                self.emit(sev.capitalize(), self.pid + 'A%d' % i)
        return S(i, 'assert %s report %s"A%d" severity %s;' % (c.t, self.tag, i, sev), ex)

    def s_if(self, d):
        i = self.sid()
        arms = [(self.bool(2), self.body(self.r.randint(1, 3), d - 1)) for _ in range(self.r.choice([1, 1, 2, 3]))]
        els = self.body(self.r.randint(1, 2), d - 1) if self.p(0.5) else None

        def ex(fr):
            for c, b in arms:
                if c.f(fr):
                    return self.block(b, fr)
            if els is not None:
                self.block(els, fr)

        def text():
            out = []
            for k, (c, b) in enumerate(arms):
                out.append('%s %s then' % ('elsif' if k else 'if', c.t))
                out += self.text(b, 1)
            if els is not None:
                out.append('else')
                out += self.text(els, 1)
            return out + ['end if;']
        return S(i, text, ex)

    def s_case(self, d):
        r = self.r
        i = self.sid()
        self.feat('case')
        if self.p(0.25):
            # a string or bit vector
            t = r.choice([self.BV, self.STR])
            n = r.randint(1, 4)
            x = self.path(lambda u: u.base is t and u.bounds is not None and u.bounds[0][2] == n)
            if x is not None:
                n = x[0].bounds[0][2]
                seen, arms = {}, []
                for _ in range(r.randint(1, 4)):
                    e = self.strlit(t, n)
                    if e.t.startswith('x'):
                        continue
                    if tuple(e.f(None).v) not in seen:
                        seen[tuple(e.f(None).v)] = len(arms)
                        arms.append((e.t, self.body(r.randint(1, 2), d - 1)))
                els = self.body(1, d - 1)

                def ex(fr):
                    k = seen.get(tuple(x[2](fr).get().v))
                    self.block(els if k is None else arms[k][1], fr)

                def text():
                    out = ['case %s is' % x[1]]
                    for c, b in arms:
                        out += ['when %s =>' % c] + self.text(b, 1)
                    return out + ['when others =>'] + self.text(els, 1) + ['end case;']
                self.feat('case on arrays')
                return S(i, text, ex)
        if self.p(0.6):
            t = self.INT
            x = self.int(t, 2, 0, 12) if self.p(0.8) else self.int(t, 2)
            vals = list(range(-2, 14))
        else:
            t = r.choice(self.enums).base
            x = self.enum(t, 2)
            vals = list(range(0, t.hi + 1))
        r.shuffle(vals)
        arms, table = [], {}
        for a in range(r.randint(1, 4)):
            ch = []
            for _ in range(r.randint(1, 3)):
                if not vals:
                    break
                v = vals.pop()
                if self.p(0.3):
                    w = v
                    while w + 1 in vals:
                        vals.remove(w + 1)
                        w += 1
                    if w > v:
                        ch.append('%s to %s' % ((v, w) if t is self.INT else (t.lits[v], t.lits[w])))
                        for q in range(v, w + 1):
                            table[q] = a
                        continue
                ch.append(lit(v) if t is self.INT else t.lits[v])
                table[v] = a
            if not ch:
                break
            arms.append((' | '.join(ch), self.body(r.randint(1, 2), d - 1)))
        els = self.body(1, d - 1)

        def ex(fr):
            k = table.get(x.f(fr))
            self.block(els if k is None else arms[k][1], fr)
        xt = self.qual(t, x)

        def text():
            out = ['case %s is' % xt]
            for c, b in arms:
                out += ['when %s =>' % c] + self.text(b, 1)
            if t is self.INT or len(table) <= t.hi or True:
                out += ['when others =>'] + self.text(els, 1)
            return out + ['end case;']
        return S(i, text, ex)

    def s_loop(self, d):
        r = self.r
        i = self.sid()
        lab = self.name('lp')
        lv = None
        k = r.random()
        rng = None
        if k < 0.7:
            kind = 'for'
            q = r.random()
            arr = self.path(lambda t: t.kind == 'array', deref=False) if q < 0.35 else None
            if arr is not None:
                kd = r.randrange(len(arr[0].idx))
                it = arr[0].idx[kd]
                rev = self.p(0.3)
                lv = Var(self.name('i'), it.base, self.scope, 'loop')
                lv.over = (arr[1], kd)
                if arr[0].bounds:
                    l, dr, n = arr[0].bounds[kd]
                    lv.lo, lv.hi = min(l, l + dr * (n - 1)), max(l, l + dr * (n - 1))
                rt = "%s'%s%s" % (arr[1], 'reverse_range' if rev else 'range',
                                  '(%d)' % (kd + 1) if len(arr[0].idx) > 1 else '')

                def rng(fr):
                    try:
                        l, dr, n = arr[2](fr).get().b[kd]
                    except VErr:
                        raise Vague()
                    v = list(range(l, l + dr * n, dr))
                    return v[::-1] if rev else v
            elif q < 0.5 and self.enums:
                t = r.choice(self.enums)
                lv = Var(self.name('i'), t.base, self.scope, 'loop')
                lv.lo, lv.hi = t.lo, t.hi
                rt = t.name

                def rng(fr):
                    return list(range(t.lo, t.hi + 1))
            else:
                lo = r.choice([0, -1, -3, 2, -7, -5] if self.edge else [0, 1, 1, 2, -2, 5])
                n = r.choice([0, 1, 2, 3, 4, 6])
                down = self.p(0.3)
                lv = Var(self.name('i'), self.INT, self.scope, 'loop')
                if self.p(0.3 if self.edge else 0.6):
                    lv.lo, lv.hi = lo, max(lo, lo + n - 1)
                    a, b = (lo + n - 1, lo) if down else (lo, lo + n - 1)
                    rt = '%d %s %d' % (a, 'downto' if down else 'to', b)

                    def rng(fr):
                        v = list(range(lo, lo + n))
                        return v[::-1] if down else v
                else:
                    e = self.int(self.INT, 1, lo - 1, lo + n)
                    if e.lo is None or e.lo < lo - 1 or e.hi > lo + n:
                        e = self.fit(e, lo - 1, lo + n)
                    # Literals alone would make it a range of universal_integer
                    e = E(e.ty, self.qual(self.INT, e), e.f, lo=e.lo, hi=e.hi)
                    if self.p(0.5):
                        lv.lo, lv.hi = lo, lo + n if lo + n >= lo else lo
                        rt = '%s downto %d' % (e.t, lo) if down else '%d to %s' % (lo, e.t)

                        def rng(fr):
                            v = list(range(lo, e.f(fr) + 1))
                            return v[::-1] if down else v
                    else:
                        # The upper bound is the literal
                        lv.lo, lv.hi = lo - 1, max(lo + n - 1, lo - 1)
                        rt = ('%d downto %s' if down else '%s to %d') % (
                            (lv.hi, e.t) if down else (e.t, lv.hi))

                        def rng(fr):
                            v = list(range(e.f(fr), lv.hi + 1))
                            return v[::-1] if down else v
            self.feat('for loop')
        elif k < 0.85:
            kind = 'while'
            c = self.bool(1)
            lim = r.randint(1, 6)
            cv = self.counter()
        else:
            kind = 'loop'
            c = self.bool(1)
            lim = r.randint(1, 6)
            cv = self.counter()
        if kind != 'for' and cv is None:
            return None
        L = (lab, i)
        self.loops.append(L)
        if lv is not None:
            self.loopv.append(lv)
        b = self.body(r.randint(1, 4), d - 1)
        self.loops.pop()
        if lv is not None:
            self.loopv.pop()

        def once(fr):
            """False when the loop has been left."""
            try:
                self.block(b, fr)
            except Leave as x:
                if x.loop is not L:
                    raise
                return x.again
            return True

        def ex(fr):
            if kind == 'for':
                own = fr.find(self_scope)
                for v in rng(fr):
                    own.vals[lv] = v
                    if not once(fr):
                        break
                return
            own = fr.find(cv.scope)
            own.vals[cv] = 0
            while True:
                self.step()
                if kind == 'while' and not (own.vals[cv] < lim and c.f(fr)):
                    break
                own.vals[cv] += 1
                if not once(fr):
                    break
                if kind == 'loop' and (own.vals[cv] >= lim or c.f(fr)):
                    break
        self_scope = self.scope

        def text():
            bt = self.text(b, 1)
            if kind == 'for':
                return ['%s: for %s in %s loop' % (lab, lv.name, rt)] + bt + ['end loop;']
            if kind == 'while':
                return ['%s := 0;' % cv.name, '%s: while %s < %d and %s loop' % (lab, cv.name, lim, c.t),
                        '  %s := %s + 1;' % (cv.name, cv.name)] + bt + ['end loop;']
            # the exit condition must also be reached by "next": put it in a nested block
            return ['%s := 0;' % cv.name, '%s: loop' % lab, '  %s := %s + 1;' % (cv.name, cv.name),
                    '  exit %s when %s > 9;' % (lab, cv.name)] + bt + ['  exit %s when %s >= %d or %s;' % (lab, cv.name, lim, c.t), 'end loop;']
        if kind == 'loop':
            # "next" would skip the exit test, so the model has to do the same
            def ex(fr, own=None):
                own = fr.find(cv.scope)
                own.vals[cv] = 0
                while True:
                    self.step()
                    own.vals[cv] += 1
                    if own.vals[cv] > 9:
                        break
                    try:
                        self.block(b, fr)
                    except Leave as x:
                        if x.loop is not L:
                            raise
                        if x.again:
                            continue
                        break
                    if own.vals[cv] >= lim or c.f(fr):
                        break
        return S(i, text, ex)

    def counter(self):
        """A counter no other statement touches."""
        v = Var(self.name('c'), self.NAT, self.scope, 'const')
        self.scope.decls.append((v, lambda fr: 0))
        self.scope.dtext.append('variable %s : natural := 0;' % v.name)
        return v

    def s_exit(self):
        L = self.r.choice(self.loops)
        inner = L is self.loops[-1]
        again = self.p(0.4)
        i = self.sid()
        c = self.bool(1)
        w = 'next' if again else 'exit'
        lab = '' if inner and self.p(0.6) else ' ' + L[0]
        self.feat('exit and next')

        def ex(fr):
            if c.f(fr):
                raise Leave(L, again)
        return S(i, '%s%s when %s;' % (w, lab, c.t), ex)

    def s_wait(self):
        i = self.sid()
        n = self.r.choice([0, 0, 1, 2, 5])
        self.feat('wait')

        def ex(fr):
            self.now += n * 10**6
        return S(i, 'wait for %d ns;' % n, ex)

    def s_access(self):
        r = self.r
        if self.pure:
            return None
        t = r.choice(self.accs)
        x = self.path(lambda u: u is t, write=True, deref=self.p(0.3))
        if x is None:
            return None
        i = self.sid()
        ty, txt, ref = x
        if self.p(0.12):
            self.feat('deallocate')

            def ex(fr):
                rf = ref(fr)
                c = rf.get()
                if c is not None:
                    c.dead = True
                rf.set(None)
            return S(i, 'deallocate(%s);' % txt, ex)
        e = self.acc(t, 2)

        def ex(fr):
            rf = ref(fr)
            rf.set(e.f(fr))
        return S(i, '%s := %s;' % (txt, e.t), ex)

    def s_call(self):
        """A procedure or impure function call."""
        if self.pure:
            return None
        ss = self.subs_here(lambda s: not s.pure and (not s.waits or self.may_wait) and s is not None)
        if not ss:
            return None
        s = self.r.choice(ss)
        if self.in_func and (s.reports or s.ret is None and s.reports):
            return None
        if self.scope.kind == 'sub' and s.writes_up and not self.scope.sub.writes_up \
                and s.scope.parent is not self.scope:
            return None
        args = self.args(s, 2)
        if args is None:
            return None
        i = self.sid()
        if s.ret is None:
            self.feat('procedure call')
            return S(i, '%s;' % self.call_text(s, args), lambda fr: self.invoke(s, args, fr))
        vs = [v for v in self.scope.vars if v.cls == 'var' and v.mode != 'in' and v.ty.base is s.ret.base
              and v.ty.kind in ('int', 'enum')]
        if not vs:
            return None
        self.feat('impure function')
        v = self.r.choice(vs)

        def ex(fr):
            x = self.invoke(s, args, fr)
            fr.find(v.scope).vals[v] = check(v.ty, x)
        return S(i, '%s := %s;' % (v.name, self.call_text(s, args)), ex)

    # ------------------------------------------------------------ declarations

    def declare(self, scope, v, init, text):
        if scope.frame is not None:
            # Nothing may go wrong before the processes start
            self.steps = self.depth = 0
            self.obs = []
            try:
                scope.frame.vals[v] = init(scope.frame)
            except (VErr, Vague, Budget, RecursionError):
                return False
        scope.vars.append(v)
        scope.decls.append((v, init))
        scope.dtext.append(text)
        return True

    def new_scope(self, parent, kind):
        s = Scope(parent, kind)
        s.decls, s.dtext = [], []
        s.frame = Frame(s, parent.frame if parent else None) if kind != 'sub' else None
        return s

    def var(self, scope, const=False, ty=None):
        """Declares a variable or constant."""
        for _ in range(5):
            v = self.var1(scope, const, ty)
            if v is not None:
                return v

    def var1(self, scope, const, ty):
        r = self.r
        name = self.name('k' if const else 'v')
        if not const and self.accs and self.p(0.15) and ty is None and scope.kind != 'func':
            ty = r.choice(self.accs)
        if ty is None and self.p(0.12) and (const or self.std == 2019):
            # the bounds come from the initial value
            b = r.choice([a for a in self.arrays if len(a.idx) == 1 and not a.bounds])
            e = self.arr_any(b, 2, wb=True)
            if e is not None:
                v = Var(name, b, scope, 'const' if const else 'var', 'inout')
                self.feat('bounds from the initial value')
                if self.declare(scope, v, lambda fr: check(b, copy(e.f(fr))), '%s %s : %s := %s;' % (
                        'constant' if const else 'variable', name, b.name, e.t)):
                    return v
                return None
        ty = ty or self.obj_ty()
        v = Var(name, ty, scope, 'const' if const else 'var', 'inout')
        e = self.expr(ty, 2) if const or self.p(0.6) else None
        if e is None and const:
            return None
        if e is None and ty.kind == 'real':
            e = self.real(0)
        if e is None:
            ok = self.declare(scope, v, lambda fr: default(ty), 'variable %s : %s;' % (name, ty.name))
        else:
            ok = self.declare(scope, v, lambda fr: check(ty, copy(e.f(fr))), '%s %s : %s := %s;' % (
                'constant' if const else 'variable', name, ty.name, e.t))
        return v if ok else None

    def alias(self, scope):
        """An alias of an array, possibly with other bounds."""
        vs = [v for v in scope.vars if v.ty.kind == 'array' and len(v.ty.idx) == 1 and v.ty.idx[0].kind == 'int'
              and getattr(v, 'target', None) is None and v.cls == 'var']
        if not vs:
            return
        return

    def sub(self, parent, level):
        """Declares a subprogram in scope parent."""
        r = self.r
        s = Sub()
        s.done, s.names = False, None
        save = (self.scope, self.loopv, self.loops, self.pure, self.in_func, self.may_wait, self.calls)
        kind = r.random()
        proc = kind < 0.45
        s.name = self.name('p' if proc else 'f')
        inproc = parent.kind in ('process', 'sub')
        s.pure = not proc and (kind < 0.9 or not inproc)
        s.writes_up = inproc and not s.pure and self.p(0.5) and (
            parent.kind == 'process' or parent.sub.writes_up or not parent.sub.pure)
        s.waits = proc and self.p(0.35) and (parent.kind != 'sub' or parent.sub.waits)
        s.reports = proc and not self.in_func and inproc
        s.named = self.p(0.15)
        s.fuel = None
        s.wb = True
        s.ret = None
        sc = s.scope = self.new_scope(parent, 'sub')
        sc.sub = s
        s.params = []
        self.scope, self.loopv, self.loops, self.calls = sc, [], [], 0
        self.pure, self.in_func = s.pure or (parent.kind == 'sub' and parent.sub.pure), not s.reports
        self.may_wait = s.waits
        if not proc:
            if s.pure:
                t = r.choice([self.obj_ty(), self.obj_ty(), r.choice(self.arrays)])
                if t.kind == 'array' and len(t.idx) > 1 and not t.bounds:
                    t = r.choice(self.ints)
                if t.kind == 'array' and t.bounds and '(' in t.name:
                    t = t.base        # the return type must be a type mark
                    if len(t.idx) > 1:
                        t = self.INT
                s.ret = t
            else:
                s.ret = r.choice(self.ints + self.enums)
        rec = self.p(0.15)
        if rec:
            s.fuel = Var('n', self.NAT, sc, 'const')
            s.params.append(s.fuel)
        outs = []
        for k in range(r.randint(0, 3)):
            mode = 'in'
            if proc and not s.writes_up and self.p(0.5):
                mode = r.choice(['out', 'inout', 'inout'])
            if s.writes_up:
                t = r.choice(self.ints + self.enums)
            else:
                t = self.obj_ty() if self.p(0.55) else r.choice(self.arrays)
            if t.kind == 'array' and '(' in t.name:
                if mode != 'in' or self.p(0.4):
                    t = t.base
            if t.kind == 'record' and mode == 'out':
                mode = 'inout'
            v = Var(self.name('a'), t, sc, 'const' if mode == 'in' else 'var', mode)
            if mode == 'out' and t.kind in ('int', 'enum', 'real', 'time'):
                outs.append(v)
            elif mode == 'out':
                mode = v.mode = 'inout'
            s.params.append(v)
        sc.vars += s.params
        # What an out parameter holds before it is assigned is left open
        avoid, self.avoid = self.avoid, self.avoid + outs
        if self.p(0.6):
            self.var(sc, ty=r.choice(self.ints))
        for _ in range(r.randint(0, 3)):
            self.var(sc, const=self.p(0.3))
        if level > 0 and self.p(0.25):
            self.feat('nested subprogram')
            self.sub(sc, level - 1)
        self.steps = 0
        s.body = []
        for v in outs:
            s.body.append(self.set_out(v))
        self.avoid = avoid
        if rec and s.ret is not None:
            e = self.ret_expr(s)
            if e is not None:
                s.body.append(S(self.sid(), 'if n = 0 then return %s; end if;' % e.t,
                                self.mk_if0(s, e), keep=True))
        elif rec:
            s.body.append(S(self.sid(), 'if n = 0 then return; end if;', self.mk_if0(s, None), keep=True))
        s.body += self.body(r.randint(1, 5), 2 if level else 1)
        if rec and s.body:
            self.recurse(s)
        if s.ret is not None:
            e = self.ret_expr(s)
            while e is None:
                e = self.arr(s.ret, 3, 1, wb=True) if s.ret.kind == 'array' else self.expr(s.ret, 1)
            i = self.sid()

            def ex(fr):
                raise Ret(copy(e.f(fr)))
            s.body.append(S(i, 'return %s;' % e.t, ex, keep=True))
            self.must.add(i)
        for b in s.body:
            if b.keep:
                self.must.add(b.id)
        self.scope, self.loopv, self.loops, self.pure, self.in_func, self.may_wait, self.calls = save
        parent.subs.append(s)
        parent.dtext.append(s)
        s.done = True
        self.subs[s.name] = s
        return s

    def set_out(self, v):
        e = self.expr(v.ty, 1)

        def ex(fr):
            fr.find(v.scope).vals[v] = check(v.ty, e.f(fr))
        return S(self.sid(), '%s := %s;' % (v.name, e.t), ex, keep=True)

    def mk_if0(self, s, e):
        def ex(fr):
            if fr.find(s.scope).vals[s.fuel] == 0:
                raise Ret(copy(e.f(fr)) if e is not None else None)
        return ex

    def recurse(self, s):
        """A recursive call."""
        args = self.args(s, 1)
        if args is None:
            return
        self.feat('recursion')
        k = s.params.index(s.fuel)
        args[k] = E(self.NAT, 'n - 1', lambda fr: fr.find(s.scope).vals[s.fuel] - 1)
        i = self.sid()
        if s.ret is None:
            s.body.append(S(i, '%s;' % self.call_text(s, args), lambda fr: self.invoke(s, args, fr)))
            return
        vs = [v for v in s.scope.vars if v.cls == 'var' and v.mode != 'in' and v.ty.base is s.ret.base
              and v.ty.kind in ('int', 'enum', 'real')]
        if vs:
            v = self.r.choice(vs)

            def ex(fr):
                x = self.invoke(s, args, fr)
                fr.find(v.scope).vals[v] = check(v.ty, x)
            s.body.append(S(i, '%s := %s;' % (v.name, self.call_text(s, args)), ex))

    def sub_head(self, s):
        ps = []
        for p in s.params:
            c = '' if p.mode == 'in' else 'variable '
            ps.append('%s%s : %s %s' % (c, p.name, p.mode, p.ty.name))
        a = '(%s)' % '; '.join(ps) if ps else ''
        if s.ret is None:
            return 'procedure %s%s' % (s.name, a)
        return '%sfunction %s%s return %s' % ('' if s.pure else 'impure ', s.name, a, s.ret.name)

    def sub_text(self, s, ind):
        i = '  ' * ind
        return [i + self.sub_head(s) + ' is'] + self.decl_text(s.scope, ind + 1) + [i + 'begin'] \
            + self.text(s.body, ind + 1) + [i + 'end;']

    def decl_text(self, sc, ind):
        out = []
        for x in sc.dtext:
            if isinstance(x, Sub):
                out += self.sub_text(x, ind)
            else:
                out.append('  ' * ind + x)
        return out

    # ------------------------------------------------------------ the design

    def build(self):
        r = self.r
        self.loopv, self.loops, self.avoid = [], [], []
        self.calls = self.nest = self.steps = self.depth = 0
        self.pure = self.in_func = self.may_wait = False
        self.obs, self.now = [], 0
        self.tag = self.pid = ''
        self.std = r.choice([2008, 2008, 2019])
        self.imin, self.imax = (IMIN, IMAX) if self.std == 2008 else (-2**63, 2**63 - 1)
        self.build_types()
        self.pkg = self.new_scope(None, 'pkg')
        self.scope = self.pkg
        for _ in range(r.randint(0, 3)):
            self.var(self.pkg, const=True)
        self.npkg = len(self.pkg.dtext)
        for _ in range(r.randint(1, 4)):
            self.sub(self.pkg, 1)
        self.arch = self.new_scope(self.pkg, 'arch')
        self.scope = self.arch
        for _ in range(r.randint(0, 3)):
            if self.p(0.6):
                self.var(self.arch, const=True)
            else:
                self.sub(self.arch, 1)
        self.procs = []
        for k in range(r.choice([1, 1, 2, 3])):
            sc = self.new_scope(self.arch, 'process')
            self.scope = sc
            self.pid = 'P%d ' % k
            self.tag = '"P%d " & ' % k
            sc.pid = self.pid
            for _ in range(r.randint(2, 3)):
                self.var(sc, ty=r.choice(self.ints))
            for _ in range(r.randint(4, 8)):
                self.var(sc, const=self.p(0.1))
            for _ in range(r.randint(0, 3)):
                self.sub(sc, 2)
            self.may_wait = True
            hot = r.choice([1, 1, 2, 5, 20]) if self.p(0.6) else 1
            b = self.body(r.randint(6, 16), 3)
            self.may_wait = False
            self.procs.append((sc, b, hot))

    def source(self):
        L = ['package p is']
        L += ['  ' + x for x in self.tdecl]
        for t in self.imgs:
            if t.kind != 'access':
                L.append('  function img(v : %s) return string;' % t.name)
        L += ['  ' + x for x in self.pkg.dtext if not isinstance(x, Sub)]
        L += ['  ' + self.sub_head(x) + ';' for x in self.pkg.dtext if isinstance(x, Sub)]
        L += ['end package;', 'package body p is']
        for t in self.imgs:
            L += self.img_text(t)
        for x in self.pkg.dtext:
            if isinstance(x, Sub):
                L += self.sub_text(x, 1)
        L += ['end package body;', 'use work.p.all;', 'entity top is end entity;',
              'architecture a of top is']
        L += self.decl_text(self.arch, 1)
        L.append('begin')
        for k, (sc, b, hot) in enumerate(self.procs):
            L.append('  proc%d: process' % k)
            L += self.decl_text(sc, 2)
            L.append('  begin')
            if hot > 1:
                L.append('    for hot in 1 to %d loop' % hot)
                L += self.text(b, 3)
                L.append('    end loop;')
            else:
                L += self.text(b, 2)
            L += ['    report "P%d end";' % k, '    wait;', '  end process;']
        L += ['end architecture;', '']
        return '\n'.join(L)

    def img_text(self, t):
        h = '  function img(v : %s) return string is' % t.name
        if t.kind in ('int',):
            return [h, "  begin return %s'image(v); end;" % t.name]
        if t.kind == 'enum':
            return [h, "  begin return %s'image(v); end;" % t.name]
        if t.kind == 'real':
            return [h, "  begin return real'image(v); end;"]
        if t.kind == 'time':
            return [h, "    constant s : string := time'image(v);",
                    "  begin return s(1 to s'length - 3); end;"]
        if t.kind == 'record':
            return [h, '  begin return "["%s & "]";' % ''.join(
                ' & %s & ";"' % self.img_call('v.' + n, ft) for n, ft in t.fields), '  end;']
        if t.kind == 'array':
            L = [h, '    variable s : string(1 to 4000); variable n : natural := 0;',
                 '    procedure add(x : string) is begin',
                 "      s(n + 1 to n + x'length) := x; n := n + x'length;", '    end;', '  begin', '    add("(");']
            if len(t.idx) == 1:
                L += ["    for i in v'range loop add(%s); add(\",\"); end loop;" % self.img_call('v(i)', t.elem)]
            else:
                L += ["    for i in v'range(1) loop for j in v'range(2) loop add(%s); add(\",\"); end loop; end loop;"
                      % self.img_call('v(i, j)', t.elem)]
            return L + ['    add(")"); return s(1 to n);', '  end;']
        return []

    def img_call(self, x, t):
        return x if t.base.name == 'string' else 'img(%s)' % x

    # ------------------------------------------------------------ evaluation

    def evaluate(self):
        """[(observations, error kind or None, vague)] per process; the error of elaboration."""
        import sys
        sys.setrecursionlimit(5000)
        self.steps = 0
        self.nsteps = 0
        self.depth = 0
        self.blame = None
        out = []
        fp = Frame(self.pkg, None)
        fa = Frame(self.arch, fp)
        try:
            self.enter(self.pkg, fp)
            self.enter(self.arch, fa)
        except VErr as e:
            return None, ('err', e.args[0])
        except Vague as e:
            return None, ('vague', *e.args)
        for k, (sc, b, hot) in enumerate(self.procs):
            f = Frame(sc, fa)
            try:
                self.enter(sc, f)
                sc.frame = f
            except VErr as e:
                return None, ('err', e.args[0])
            except Vague as e:
                return None, ('vague', *e.args)
        for k, (sc, b, hot) in enumerate(self.procs):
            self.obs, self.now, self.steps, self.depth = [], 0, 0, 0
            self.pid = sc.pid
            end = None
            try:
                for _ in range(hot):
                    self.block(b, sc.frame)
                self.emit('Note', 'P%d end' % k)
            except VErr as e:
                end = ('err', e.args[0])
            except Vague as e:
                end = ('vague', *e.args)
            except (Budget, RecursionError):
                end = ('budget', '')
            self.nsteps += self.steps
            out.append((self.obs, end, self.now))
        return out, None
