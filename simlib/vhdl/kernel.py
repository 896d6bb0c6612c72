"""Reference model of the VHDL simulation cycle (IEEE 1076-2008, 14.7).

One object per scalar net; written from the standard, shares nothing with nvc.
Times are integers (nanoseconds)."""

NEVER = 1 << 60


class Overrun(Exception):
    """The design does not settle; it is not a usable test case."""


class Driver:
    __slots__ = ('home', 'net', 'cur', 'waves', 'proc', 'active', 'connected')

    def __init__(self, net, init, proc):
        self.net = net
        self.cur = init
        self.waves = []          # (time, value); None is a null transaction
        self.proc = proc
        self.connected = True


class Port:
    """A port element in the tree of sources of a resolved net."""

    def __init__(self, net):
        self.net, self.drivers, self.ports = net, [], []


class Net:
    __slots__ = ('own', 'ports', 'name', 'val', 'last_val', 'last_event', 'last_active', 'ev', 'act', 'drivers',
                 'res', 'default', 'kind', 'watch', 'group', 'forced', 'deps', 'delayed', 'driving',
                 'force_req', 'left')

    def __init__(self, name, default, res=None, kind=None):
        self.name = name
        self.default = self.val = self.last_val = default
        self.last_event = self.last_active = None
        self.ev = self.act = -1           # cycle of the latest event/activity
        self.drivers = []                 # all drivers at any level of the hierarchy
        self.own = []                     # drivers at the level of the declaration
        self.ports = []                   # out and inout ports associated with the net
        self.res = res
        self.kind = kind                  # None, 'bus' or 'register'
        self.group = None
        self.forced = None
        self.deps = []                    # implicit signals computed from this net
        self.driving = default
        self.force_req = None
        self.left = default               # leftmost value of the subtype


class Group:
    """A composite signal resolved as a whole."""

    def __init__(self, nets, res):
        self.nets = nets
        self.res = res
        for n in nets:
            n.group = self


class Implicit:
    """S'stable(T), S'quiet(T), S'transaction or a GUARD signal."""

    def __init__(self, kind, prefix, t, net, fn=None):
        self.kind, self.prefix, self.t, self.net, self.fn = kind, prefix, t, net, fn
        self.pending = None      # (time, value)


class Wait:
    __slots__ = ('nets', 'cond', 'until')

    def __init__(self, nets, cond, until):
        self.nets, self.cond, self.until = nets, cond, until


class Process:
    def __init__(self, name, body, postponed=False):
        self.name = name
        self.body = body         # function(sim, process) -> generator of (nets, cond, timeout)
        self.postponed = postponed
        self.gen = None
        self.wait = None
        self.drv = {}            # net -> Driver
        self.vars = {}
        self.done = False


class Sim:
    def __init__(self, max_delta=200, max_obs=30000, dev=()):
        self.dev = dev           # known deviations of nvc to reproduce
        self.nets = []
        self.procs = []
        self.implicits = []
        self.groups = []
        self.now = 0
        self.delta = 0
        self.cycle = 0
        self.obs = []            # (time, delta, text)
        self.max_delta = max_delta
        self.max_obs = max_obs
        self.changes = []        # (time, net, value) after every event
        self.cycles = 0

    # -- structure ---------------------------------------------------------
    def net(self, *a, **k):
        n = Net(*a, **k)
        self.nets.append(n)
        return n

    def driver(self, proc, net, init, port=None):
        if net not in proc.drv:
            d = Driver(net, init, proc)
            proc.drv[net] = d
            net.drivers.append(d)
            d.home = net.own if port is None else port.drivers
            d.home.append(d)
        return proc.drv[net]

    # -- driving values ----------------------------------------------------
    def resolve(self, net):
        if not net.drivers:
            return net.default
        if net.res is None:
            return net.drivers[0].cur
        vals = [d.cur for d in net.own if d.connected] + [self.resolve_port(p) for p in net.ports]
        if not vals and net.kind == 'register':
            return net.driving
        return net.res(vals)

    def resolve_port(self, p):
        return p.net.res([d.cur for d in p.drivers] + [self.resolve_port(q) for q in p.ports])

    def resolve_group(self, g):
        first = g.nets[0]
        if not first.drivers:
            return [n.default for n in g.nets]
        srcs = []
        for i, d in enumerate(first.drivers):
            srcs.append([n.drivers[i].cur for n in g.nets])
        return g.res(srcs)

    def set_value(self, net, v):
        if v != net.val:
            net.last_val = net.val
            net.val = v
            net.last_event = self.now
            net.ev = self.cycle
            self.changes.append((self.now, net, v))

    def set_active(self, net):
        net.act = self.cycle
        net.last_active = self.now

    # -- signal assignment (10.5.2.2) ---------------------------------------
    def assign(self, proc, net, waves, mode, reject):
        """waves: [(value, delay)] ascending; mode: 'transport' or 'inertial'."""
        d = proc.drv[net]
        new = [(self.now + t, v) for v, t in waves]
        first = new[0][0]
        old = [w for w in d.waves if w[0] < first]
        if mode == 'inertial':
            r = reject if reject is not None else waves[0][1]
            limit = first - r
            marked = [w[0] < limit for w in old]
            nxt = (True, new[0][1])
            for i in range(len(old) - 1, -1, -1):
                if not marked[i] and nxt[0] and old[i][1] == nxt[1]:
                    marked[i] = True
                nxt = (marked[i], old[i][1])
            old = [w for w, m in zip(old, marked) if m]
        d.waves = old + new

    # -- attributes ----------------------------------------------------------
    def event(self, nets):
        return any(n.ev == self.cycle for n in nets)

    def active(self, nets):
        return any(n.act == self.cycle for n in nets)

    def since_event(self, nets):
        ts = [n.last_event for n in nets if n.last_event is not None]
        return self.now - max(ts) if ts else NEVER

    def since_active(self, nets):
        ts = [n.last_active for n in nets if n.last_active is not None]
        return self.now - max(ts) if ts else NEVER

    def observe(self, text):
        self.obs.append((self.now, self.delta, text))
        if len(self.obs) > self.max_obs:
            raise Overrun()

    # -- simulation cycle (14.7.5) -------------------------------------------
    def initialise(self):
        self.cycle = 0
        for n in self.nets:
            if n.group is None:
                n.val = n.last_val = n.driving = self.resolve(n)
        for g in self.groups:
            for n, v in zip(g.nets, self.resolve_group(g)):
                n.val = n.last_val = n.driving = v
        for i in self.implicits:
            if i.kind in ('stable', 'quiet'):
                i.net.val = i.net.last_val = 1
            elif i.kind == 'guard':
                i.net.val = i.net.last_val = i.fn(self)
            else:
                i.net.val = i.net.last_val = 0
        for p in self.procs:
            p.gen = p.body(self, p)
        for p in self.procs:
            if not p.postponed:
                self.resume(p)
        for p in self.procs:
            if p.postponed:
                self.resume(p)
        self.ppending = []

    def resume(self, p):
        try:
            nets, cond, timeout = next(p.gen)
            p.wait = Wait(nets, cond, None if timeout is None else self.now + timeout)
        except StopIteration:
            p.wait = None
            p.done = True

    def next_time(self):
        t = NEVER
        for n in self.nets:
            for d in n.drivers:
                if d.waves and d.waves[0][0] < t:
                    t = d.waves[0][0]
            if n.force_req is not None:
                t = self.now
        for i in self.implicits:
            if i.pending and i.pending[0] < t:
                t = i.pending[0]
        for p in self.procs:
            if p.wait and p.wait.until is not None and p.wait.until < t:
                t = p.wait.until
        return t

    def run(self, stop):
        self.initialise()
        while True:
            tn = self.next_time()
            if tn != self.now or tn == NEVER:
                # Last delta of this time: postponed processes
                pp, self.ppending = self.ppending, []
                for p in pp:
                    self.resume(p)
                tn = self.next_time()
                if tn == NEVER or tn > stop:
                    return
            self.one_cycle(tn)

    def one_cycle(self, tn):
        if tn == self.now:
            self.delta += 1
            if self.delta > self.max_delta:
                raise Overrun()
        else:
            self.now = tn
            self.delta = 0
        self.cycle += 1
        groups = []
        for n in self.nets:
            act = False
            for d in n.drivers:
                while d.waves and d.waves[0][0] <= self.now:
                    _, v = d.waves.pop(0)
                    if v is None:
                        d.connected = False
                    else:
                        d.cur = v
                        d.connected = True
                    act = True
            fr = n.force_req
            if fr is not None:
                n.force_req = None
                n.forced = fr[0] if fr[1] else None
                act = True
            if act:
                if n.group is not None:
                    if n.group not in groups:
                        groups.append(n.group)
                    continue
                self.set_active(n)
                n.driving = self.resolve(n)
                self.set_value(n, n.driving if n.forced is None else n.forced)
        for g in groups:
            for n, v in zip(g.nets, self.resolve_group(g)):
                self.set_active(n)
                n.driving = v
                self.set_value(n, v if n.forced is None else n.forced)
        for i in self.implicits:
            self.update_implicit(i)
        run = []
        early = set()            # 'ppwait': a postponed process runs at once after a timeout
        for p in self.procs:
            w = p.wait
            if w is None:
                continue
            if 'ppwait' in self.dev and w.until is not None and w.until <= self.now:
                early.add(p)
            if w.nets and any(n.ev == self.cycle for n in w.nets):
                if w.cond is None or w.cond():
                    run.append(p)
                    continue
            if w.until is not None and w.until <= self.now:
                run.append(p)
        for p in run:
            p.wait = None
            if p.postponed and p not in early:
                self.ppending.append(p)
        for p in run:
            if not p.postponed or p in early:
                self.resume(p)

    def update_implicit(self, i):
        if i.kind == 'guard':
            v = i.fn(self)
            if any(n.act == self.cycle for n in i.prefix):
                self.set_active(i.net)
            self.set_value(i.net, v)
            return
        if i.kind == 'transaction':
            if self.active(i.prefix):
                self.set_active(i.net)
                self.set_value(i.net, 1 - i.net.val)
            return
        trig = self.event(i.prefix) if i.kind == 'stable' else self.active(i.prefix)
        if trig:
            self.set_active(i.net)
            self.set_value(i.net, 0)
            i.pending = (self.now + i.t, 1)
        elif i.pending and i.pending[0] <= self.now:
            i.pending = None
            self.set_active(i.net)
            self.set_value(i.net, 1)
