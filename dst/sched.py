"""The scheduler: real threads, one runs at a time, who runs is decided here.

sys.monitoring reports every bytecode instruction of the toolbox (and of nothing
else). At each of them the scheduler may hand the baton to another client thread;
at LINE and CALL events it may raise an injected exception.
"""
import dis
import random
import sys
import threading

from dst import seams, world

MON = sys.monitoring
TOOL = 3
EV = MON.events

SHARED_OPS = {
    "LOAD_ATTR",
    "STORE_ATTR",
    "DELETE_ATTR",
    "LOAD_GLOBAL",
    "STORE_GLOBAL",
    "STORE_SUBSCR",
    "BINARY_SUBSCR",
    "STORE_SLICE",
    "LOAD_DEREF",
    "STORE_DEREF",
    "LOAD_SUPER_ATTR",
}


STORE_OPS = {"STORE_ATTR", "STORE_GLOBAL", "DELETE_ATTR", "STORE_SUBSCR", "STORE_SLICE", "STORE_DEREF"}

# calls that put something back or give something up: what code does in an except or
# finally clause; nothing can be asked of code whose clean-up itself is refused
CLEANUP = {
    "__exit__",
    "__aexit__",
    "close",
    "release",
    "seterr",
    "set_state",
    "setstate",
    "chdir",
    "set_printoptions",
    "setrecursionlimit",
    "fclose",
    "destroy",
    "destroy_fig",
}


class NoProgress(BaseException):
    """The step budget of a run is used up."""


class Injected:
    """exceptions the simulator raises inside the toolbox"""


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedMemoryError(MemoryError):
    pass


class Plan:
    """One fault of one operation: raise at its n-th LINE or CALL event; with sub, at
    the sub-th arithmetic or indexing instruction after its n-th call instead (those
    allocate too, without a call)."""

    __slots__ = ("kind", "n", "count", "fired", "where", "sub", "past")

    def __init__(self, kind, n, sub=None):
        self.sub = sub
        self.past = 0
        self.kind = kind  # "kbi" (LINE) | "oom" (CALL) | "count"
        self.n = n
        self.count = 0
        self.fired = False
        self.where = None


class Counter:
    __slots__ = ("lines", "calls")

    def __init__(self):
        self.lines = 0
        self.calls = 0


class _Client:
    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.gate = seams.REAL["Lock"]()
        self.gate.acquire()
        self.done = False
        self.pred = None  # blocked until pred()
        self.exc = None
        self.prio = 0.0


class Sim:
    """One simulated execution. Use: sim.start(instr); sim.run(fns); sim.stop()."""

    def __init__(self, budget=5_000_000):
        self.budget = budget
        self.steps = 0  # toolbox instructions (or lines, single-threaded)
        self.clients = []
        self.cur = None
        self.switches = []
        self.places = []
        self.sched = None
        self.counters = {}
        self.plans = {}
        self.codes = None
        self.active = False
        self.deadlock = False
        self.aborted = None
        self.on_switch = None
        self.ops_cache = {}
        self.next_at = -1
        self.clock_jumps = []
        self.armed_threads = {}

    # -- monitoring -------------------------------------------------------
    def start(self, instructions):
        self.codes = world.TB.codes
        ev = EV.LINE | EV.CALL | (EV.INSTRUCTION if instructions else 0)
        MON.use_tool_id(TOOL, "dst")
        MON.register_callback(TOOL, EV.LINE, self._on_line)
        MON.register_callback(TOOL, EV.CALL, self._on_call)
        if instructions:
            MON.register_callback(TOOL, EV.INSTRUCTION, self._on_instr)
        for c in self.codes:
            MON.set_local_events(TOOL, c, ev)
        self.instructions = instructions
        self.active = True
        seams.LOCK_HOST = self
        seams.YIELD = self.io_yield

    def stop(self):
        if not self.active:
            return
        self.active = False
        for c in self.codes:
            MON.set_local_events(TOOL, c, 0)
        for e in (EV.LINE, EV.CALL, EV.INSTRUCTION):
            MON.register_callback(TOOL, e, None)
        MON.free_tool_id(TOOL)
        seams.LOCK_HOST = None
        seams.YIELD = None

    # -- fault points -----------------------------------------------------
    def count_op(self):
        """count LINE/CALL events of this thread from here"""
        c = Counter()
        self.counters[threading.get_ident()] = c
        return c

    def arm(self, plan):
        t = threading.get_ident()
        if plan is None:
            plan = self.plans.pop(t, None)
            on = 0
        else:
            self.plans[t] = plan
            on = EV.INSTRUCTION
        if plan is not None and plan.sub is not None and not self.instructions and self.active:
            MON.register_callback(TOOL, EV.INSTRUCTION, self._on_alloc if on else None)
            for c in self.codes:
                MON.set_local_events(TOOL, c, EV.LINE | EV.CALL | on)

    def _on_line(self, code, line):
        if not self.active:
            return
        t = threading.get_ident()
        c = self.counters.get(t)
        if c is not None:
            c.lines += 1
        if not self.instructions:
            self.steps += 1
            seams.CLOCK.now += seams.CLOCK.tick
            if self.steps > self.budget:
                self.active = False
                raise NoProgress()
        p = self.plans.get(t)
        if p is not None and p.kind == "kbi" and not p.fired:
            p.count += 1
            if p.count == p.n:
                p.fired = True
                p.where = "%s:%d" % (code.co_qualname, line - code.co_firstlineno)
                raise InjectedInterrupt()

    def _on_call(self, code, off, fn, arg0):
        if not self.active:
            return
        # leaving a with block is a call too; a failure of that very call is not
        # a failure the toolbox can do anything about
        if getattr(fn, "__name__", "") in CLEANUP:
            return
        if isinstance(fn, type) and issubclass(fn, BaseException):
            return
        t = threading.get_ident()
        c = self.counters.get(t)
        if c is not None:
            c.calls += 1
        p = self.plans.get(t)
        if p is not None and p.kind == "oom" and not p.fired:
            p.count += 1
            if p.count == p.n and p.sub is None:
                p.fired = True
                p.where = "%s@%s" % (code.co_qualname, getattr(fn, "__name__", "?"))
                raise InjectedMemoryError("injected")

    # -- threads ----------------------------------------------------------
    def run(self, fns, sched):
        """Run the functions as threads under schedule sched (a Schedule)."""
        self.sched = sched
        self.clients = [_Client(i, f) for i, f in enumerate(fns)]
        self.by_ident = {}
        self.finished = seams.REAL["Lock"]()
        self.finished.acquire()
        sched.begin(self)
        threads = []
        for c in self.clients:
            th = threading.Thread(target=self._body, args=(c,), daemon=True)
            # Thread's own event uses locks of the threading module: real ones
            threads.append(th)
            th.start()
        first = sched.first(len(self.clients))
        self.switches.append([0, first])
        self._grant(self.clients[first])
        self.finished.acquire()
        for th in threads:
            th.join(20)
        for c in self.clients:
            if c.exc is not None and not isinstance(c.exc, (NoProgress, seams.Deadlock)):
                if isinstance(c.exc, Exception) and not isinstance(c.exc, (world.HarnessError, MemoryError, OSError)):
                    raise c.exc  # what an operation made could not be judged
                raise world.HarnessError("client died: %r" % (c.exc,))

    def _grant(self, c):
        self.cur = c
        c.gate.release()

    def _body(self, c):
        c.gate.acquire()
        self.by_ident[threading.get_ident()] = c
        try:
            if self.aborted is None:
                c.fn()
        except NoProgress as e:
            c.exc = e
            self.aborted = self.aborted or "no-progress"
        except seams.Deadlock as e:
            c.exc = e
            self.aborted = self.aborted or "deadlock"
        except BaseException as e:
            c.exc = e
            self.aborted = self.aborted or "harness"
        c.done = True
        nxt = self._pick(None)
        if nxt is None:
            left = [x for x in self.clients if not x.done]
            if left:
                self.aborted = self.aborted or "deadlock"
                self._grant(left[0])
            else:
                self.finished.release()
            return
        self.switches.append([self.steps, nxt.tid])
        self.places.append((nxt.tid, "end", 0))
        self._grant(nxt)

    def _runnable(self):
        out = []
        for c in self.clients:
            if c.done:
                continue
            if c.pred is not None and self.aborted is None:
                if not c.pred():
                    continue
            out.append(c)
        return out

    def _pick(self, cur):
        r = self._runnable()
        if not r:
            return None
        return self.sched.choose(self, cur, r)

    def me(self):
        return self.by_ident.get(threading.get_ident()) if self.clients else None

    def _switch_to(self, c, nxt, where):
        self.switches.append([self.steps, nxt.tid])
        self.places.append((nxt.tid,) + where)
        if self.on_switch is not None:
            self.on_switch(self, c)
        self._grant(nxt)
        c.gate.acquire()
        if self.aborted == "deadlock" and c.pred is not None:
            raise seams.Deadlock("deadlock")
        if self.aborted is not None:
            raise NoProgress()

    def _on_alloc(self, code, off):
        if not self.active:
            return
        p = self.plans.get(threading.get_ident())
        if p is None or p.sub is None or p.fired or p.count < p.n:
            return
        if off in alloc_offsets(code, self.ops_cache):
            p.past += 1
            if p.past > p.sub:
                p.fired = True
                p.where = "%s+%d" % (code.co_qualname, off)
                raise InjectedMemoryError("injected")

    def _on_instr(self, code, off):
        if not self.active:
            return
        if self.plans:
            self._on_alloc(code, off)
        c = self.cur
        self.steps += 1
        seams.CLOCK.now += seams.CLOCK.tick
        if self.steps > self.budget:
            self.aborted = "no-progress"
            raise NoProgress()
        if c is None or not self.clients:
            return
        if self.clock_jumps and self.steps >= self.clock_jumps[0][0]:
            seams.CLOCK.advance(self.clock_jumps.pop(0)[1])
            seams.CLOCK.jumps += 1
        if self.sched.due(self, code, off):
            nxt = self._pick(c)
            if nxt is not None and nxt is not c:
                self._switch_to(c, nxt, (code.co_qualname, off))

    def io_yield(self, what):
        """a scheduling point at the file seam"""
        c = self.me()
        if c is None or not self.active:
            return
        self.steps += 1
        if self.sched.due_io(self):
            nxt = self._pick(c)
            if nxt is not None and nxt is not c:
                self._switch_to(c, nxt, ("io", what))

    def yield_now(self):
        c = self.me()
        if c is None:
            return
        self.steps += 1
        others = [x for x in self._runnable() if x is not c]
        if others:
            self._switch_to(c, self.sched.choose(self, None, others), ("yield", 0))

    def block_until(self, pred):
        c = self.me()
        if c is None:
            raise seams.Deadlock("a lock is taken that nobody will release")
        while not pred():
            c.pred = pred
            self.steps += 1
            r = [x for x in self._runnable() if x is not c]
            if not r:
                self.aborted = "deadlock"
                self.deadlock = True
                raise seams.Deadlock("every client waits for a lock")
            nxt = self.sched.choose(self, None, r)
            self._switch_to(c, nxt, ("lock", 0))
        c.pred = None


# ---------------------------------------------------------------------------
def shared_offsets(code, cache):
    s = cache.get(code)
    if s is None:
        s = set()
        prev = None
        for i in dis.get_instructions(code):
            # what a call did may concern others too
            if i.opname in SHARED_OPS or prev in ("CALL", "CALL_FUNCTION_EX"):
                s.add(i.offset)
            prev = i.opname
        s = cache[code] = frozenset(s)
    return s


def alloc_offsets(code, cache):
    """the instructions that may need room for a new array"""
    s = cache.get(("alloc", code))
    if s is None:
        s = cache[("alloc", code)] = frozenset(
            i.offset
            for i in dis.get_instructions(code)
            if i.opname in ("BINARY_SUBSCR", "BINARY_SLICE", "UNARY_NEGATIVE")
            or i.opname == "BINARY_OP"
            and not i.argrepr.endswith("=")
        )
    return s


def store_offsets(code, cache):
    """the instructions right after a write to an attribute, a global or an item"""
    s = cache.get(("store", code))
    if s is None:
        s = set()
        prev = None
        for i in dis.get_instructions(code):
            if prev in STORE_OPS:
                s.add(i.offset)
            prev = i.opname
        s = cache[("store", code)] = frozenset(s)
    return s


class Schedule:
    """Seeded schedule; modes: uniform | shared | store | pct | serial | explicit."""

    def __init__(self, spec):
        self.spec = spec
        self.mode = spec.get("mode", "uniform")
        self.rng = random.Random(spec.get("seed", 0))

    def begin(self, sim):
        self.cache = {}
        if self.mode == "uniform":
            self.q = max(1.0, float(self.spec.get("q", 50)))
            self.next = self._gap(sim)
        elif self.mode in ("shared", "store"):
            self.p = float(self.spec.get("p", 0.1))
            self.hold = int(self.spec.get("hold", 0))
            self.quiet_until = 0
        elif self.mode == "pct":
            n = len(sim.clients)
            pr = list(range(n))
            self.rng.shuffle(pr)
            for c, x in zip(sim.clients, pr):
                c.prio = float(x + 10)
            self.best = max(range(n), key=lambda i: sim.clients[i].prio)
            total = max(10, int(self.spec.get("total", 5000)))
            d = int(self.spec.get("d", 3))
            self.points = sorted(self.rng.randrange(1, total) for _ in range(d))
            self.low = 5.0
        elif self.mode == "explicit":
            self.list = [list(x) for x in self.spec["switches"]]
            self.i = 1
            self.forced = None

    def first(self, n):
        if self.mode == "explicit":
            return self.list[0][1] if self.list and self.list[0][1] < n else 0
        if self.mode == "pct":
            return self.best
        return self.rng.randrange(n)

    def _gap(self, sim):
        return sim.steps + 1 + int(self.rng.expovariate(1.0 / self.q))

    def due(self, sim, code, off):
        m = self.mode
        if m == "uniform":
            if sim.steps >= self.next:
                self.next = self._gap(sim)
                return True
            return False
        if m == "shared":
            return off in shared_offsets(code, self.cache) and self.rng.random() < self.p
        if m == "store":
            # one client stops right after a write, the others go on for a while
            if sim.steps < self.quiet_until or off not in store_offsets(code, self.cache):
                return False
            if self.rng.random() < self.p:
                self.quiet_until = sim.steps + int(self.rng.random() * self.hold)
                return True
            return False
        if m == "pct":
            if self.points and sim.steps >= self.points[0]:
                self.points.pop(0)
                sim.cur.prio = self.low
                self.low -= 1.0
                return True
            return False
        if m == "explicit":
            return self.i < len(self.list) and sim.steps >= self.list[self.i][0]
        return False

    def due_io(self, sim):
        if self.mode == "explicit":
            return self.i < len(self.list) and sim.steps >= self.list[self.i][0]
        if self.mode == "pct":
            return self.due(sim, None, -1)
        if self.mode == "serial":
            return False
        return self.rng.random() < self.spec.get("pio", 0.5)

    def choose(self, sim, cur, runnable):
        """whom to run; cur is None when the running client cannot go on"""
        if self.mode == "explicit":
            # take the recorded decision, if it is possible here
            if self.i < len(self.list) and sim.steps >= self.list[self.i][0]:
                want = self.list[self.i][1]
                self.i += 1
                for c in runnable:
                    if c.tid == want:
                        return c
            if cur is not None:
                return cur
            return runnable[0]
        if self.mode == "pct":
            return max(runnable, key=lambda c: c.prio)
        if self.mode == "serial":
            if cur is not None:
                return cur
            return runnable[0]
        if cur is not None and len(runnable) > 1:
            runnable = [c for c in runnable if c is not cur]
        return self.rng.choice(runnable)
