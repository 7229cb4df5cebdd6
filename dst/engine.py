"""One simulated run of a scenario, and the reference runs it is judged against.

A scenario is plain JSON:
  data, objs      what the program starts from
  setup           operations carried out one after the other
  clients         one list of operations per client thread
  finish          operations carried out after the clients are done
  sched           who runs when (seeded strategy, or an explicit list of switches)
  env             clock, entropy, generator state
An operation may carry "fault"; "eff": true marks an operation that by contract
changes what later operations answer (the reference for a later operation makes
the same ones before it, and nothing else).
"""
import errno
import json
import os
import random
import tempfile
import warnings

import numpy as np

from dst import ops, sched, seams, world
from dst.canon import canon, same, strip

def many(rng, lo, hi):
    """number of operations of a history, now and then a long one"""
    return rng.randrange(30, 70) if rng.random() < 0.03 else rng.randrange(lo, hi)


INJECTED = (sched.InjectedInterrupt, sched.InjectedMemoryError)


def clean(op):
    return {k: v for k, v in op.items() if k not in ("fault", "id", "eff", "save", "truth", "refuse", "noref")}


def set_env(e):
    seams.CLOCK.reset(e.get("clock", 1.0e9))
    seams.ENTROPY.reset(e.get("entropy", 1))
    np.random.seed(e.get("np_seed", 12345))
    random.seed(e.get("py_seed", 1))
    if e.get("warn") == "shown":
        # a program that sees warnings (and does not print them)
        warnings.resetwarnings()
        warnings.simplefilter("default")
        warnings.showwarning = unseen
    elif e.get("warn") == "all":
        # a program that sees every one of them
        del SEEN[:]
        warnings.resetwarnings()
        warnings.simplefilter("always")
        warnings.showwarning = seen
    else:
        warnings.simplefilter("ignore")


def unseen(*a, **k):
    pass


SEEN = []


def seen(message, category, *a, **k):
    SEEN.append(category)


REF_ENV = {"clock": 2.5e8, "entropy": 424242, "np_seed": 987654, "py_seed": 99}


class Refs:
    """Results of operations carried out alone, in pristine forked processes."""

    def __init__(self, scn):
        self.scn = scn
        self.cache = {}
        self.runs = 0

    def key(self, effects, op):
        return json.dumps([[clean(e) for e in effects], clean(op)], sort_keys=True)

    def get(self, effects, op, env=None):
        effects = involved(effects, op)
        k = self.key(effects, op) + (json.dumps(env, sort_keys=True) if env else "")
        if k not in self.cache:
            self.runs += 1
            self.cache[k] = world.fork_call(
                lambda: one_reference(self.scn, effects, op, env)
            )
        return self.cache[k]


def one_reference(scn, effects, op, env=None):
    set_env(env or REF_ENV)
    sim = sched.Sim(budget=60_000_000)
    e = ops.Env(scn)
    with tempfile.TemporaryDirectory(prefix="dst-ref-") as tmp:
        e.tmp = tmp
        try:
            sim.start(False)
            build_objs(e, names_in([effects, op]))
            for x in effects:
                try:
                    ops.run_op(e, clean(x))
                except Exception:
                    pass
            c = sim.count_op()
            out, _ = ops.outcome(e, clean(op))
        except sched.NoProgress:
            return {"out": ["hang"], "lines": 0, "calls": 0}
        finally:
            sim.stop()
    return {"out": out, "lines": c.lines, "calls": c.calls}


def names_in(x):
    """everything an operation may refer to by name"""
    if isinstance(x, str):
        return {x}
    if isinstance(x, dict):
        return set().union(*[names_in(v) for k, v in x.items() if k not in ("op", "m", "f", "fault")]) if x else set()
    if isinstance(x, (list, tuple)):
        return set().union(*[names_in(v) for v in x]) if x else set()
    return set()


def involved(effects, op):
    """the effects on objects the operation has to do with: what happens to other objects
    must make no difference, so that they have no place in a pristine process"""
    need, out = names_in(op), []
    for e in reversed(effects):
        n = names_in(e)
        if "obj" not in e or n & need:
            out.insert(0, e)
            need |= n
    return out


def build_objs(e, names=None):
    for name, d in e.scn.get("objs", {}).items():
        if names is not None and name not in names:
            continue
        try:
            e.objs[name] = ops.make(e, d)
        except Exception:
            pass


class Record:
    __slots__ = ("c", "i", "op", "inv", "ret", "out", "fired", "where", "extra", "raw")

    def __init__(self, c, i, op):
        self.c, self.i, self.op = c, i, op
        self.inv = self.ret = None
        self.out = None
        self.fired = None
        self.where = None
        self.extra = None
        self.raw = None

    def brief(self):
        return {
            "client": self.c,
            "op": clean(self.op),
            "inv": self.inv,
            "ret": self.ret,
            "fault": self.fired,
            "where": self.where,
            "out": strip(self.out),
        }


class Run:
    """Carries out a scenario. Hooks: before_op(run, rec), after_op(run, rec)."""

    def __init__(self, scn, before_op=None, after_op=None, on_switch=None, keep=False):
        self.scn = scn
        self.before_op = before_op
        self.after_op = after_op
        self.on_switch = on_switch
        self.keep = keep
        self.hist = []
        self.fault_counts = {}
        self.sim = None
        self.abort = None
        self.env = None

    def fired(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1

    def do_op(self, c, i, op):
        rec = Record(c, i, op)
        sim = self.sim
        f = op.get("fault")
        plan = None
        wctx = None
        dplan = None
        rec.inv = sim.steps
        if self.before_op:
            self.before_op(self, rec)
        if f:
            k = f["kind"]
            if k in ("kbi", "oom"):
                total = f["total"]
                if "sub" in f:
                    plan = sched.Plan(k, int(f["frac"] * (total + 1)), f["sub"])
                elif total > 0:
                    plan = sched.Plan(k, min(total, 1 + int(f["frac"] * total)))
            elif k == "warn":
                wctx = warnings.catch_warnings()
                wctx.__enter__()
                warnings.simplefilter("error")
            elif k == "disk":
                dplan = seams.DISK.arm({**f["plan"], "errno": getattr(errno, f["plan"].get("errno", "EIO"))})
            elif k == "draws":
                seams.DRAWS.used = 0
                seams.DRAWS.arm(f["how"], f.get("seed", 1))
        raw = None
        try:
            try:
                if plan is not None:
                    sim.arm(plan)
                raw = ops.run_op(self.env, op)
            finally:
                if plan is not None:
                    sim.arm(None)
                    if plan.fired:
                        rec.fired = plan.kind
                        rec.where = plan.where
                        self.fired(plan.kind)
        except INJECTED as e:
            rec.out = ["inj", type(e).__name__]
        except (KeyboardInterrupt, MemoryError) as e:
            rec.out = ["inj" if plan is not None and plan.fired else "err", type(e).__name__]
        except Exception as e:
            rec.out = ["err", type(e).__name__]
            rec.extra = str(e)[:200]
            if f and f["kind"] == "warn" and isinstance(e, Warning):
                rec.fired = "warn"
                self.fired("warning-as-error")
        else:
            rec.out = ["ok", canon(raw)]
            if "id" in op:
                self.env.rets[op["id"]] = raw
            if self.keep:
                rec.raw = raw
        finally:
            if wctx is not None:
                wctx.__exit__(None, None, None)
            if dplan is not None:
                seams.DISK.arm(None)
                if dplan["fired"]:
                    rec.fired = "disk"
                    for x in dplan["fired"]:
                        self.fired("disk-" + x)
            if f and f["kind"] == "draws":
                seams.DRAWS.disarm()
                if seams.DRAWS.used:
                    rec.fired = "draws"
                    self.fired("draw-" + f["how"])
        if op["op"] in ("npseed", "clock", "refill", "scribble", "scribble_ret", "pickle", "deepcopy"):
            self.fired("driver-" + op["op"])
        rec.ret = sim.steps
        self.hist.append(rec)
        if self.after_op:
            self.after_op(self, rec)
        return rec

    def go(self):
        scn = self.scn
        set_env(scn.get("env", {}))
        clients = scn.get("clients", [])
        multi = len(clients) > 1
        self.sim = sim = sched.Sim(budget=int(scn.get("budget", 40_000_000)))
        self.env = ops.Env(scn)
        try:
            with tempfile.TemporaryDirectory(prefix="dst-run-") as tmp:
                self.env.tmp = tmp
                seams.DISK.reset(tmp)
                seams.DISK.yields = multi
                self._go(scn, clients, multi, sim)
                seams.DISK.reset(None)
        finally:
            sim.stop()
        return self

    def _go(self, scn, clients, multi, sim):
        try:
            sim.start(multi)
            build_objs(self.env)
            for i, op in enumerate(scn.get("setup", [])):
                self.do_op(-1, i, op)
            if self.scn.get("jumps"):
                sim.clock_jumps = [[sim.steps + a, b] for a, b in self.scn["jumps"]]
            if multi:
                sim.on_switch = self.on_switch and (lambda s, c: self.on_switch(self))

                def body(c, lst):
                    def f():
                        for i, op in enumerate(lst):
                            self.do_op(c, i, op)

                    return f

                sim.run([body(c, lst) for c, lst in enumerate(clients)], sched.Schedule(scn["sched"]))
                self.abort = sim.aborted
                sim.clients = []
            elif clients:
                for i, op in enumerate(clients[0]):
                    self.do_op(0, i, op)
            if self.abort is None:
                for i, op in enumerate(scn.get("finish", [])):
                    self.do_op(-2, i, op)
        except sched.NoProgress:
            self.abort = "no-progress"
        except seams.Deadlock:
            self.abort = "deadlock"
        if self.abort == "harness":
            raise world.HarnessError("client thread died")

    # -- what a run explored ----------------------------------------------
    def trace(self):
        return world.digest(
            [
                self.sim.switches,
                [r.brief() for r in self.hist],
                self.abort,
            ]
        )

    def interleaving(self):
        return world.digest([self.sim.places, [(r.c, r.i) for r in self.hist]])

    def stats(self):
        return {
            "steps": self.sim.steps,
            "switches": len(self.sim.switches),
            "vtime": seams.CLOCK.now - seams.CLOCK.start,
            "clock_jumps": seams.CLOCK.jumps,
            "clock_reads": seams.CLOCK.reads,
            "entropy_reads": seams.ENTROPY.reads,
            "ops": len(self.hist),
            "faults": self.fault_counts,
        }


# ---------------------------------------------------------------------------
def effects_before(scn, where, idx, pred=None):
    """operations marked "eff" that precede operation idx of list `where`"""
    out = []
    for op in scn.get("setup", [])[: idx if where == -1 else None]:
        if op.get("eff"):
            out.append(op)
    if where == -1:
        return out
    if where >= 0:
        for op in scn["clients"][where][:idx]:
            if op.get("eff"):
                out.append(op)
        return out
    for lst in scn.get("clients", []):
        for op in lst:
            if op.get("eff"):
                out.append(op)
    for op in scn.get("finish", [])[:idx]:
        if op.get("eff"):
            out.append(op)
    return out


def all_ops(scn):
    for i, op in enumerate(scn.get("setup", [])):
        yield -1, i, op
    for c, lst in enumerate(scn.get("clients", [])):
        for i, op in enumerate(lst):
            yield c, i, op
    for i, op in enumerate(scn.get("finish", [])):
        yield -2, i, op


TOOLBOX_OPS = ("call", "fn", "new", "attrs", "attr", "str")


def prepare(scn, need=None):
    """Reference results for every operation of the toolbox, and the totals fault
    positions refer to. Returns (Refs, {(client, i): reference})."""
    refs = Refs(scn)
    table = {}
    lines = 0
    for c, i, op in all_ops(scn):
        if op["op"] in TOOLBOX_OPS and not op.get("noref"):
            r = refs.get(effects_before(scn, c, i), op)
            table[(c, i)] = r
            lines += r["lines"]
            f = op.get("fault")
            if f and f["kind"] in ("kbi", "oom"):
                f["total"] = r["lines"] if f["kind"] == "kbi" else r["calls"]
    # operations without a reference (unseeded syntheses) are not counted in lines
    scn["budget"] = 20_000_000 + 100 * lines
    if scn.get("sched", {}).get("mode") == "pct" and "total" not in scn["sched"]:
        scn["sched"]["total"] = 10 * lines + 10
    return refs, table


def viol(cls, detail, rec=None, **kw):
    d = {"class": cls, "detail": detail}
    if rec is not None:
        d["op"] = clean(rec.op)
        d["client"] = rec.c
        d["index"] = rec.i
        d["step"] = rec.ret
        if rec.fired:
            d["fault"] = "%s at %s" % (rec.fired, rec.where)
    d.update(kw)
    return d


def judge(run, table, allow_injected=True):
    """every finished operation against its reference"""
    out = []
    if run.abort:
        done = {(r.c, r.i) for r in run.hist}
        left = [
            [c, i, clean(op)] for c, i, op in all_ops(run.scn) if (c, i) not in done
        ]
        out.append(viol(run.abort, "unfinished operations: %s" % json.dumps(left)[:400]))
    for rec in run.hist:
        ref = table.get((rec.c, rec.i))
        if ref is None:
            continue
        if ref["out"][0] == "hang":
            out.append(viol("no-progress", "does not finish even on its own", rec))
            continue
        if rec.fired and rec.out[0] in ("inj", "err") and allow_injected:
            continue
        d = differs(rec.out, ref["out"])
        if d:
            out.append(viol("wrong-result", d, rec))
    return out


def differs(out, ref):
    if out[0] != ref[0]:
        return "%s instead of %s" % (_short(out), _short(ref))
    if out[0] == "ok":
        return same(out[1], ref[1])
    if out[1] != ref[1]:
        return "raises %s instead of %s" % (out[1], ref[1])
    return None


def _short(o):
    if o[0] == "ok":
        return "a result"
    return "raises " + str(o[1])


# ---------------------------------------------------------------------------
def gen_sched(rng, nclients):
    c = rng.random()
    if c < 0.22:
        return {"mode": "uniform", "q": rng.choice([3, 10, 30, 100, 300]), "seed": rng.randrange(1 << 30)}
    if c < 0.5:
        return {"mode": "store", "p": rng.choice([0.2, 0.5, 0.9]), "hold": rng.choice([0, 100, 1000, 10000]), "seed": rng.randrange(1 << 30)}
    if c < 0.7:
        return {"mode": "shared", "p": rng.choice([0.02, 0.1, 0.3]), "seed": rng.randrange(1 << 30)}
    return {"mode": "pct", "d": rng.choice([1, 2, 3, 5]), "seed": rng.randrange(1 << 30)}


def gen_env(rng):
    return {
        "clock": rng.choice([0.0, 1.0e9, 1.7e9, 4.1e9]) + rng.randrange(1000),
        "entropy": rng.randrange(1 << 30),
        "np_seed": rng.randrange(1 << 30),
        "py_seed": rng.randrange(1 << 30),
    }


def gen_jumps(rng):
    if rng.random() < 0.5:
        return []
    return sorted([rng.randrange(1, 3000), rng.choice([3600.0, -3600.0, 1e6, -1e8])] for _ in range(rng.randrange(1, 4)))


CLS = {"series": "Series", "waves": "WaveHeights", "spec": "Spectrum"}
