"""C27: a program that runs on and on accumulates nothing."""
import copy
import gc
import os
import sys
import tempfile
import threading
import types
import weakref

import matplotlib.pyplot as plt
import numpy as np

from dst import data as D
from dst import engine as E
from dst import ops as O
from dst import sched, seams, world
from dst.props_fault import _fault, add_obj, bad_fn, bad_op, gen_disk
from dst.props_state import core_data

WINDOWS = 3
# growth per round that counts. What the toolbox can reach itself is counted exactly;
# the rest of the process always moves a little (free lists, caches that fill up)
LEAST = {"blocks": 5}
# rounds more when something seems to pile up: a store of limited size may fill, and be
# emptied now and then
MORE = (450, 1200)
STEPS = 15_000_000
PARTS = [5, 9, 4, 11, 3, 8, 6, 10, 7]
OUTSIDE = (type(sys), types.CodeType, types.BuiltinFunctionType, types.FrameType, weakref.ReferenceType)


def within(objs):
    """number of things the modules and classes of the toolbox and these objects hold"""
    mine = [m for m in list(sys.modules.values()) if str(getattr(m, "__file__", "")).startswith(world.PKG)]
    todo = [v for m in mine for k, v in list(vars(m).items()) if not k.startswith("__") or k == "__warningregistry__"] + list(objs)
    seen, n = {}, 0
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, OUTSIDE):
            continue
        seen[id(x)] = x
        if isinstance(x, type):
            if not x.__module__.startswith("deltares_wave_toolbox"):
                continue
            todo += list(vars(x).values())
        elif isinstance(x, types.FunctionType):
            if not x.__code__.co_filename.startswith(world.PKG):
                continue
            todo += [x.__dict__, x.__defaults__, x.__kwdefaults__, x.__closure__]
        elif isinstance(x, np.ndarray):
            n += x.size
            if x.dtype.hasobject:
                todo += list(x.reshape(-1))
        elif isinstance(x, (str, bytes, bytearray)):
            n += len(x) // 8
        else:
            if hasattr(x, "cache_info"):
                n += x.cache_info().currsize
            todo += gc.get_referents(x)
        n += 1
    return n


def other(defs, r, axes):
    """other records than those of the other rounds, at other times and frequencies"""
    for d in defs.values():
        d["seed"] = (d.get("seed", 0) + 7919 * r) % (1 << 30)
        for k in ("df", "dt"):
            if axes and isinstance(d.get(k), float):
                d[k] *= 1 + 1e-4 * (r % 5000)


def asked(op, r):
    """the same question with slightly other numbers"""
    if not r or "a" not in op:
        return op
    a = dict(op["a"])
    for k, v in a.items():
        if k == "seed":
            a[k] = v + r % 5000 if isinstance(v, int) and v >= 0 else v
        elif isinstance(v, float) and v > 0 and k not in ("tInit", "tEnd", "dt"):
            a[k] = v * (1 - 1e-5 * (r % 5000))
    return {**op, "a": a}


class C27:
    id = "C27"
    rule = (
        "the same work done round after round with new records, objects and realisations (queries, core "
        "calls, decompositions, plots saved and closed, refused calls, interrupts, failing allocations and "
        "disks, by one client or several), on objects that live for one round or for ever; after the first "
        "rounds nothing that was given up may stay (inputs, results, objects, figures), nor open files, "
        "threads or memory grow with the rounds; the last round asks what the first asked and gives the "
        "same answers in no more steps; non-trivial when a round asked for at least two things"
    )
    quick, thorough = 700, 12000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        if rng.random() < 0.6:
            scn["env"]["warn"] = "shown"
        plots = rng.random() < 0.15
        for j in range(rng.choice([1, 1, 2])):
            add_obj(rng, scn, j)
        names = list(scn["objs"])
        cores = []
        for j in range(rng.choice([0, 1, 1])):
            s2 = {"data": {}}
            core_data(rng, s2, 1, forms=0.2)
            scn["data"]["c%d" % j] = s2["data"]["d0"]
            cores.append("c%d" % j)
        multi = rng.random() < 0.2 and not plots
        keep = rng.random() < (0.6 if plots else 0.4)  # the objects live on

        def one():
            c = rng.random()
            o = rng.choice(names)
            cls, d = scn["objs"][o]["cls"], scn["data"]["d" + o[1:]]
            if cores and c < 0.4:
                n = rng.choice(cores)
                op = bad_fn(rng, n, scn["data"][n]) if rng.random() < 0.15 else O.fn_query(rng, n, scn["data"][n])
            elif plots and c < 0.7:
                op = O.plot_op(rng, o, cls, d)
                if rng.random() < 0.5:
                    op["a"]["savepath"] = "%" + rng.choice(["p.png", "p.png", "q.png", "nodir/p.png"])
            elif c < 0.5:
                op = bad_op(rng, o, cls, d)
                if op.get("m", "").startswith("plot") and not plots:
                    op = O.query(rng, o, cls, d)
            elif c < 0.56 and cls == "Spectrum" and d["nf"] > 1:
                op = {"op": "call", "obj": o, "m": "create_series", "a": {"tInit": 0.0, "tEnd": 10.0, "dt": 0.5}}
            elif c < 0.6 and not multi and not keep:
                op = {"op": "call", "obj": o, "m": "sort", "a": {}, "eff": True} if cls != "Spectrum" else {"op": "attrs", "obj": o}
            else:
                op = O.query(rng, o, cls, d)
            if op.get("m") == "create_series" or str(op.get("f")).startswith("core_spectral.spectrum2") and "seed" not in op["a"]:
                op["noref"] = True
            elif rng.random() < 0.25 and not op.get("eff"):
                if op.get("m", "").startswith("plot"):
                    # an interrupt may come just when the figure is handed over
                    op["fault"] = {"kind": "disk", "plan": gen_disk(rng)} if "savepath" in op["a"] else {"kind": "warn"}
                else:
                    op["fault"] = _fault(rng, multi)
            if op["op"] in ("attrs", "str") and "fault" not in op:
                op["noref"] = True
            return op

        scn["clients"] = [[one() for _ in range(rng.randrange(1, 3) if multi else rng.randrange(1, 6))] for _ in range(2 if multi else 1)]
        scn["keep"] = keep
        # tick labels differ from record to record, and matplotlib keeps their layout
        scn["vary"] = not plots
        scn["axes"] = rng.random() < 0.5
        scn["warm"] = 3 if plots else 8
        scn["rounds"] = rng.choice([8, 8, 12, 20]) if not plots and not multi else 4
        if multi:
            scn["sched"] = E.gen_sched(rng, 2)
        return scn

    @staticmethod
    def run(scn):
        refs, table = E.prepare(scn)
        for c, i, op in E.all_ops(scn):
            if not scn["vary"]:
                # a plot may show what was asked before it
                table.pop((c, i), None)
        run = C27.Run(scn)
        run.go()
        out = run.found + E.judge(run, table)
        if run.abort:
            out = [v for v in out if v["class"] == run.abort]
        return run, out, sum(map(len, scn["clients"])) > 1, refs

    class Run(E.Run):
        def __init__(self, scn):
            super().__init__(scn, keep=True)
            self.found = []
            self.passed = 0
            self.past = ""  # of the rounds gone by
            self.inter = self.inter0 = self.early = ""
            self.nops = self.nsw = 0
            self.refs = {k: [] for k in ("input", "result", "object", "figure")}
            self.given = dict.fromkeys(self.refs, 0)

        def state(self, r, last):
            """what the program has at the start of a round"""
            scn = self.scn
            if self.env is None or not scn["keep"]:
                s = scn
                if scn["vary"] and not last:
                    s = {**scn, "data": copy.deepcopy(scn["data"])}
                    other(s["data"], r, scn["axes"])
                self.env = O.Env(s)
                self.env.tmp = self.tmp
                E.build_objs(self.env)
            else:
                # new buffers, objects that live on
                s = copy.deepcopy(self.env.defs)
                if scn["vary"] and not last:
                    other(s, r, scn["axes"])
                self.env.data = {k: D.build(v) for k, v in s.items()}
                self.env.rets.clear()
                self.env.lists.clear()

        def note(self, kind, x):
            self.refs[kind].append(weakref.ref(x))
            self.given[kind] += 1

        def around(self, r, last=False):
            """one round"""
            scn, sim = self.scn, self.sim
            clients = scn["clients"]
            self.hist = []
            k = r if scn["axes"] and scn["vary"] and not last else 0
            sim.budget = sim.steps + self.share
            self.state(r, last)
            if len(clients) > 1:
                s0 = dict(scn["sched"])
                if s0["mode"] != "explicit":
                    s0["seed"] = s0.get("seed", 0) + 31 * r

                def body(c, lst):
                    def f():
                        for i, op in enumerate(lst):
                            self.do_op(c, i, asked(op, k))

                    return f

                sim.run([body(c, lst) for c, lst in enumerate(clients)], sched.Schedule(s0))
                self.abort = sim.aborted
                sim.clients = []
                sim.by_ident = {}
                self.nsw += len(sim.switches)
                self.past = world.digest([self.past, sim.switches])
                self.inter = world.digest([self.inter, sim.places])
                del sim.switches[:], sim.places[:]
            else:
                for i, op in enumerate(clients[0]):
                    self.do_op(0, i, asked(op, k))
            self.nops += len(self.hist)
            if r == 0 and not last:
                self.first = [rec.ret - rec.inv for rec in self.hist]
            if last or self.abort:
                self.mine = [rec.raw for rec in self.hist]
                return
            if not scn["keep"]:
                for o in self.env.objs.values():
                    self.note("object", o)
            for d in self.env.data.values():
                for a in O.arrays_of(d):
                    self.note("input", a)
            for rec in self.hist:
                own = self.env.objs.values() if scn["keep"] else ()
                held = {id(a) for o in own for a in O.arrays_of(o)}
                if isinstance(rec.raw, (tuple, list)) or hasattr(rec.raw, "savefig"):
                    for x in rec.raw if isinstance(rec.raw, (tuple, list)) else [rec.raw]:
                        if hasattr(x, "savefig"):
                            self.note("figure", x)
                            plt.close(x)
                if not hasattr(rec.raw, "savefig"):
                    for a in O.arrays_of(rec.raw):
                        if id(a) not in held:
                            self.note("result", a)
                rec.raw = None
            self.past = world.digest([self.past, [x.brief() for x in self.hist]])

        def count(self):
            gc.collect()
            for k, v in self.refs.items():
                self.refs[k] = [w for w in v if w() is not None]
            return {
                "open files": len(os.listdir("/proc/self/fd")),
                "threads": threading.active_count(),
                "figures": len(plt.get_fignums()),
                "things the toolbox holds": within(self.env.objs.values() if self.env and self.scn["keep"] else ()),
                # matplotlib keeps things of its own
                "blocks": sys.getallocatedblocks() if self.scn["vary"] else 0,
                **{k + "s": len(v) for k, v in self.refs.items() if k != "figure"},
                "figures of the past": len(self.refs["figure"]),
            }

        def go(self):
            scn = self.scn
            E.set_env(scn["env"])
            self.sim = sim = sched.Sim()
            self.share = int(scn.get("budget", 40_000_000))
            multi = len(scn["clients"]) > 1
            try:
                with tempfile.TemporaryDirectory(prefix="dst-run-") as tmp:
                    self.tmp = tmp
                    seams.DISK.reset(tmp)
                    seams.DISK.yields = multi
                    try:
                        sim.start(multi)
                        self.all()
                    except sched.NoProgress:
                        self.abort = "no-progress"
                    except seams.Deadlock:
                        self.abort = "deadlock"
                    seams.DISK.reset(None)
            finally:
                sim.stop()
            if self.abort == "harness":
                raise world.HarnessError("client thread died")
            return self

        def all(self):
            scn = self.scn
            K = scn["rounds"]
            r = 0
            for _ in range(scn["warm"]):
                self.around(r)
                if self.abort:
                    return
                r += 1
            for v in self.refs.values():
                v.clear()
            gc.collect()
            marks = [self.count()]
            for w in range(WINDOWS):
                for _ in range(K):
                    self.around(r)
                    if self.abort:
                        return
                    r += 1
                marks.append(self.count())
            bad = self.suspects(marks, [K] * WINDOWS)
            self.early, self.inter0 = self.past, self.inter
            if bad:
                # does it stop somewhere?
                a, b = MORE
                more = max(a, min(b, STEPS // (1 + self.sim.steps // r))) if scn["vary"] else 45
                marks, sizes = [self.count()], []
                for p in PARTS:
                    sizes.append(max(1, more * p // sum(PARTS)))
                    for _ in range(sizes[-1]):
                        self.around(r)
                        if self.abort:
                            return
                        r += 1
                    marks.append(self.count())
                again = self.suspects(marks, sizes)
                for k in bad:
                    if k in again:
                        self.found.append(E.viol("piles-up", "%s: more and more, round after round" % k))
            self.passed = r
            E.set_env(scn["env"])
            self.around(0, last=True)
            if self.abort or len(scn["clients"]) > 1:
                return
            for rec, n in zip(self.hist, self.first):
                if not rec.op.get("noref") and not rec.op.get("fault") and rec.ret - rec.inv > 1.5 * n + 200:
                    self.found.append(E.viol("slower", "takes %d steps after %d rounds, %d in the first" % (rec.ret - rec.inv, r, n), rec))

        def suspects(self, marks, sizes):
            """what grew in every window but the first, by one for two rounds at least"""
            out = []
            for k in marks[0]:
                if all(y[k] - x[k] >= LEAST.get(k, 0.5) * n for x, y, n in zip(marks[1:], marks[2:], sizes[1:])):
                    out.append(k)
            return out

        def trace(self):
            # how many rounds it takes to be sure is no part of the history
            last = [{k: v for k, v in r.brief().items() if k not in ("inv", "ret")} for r in self.hist]
            return world.digest([self.early or self.past, last, self.abort])

        def interleaving(self):
            return world.digest([self.inter0 or self.inter, [(r.c, r.i) for r in self.hist]])

        def stats(self):
            return {**super().stats(), "ops": self.nops, "switches": self.nsw}
