"""C09, C10, C14, C17: failures, inputs, settings, gauge records."""
import gc
import json
import locale
import logging
import os
import random as pyrandom
import signal
import sys
import threading
import warnings

import numpy as np

from dst import data as D
from dst import engine as E
from dst import ops as O
from dst import world
from dst.canon import canon, same
from dst.props_state import core_data, waves_or_series


def add_obj(rng, scn, j, big=False, form=0.2):
    n = "o%d" % j
    if rng.random() < 0.4:
        scn["data"]["d%d" % j] = D.gen_form(rng, D.gen_spec(rng, big=big), form)
        scn["objs"][n] = {"cls": "Spectrum", "data": "d%d" % j}
    else:
        waves_or_series(rng, n, scn, big=big)
    D.add_special(rng, scn["data"]["d%d" % j], 0.05)
    return n


def bad_op(rng, o, cls, d):
    """a request the toolbox cannot fulfil (or only for some objects)"""

    def call(m, **a):
        return {"op": "call", "obj": o, "m": m, "a": a}

    if cls == "Spectrum":
        fm = d.get("f0", 0.0) + d["nf"] * d["df"]
        m = rng.choice(O.SPEC_GETTERS)
        return call(m, **rng.choice([{"fmin": 3 * fm}, {"fmin": 0.5 * fm, "fmax": 0.1 * fm}, {"fmax": -5.0}, {"fmin": {"arr": [0.1, 0.2]}}]))
    c = rng.random()
    if cls == "Series" and c < 0.5:
        return rng.choice(
            [
                lambda: call("get_crossing", typeCross="sideways"),
                lambda: call("get_spectrum", use_dfDesired=False, nperseg=16, noverlap=16),
                lambda: call("get_spectrum", use_dfDesired=False, nperseg=16, windows_type="nosuch"),
                lambda: call("get_spectrum", dfDesired=0.0),
                lambda: call("get_bandpassfilter", fmin={"arr": [0.1, 0.2]}, fmax=1.0),
                lambda: call("get_spectrum_raw", dfDesired={"arr": [0.1, 0.2]}),
            ]
        )()
    return rng.choice(
        [
            lambda: call("get_exceedance_waveheight", excPerc=rng.choice([-1, 150, 1e9])),
            lambda: call("highest_waves", fracP=rng.choice([-0.5, 7.0])),
            lambda: call("get_exceedance_waveheight", excPerc={"arr": [1.0, 2.0]}),
            lambda: call("plot_exceedance_waveheight_Rayleigh", plot_BG=True),
        ]
    )()


def bad_fn(rng, name, d):
    """a core call that is refused"""
    A = "@" + name + "."

    def fn(f, /, **a):
        return {"op": "fn", "f": f, "a": a}

    t = d["type"]
    short = {"arr": [1.0, 2.0, 3.5]}
    if t == "series":
        return rng.choice(
            [
                fn("core_spectral.time2freq", t=short, xTime=A + "xTime"),
                fn("core_spectral.compute_spectrum_time_series", t=A + "time", xTime=short, dfDesired=0.1),
                fn("core_time.determine_zero_crossing", t=A + "time", xTime=A + "xTime", typeCross="across"),
                fn("core_spectral.bandpassfilter", t=A + "time", xTime=short, flow=0.0, fhigh=1.0),
            ]
        )
    if t == "spec":
        return rng.choice(
            [
                fn("core_wavefunctions.compute_spectrum_params", f=A + "f", sVarDens=short),
                fn("core_wavefunctions.compute_moment", f=A + "f", sVarDens=short, m=0),
                fn("core_wavefunctions.tpd", f=short, sVarDens=A + "S"),
                fn("core_spectral.spectrum2timeseries", f=A + "f", sVarDens=short, tInit=0.0, tEnd=10.0, dt=0.5, seed=1),
                fn("core_spectral.spectrum2timeseries", f=A + "f", sVarDens=A + "S", tInit=0.0, tEnd=10.0, dt=0.0, seed=1),
            ]
        )
    if t == "gauges":
        return fn("core_wave_decomposition.decompose_linear_ZS", t=A + "t", xTime=A + "X", h=d["h"], x_loc=short, w_loc=A + "w_loc")
    if t == "waves":
        return fn("core_time.exceedance_wave_height", hWaveSorted=A + "hwave", excPerc=-3)
    if t == "freq":
        return fn("core_spectral.coherence", f=A + "f", xFreq1=A + "x1", xFreq2=short, dfDesired=0.0)
    return fn("core_wavefunctions.create_spectrum_jonswap", f=A + "f", fp=0.1, hm0={"arr": [1.0, 2.0]})


def _fault(rng, multi, kinds=("kbi", "oom", "warn")):
    k = rng.choice([x for x in kinds if not (multi and x == "warn")])
    f = {"kind": k}
    if k != "warn":
        f["frac"] = round(rng.random(), 4)
    if k == "oom" and rng.random() < 0.4:
        f["sub"] = rng.choice([0, 0, 0, 1, 1, 2, 4])
    return f


# ---------------------------------------------------------------------------
class C09:
    id = "C09"
    rule = (
        "operations on objects, core calls, seeded realisations and decompositions of which "
        "some are cut short (interrupt at any line, failing allocation at any call, warning "
        "raised as error) or refused (bad arguments), alone or next to other clients; every "
        "other operation and every retry against a pristine process in which the failing "
        "operations never happened; non-trivial when a failure took place"
    )
    quick, thorough = 2200, 30000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        for j in range(rng.choice([1, 1, 2])):
            add_obj(rng, scn, j, big=rng.random() < 0.02)
        names = list(scn["objs"])
        cores = []
        if rng.random() < 0.5:
            s2 = {"data": {}}
            core_data(rng, s2, 1, forms=0.2)
            scn["data"]["c0"] = s2["data"]["d0"]
            cores.append("c0")
        multi = rng.random() < 0.35

        def good():
            if cores and rng.random() < 0.4:
                return O.fn_query(rng, "c0", scn["data"]["c0"])
            o = rng.choice(names)
            cls, d = scn["objs"][o]["cls"], scn["data"]["d" + o[1:]]
            c = rng.random()
            if c < 0.08:
                op = O.plot_op(rng, o, cls, d)
                if cls == "Spectrum":
                    op["a"]["plot_periods"] = False
                return op
            if c < 0.16 and d["type"] != "waves":
                return O.fn_query(rng, "d" + o[1:], {**d, "type": d["type"]})
            if c < 0.22:
                return {"op": "new", "obj": "n" + o, "cls": cls, "data": "d" + o[1:]}
            if c < 0.27:
                return {"op": "attrs", "obj": o}
            return O.query(rng, o, cls, d)

        def refused():
            if cores and rng.random() < 0.4:
                return bad_fn(rng, "c0", scn["data"]["c0"])
            o = rng.choice(names)
            return bad_op(rng, o, scn["objs"][o]["cls"], scn["data"]["d" + o[1:]])

        def some(lst, n):
            while len(lst) < n:
                c = rng.random()
                if c < 0.4:
                    op = good()
                    op["fault"] = _fault(rng, multi)
                    lst.append(op)
                    if rng.random() < 0.6:
                        lst.append({k: v for k, v in op.items() if k != "fault"})
                elif c < 0.52:
                    lst.append(refused())
                elif c < 0.6 and not multi and any(scn["objs"][o]["cls"] != "Spectrum" for o in names):
                    o = rng.choice([o for o in names if scn["objs"][o]["cls"] != "Spectrum"])
                    if rng.random() < 0.5:
                        lst.append({"op": "call", "obj": o, "m": "sort", "a": {}, "eff": True})
                    else:
                        lst.append({"op": "call", "obj": o, "m": "sort", "a": {}, "fault": _fault(rng, False, ("oom",))})
                else:
                    lst.append(good())
            return lst

        if multi:
            scn["clients"] = [some([], rng.randrange(2, 4)) for _ in range(rng.choice([2, 2, 3]))]
            scn["sched"] = E.gen_sched(rng, 2)
        else:
            scn["clients"] = [some([], rng.randrange(4, 11))]
        scn["finish"] = []
        for o in names:
            scn["finish"].append({"op": "attrs", "obj": o})
            scn["finish"].append(O.query(rng, o, scn["objs"][o]["cls"], scn["data"]["d" + o[1:]]))
        return scn

    @staticmethod
    def run(scn):
        refs, table = E.prepare(scn)
        run = E.Run(scn).go()
        # a sort whose failure was swallowed: whether it took place is not known
        unsure = {}
        for r in run.hist:
            if r.op.get("m") == "sort" and r.op.get("fault") and r.out[0] == "ok":
                unsure.setdefault(r.op["obj"], r.inv)
        t = dict(table)
        for r in run.hist:
            if r.op.get("obj") in unsure and r.inv > unsure[r.op["obj"]]:
                t.pop((r.c, r.i), None)
        out = E.judge(run, t)
        bad = any(r.out[0] != "ok" for r in run.hist if r.op["op"] in E.TOOLBOX_OPS)
        return run, out, bad, refs


# ---------------------------------------------------------------------------
def freeze(v):
    if isinstance(v, np.ndarray):
        return (v.dtype.str, v.shape, v.flags.writeable, v.flags.c_contiguous, v.strides, v.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [freeze(x) for x in v])
    return repr(v)


def _same_content(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.tobytes() == b.tobytes()
    return repr(a) == repr(b)


class C10:
    id = "C10"
    rule = (
        "core calls, constructors, queries, sort() and plots on arrays the caller holds, as "
        "vectors, columns, strided views, lists and read-only arrays, also cut short by "
        "interrupts and failing allocations and by interleaved clients; every array and list "
        "byte for byte after each operation and at each switch of clients, and the same "
        "results from a read-only array as from a writable one; non-trivial when at least "
        "two operations took input from the caller"
    )
    quick, thorough = 4000, 40000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        multi = rng.random() < 0.35
        big = not multi and rng.random() < 0.08
        core_data(rng, scn, rng.choice([1, 2] if big else [1, 2, 3]), big=big, forms=0.0)
        for n, d in scn["data"].items():
            D.add_special(rng, d, 0.15)
            if d["type"] != "gauges" and rng.random() < (0.3 if big else 0.6):
                d["form"] = rng.choice(["ro", "ro", "strided", "fortran2", "list", "col"])
        for n, d in list(scn["data"].items()):
            if d["type"] in E.CLS and d["type"] != "freq":
                scn["objs"]["o" + n] = {"cls": E.CLS[d["type"]], "data": n}
            if d["type"] == "gauges":
                for j in range(len(d["x"])):
                    scn["objs"]["g%d%s" % (j, n)] = {"cls": "Gauge", "data": n, "col": j}
        names = list(scn["data"])

        def one():
            n = rng.choice(names)
            d = scn["data"][n]
            c = rng.random()
            if d["type"] == "gauges" and c < 0.6:
                return {
                    "op": "fn",
                    "f": "core_wave_decomposition.decompose_linear_ZS_series",
                    "a": {"Series_objects": {"objs": ["g%d%s" % (j, n) for j in range(len(d["x"]))]}, "h": d["h"], "x_loc": "@%s.x_loc" % n, "w_loc": "@%s.w_loc" % n},
                }
            if d["type"] in E.CLS and d["type"] != "freq" and c < 0.45:
                if c < 0.12:
                    return {"op": "new", "obj": "n%s%d" % (n, rng.randrange(9)), "cls": E.CLS[d["type"]], "data": n}
                o, cls = "o" + n, E.CLS[d["type"]]
                if cls != "Spectrum" and c < 0.2 and not multi:
                    return {"op": "call", "obj": o, "m": "sort", "a": {}, "eff": True}
                if c < 0.26 and not multi:
                    op = O.plot_op(rng, o, cls, d)
                    op["noref"] = True
                    return op
                return O.query(rng, o, cls, d)
            if c < 0.5:
                return bad_fn(rng, n, d)
            return O.fn_query(rng, n, d)

        def some(k):
            lst = []
            for _ in range(k):
                op = one()
                if rng.random() < 0.2 and not op.get("eff") and not op.get("noref"):
                    op["fault"] = _fault(rng, True)
                lst.append(op)
            return lst

        if multi:
            scn["clients"] = [some(rng.randrange(1, 4)) for _ in range(rng.choice([2, 2, 3]))]
            scn["sched"] = E.gen_sched(rng, 2)
        else:
            scn["clients"] = [some(E.many(rng, 2, 8))]
        return scn

    @staticmethod
    def run(scn):
        # the references work on plain writable vectors
        plain = json.loads(json.dumps(scn))
        for d in plain["data"].values():
            if d.get("form") in ("ro", "strided", "fortran2"):
                del d["form"]
        refs, table = E.prepare(plain)
        for k in ("clients", "budget", "sched"):
            if k in plain:
                scn[k] = plain[k]
        out = []
        start, args = {}, {}

        def look(run, where, rec=None):
            if out:
                return
            for n, d in run.env.data.items():
                for k, v in d.items():
                    now = freeze(v)
                    if start[(n, k)] != now:
                        out.append(E.viol("input-changed", "%s.%s %s: %s" % (n, k, where, what(start[(n, k)], now)), rec))
                        return
            for n, o in run.env.objs.items():
                if scn["objs"].get(n, {}).get("cls") == "Gauge":
                    d = same(canon(o), args[n])
                    if d:
                        out.append(E.viol("input-changed", "Series argument %s %s: %s" % (n, where, d), rec))
                        return
            for k, lst in run.env.lists.items():
                if [id(x) for x in lst] != [id(run.env.objs[x]) for x in k.split("/")]:
                    out.append(E.viol("input-changed", "list of Series %s" % where, rec))
                    return

        def what(a, b):
            if a[0] != b[0] or not isinstance(a, tuple) or len(a) < 6:
                return "type or content"
            for i, t in enumerate(("dtype", "shape", "writeable flag", "contiguity", "strides", "content")):
                if a[i] != b[i]:
                    return t
            return "content"

        class R(E.Run):
            def do_op(self, c, i, op):
                if not start:
                    for n, d in self.env.data.items():
                        for k, v in d.items():
                            start[(n, k)] = freeze(v)
                    for n, o in self.env.objs.items():
                        if scn["objs"].get(n, {}).get("cls") == "Gauge":
                            args[n] = canon(o)
                self.env.args = self.env.args if self.env.args is not None else {}
                rec = super().do_op(c, i, op)
                look(self, "after the operation", rec)
                a, was = self.env.args.pop(id(op), ({}, {}))
                for n, v in was.items():
                    if not out and not _same_content(a[n], v):
                        out.append(E.viol("input-changed", "argument %s: %.80r, was %.80r" % (n, a[n], v), rec))
                return rec

        run = R(scn, on_switch=lambda r: look(r, "while an operation runs")).go()
        out += E.judge(run, table)
        return run, out, len(run.hist) >= 2, refs


# ---------------------------------------------------------------------------
def settings():
    """process-wide settings a program shares with everything it imports"""
    import decimal

    import matplotlib
    import matplotlib.pyplot as plt
    import scipy.fft
    import scipy.special

    po = np.get_printoptions()
    root = logging.getLogger()
    return {
        "matplotlib rcParams": {k: repr(v) for k, v in dict.items(matplotlib.rcParams)},
        "matplotlib backend": matplotlib.get_backend(),
        "matplotlib interactive": plt.isinteractive(),
        "matplotlib logger": logging.getLogger("matplotlib").level,
        "warning filters": [repr(f) for f in warnings.filters],
        "warnings.showwarning": id(warnings.showwarning),
        "numpy errors": (dict(np.geterr()), repr(np.geterrcall())),
        "numpy print options": {k: repr(v) for k, v in po.items()},
        "numpy buffer size": np.getbufsize(),
        "numpy functions": [id(getattr(np.random, n)) for n in ("rand", "seed", "default_rng", "RandomState")] + [id(np.random.mtrand._rand)],
        "scipy fft workers": scipy.fft.get_workers(),
        "scipy special errors": dict(scipy.special.geterr()),
        "decimal context": repr(decimal.getcontext()),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "umask": _umask(),
        "locale": locale.setlocale(locale.LC_ALL),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "module path": list(sys.path),
        "hooks": [id(sys.excepthook), id(sys.displayhook), id(sys.stdout), id(sys.stderr), repr(sys.gettrace()), repr(sys.getprofile())],
        "signals": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        "root logger": (root.level, [id(h) for h in root.handlers], root.disabled, logging.root.manager.disable),
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "threads": sorted(t.name for t in threading.enumerate() if not t.daemon),
        "python generator": repr(pyrandom.getstate())[:20000],
    }


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def np_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:])


def changed(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                keys = [x for x in a[k] if b[k].get(x) != a[k][x]] + [x for x in b[k] if x not in a[k]]
                return "%s: %s" % (k, ", ".join("%s=%s, was %s" % (x, str(b[k].get(x))[:60], str(a[k].get(x))[:60]) for x in keys[:3]))
            return "%s: %s, was %s" % (k, str(b[k])[:120], str(a[k])[:120])
    return None


class C14:
    id = "C14"
    rule = (
        "a program with settings of its own (numpy error handling, warning filters, print "
        "options, matplotlib parameters) carries out queries, core calls, plots with and "
        "without files and realisations, some refused, failing or meeting a full disk, some "
        "by interleaved clients; the settings after each operation (when clients overlap: at "
        "the end) against those before; non-trivial when the program's settings are not the "
        "defaults or an operation failed"
    )
    quick, thorough = 2000, 20000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        if rng.random() < 0.7:
            scn["env"]["warn"] = "shown"
        for j in range(rng.choice([1, 2])):
            add_obj(rng, scn, j, big=rng.random() < 0.04)
        names = list(scn["objs"])
        s2 = {"data": {}}
        core_data(rng, s2, 1, forms=0.2)
        scn["data"]["c0"] = s2["data"]["d0"]
        multi = rng.random() < 0.45
        scn["setup"] = []
        for _ in range(rng.randrange(0, 4)):
            scn["setup"].append({"op": "setting", "w": rng.choice(SETTINGS)})
        k = [0]

        def ask():
            o = rng.choice(names)
            cls, d = scn["objs"][o]["cls"], scn["data"]["d" + o[1:]]
            if rng.random() < 0.4:
                return O.fn_query(rng, "c0", scn["data"]["c0"])
            return O.query(rng, o, cls, d)

        def one():
            c = rng.random()
            o = rng.choice(names)
            cls, d = scn["objs"][o]["cls"], scn["data"]["d" + o[1:]]
            if c < 0.3:
                op = O.fn_query(rng, "c0", scn["data"]["c0"])
            elif c < 0.36:
                op = bad_fn(rng, "c0", scn["data"]["c0"])
            elif c < 0.42:
                op = bad_op(rng, o, cls, d)
            elif c < 0.46:
                op = {"op": "new", "obj": "n", "cls": cls, "data": "d" + o[1:]}
            elif c < 0.49:
                op = O.bg_op(rng)
            elif c < 0.53 and cls == "Spectrum":
                fm = d.get("f0", 0.0) + (d["nf"] - 1) * d["df"]
                dt = round(0.5 / fm, 3) or 0.01
                op = {"op": "call", "obj": o, "m": "create_series", "a": {"tstart": 0.0, "tend": 20 * dt, "dt": dt}}
            elif c < 0.78:
                op = O.plot_op(rng, o, cls, d)
                if rng.random() < 0.5 and not multi:
                    k[0] += 1
                    op["a"]["savepath"] = "%%p%d.png" % k[0]
                    if rng.random() < 0.4:
                        op["fault"] = {"kind": "disk", "plan": gen_disk(rng)}
                    elif rng.random() < 0.2:
                        op["a"]["savepath"] = "%nodir/p.png"
            else:
                op = O.query(rng, o, cls, d)
            if "fault" not in op and rng.random() < 0.2:
                op["fault"] = _fault(rng, False, ("oom",))
            return op

        if multi:
            if rng.random() < 0.6:
                # clients that are in the same code at the same time
                same = [ask() if rng.random() < 0.7 else one() for _ in range(rng.randrange(1, 4))]
                scn["clients"] = [json.loads(json.dumps(same)) for _ in range(rng.choice([2, 2, 3]))]
                if rng.random() < 0.5:
                    scn["sched"] = rng.choice([{"mode": "shared", "p": rng.choice([0.3, 0.5])}, {"mode": "uniform", "q": rng.choice([3, 8, 20])}])
                    scn["sched"]["seed"] = rng.randrange(1 << 30)
            else:
                scn["clients"] = [[one() for _ in range(rng.randrange(1, 4))] for _ in range(2)]
            scn.setdefault("sched", E.gen_sched(rng, len(scn["clients"])))
        else:
            scn["clients"] = [[one() for _ in range(E.many(rng, 3, 8))]]
        return scn

    @staticmethod
    def run(scn):
        scn["budget"] = 20_000_000
        refs = E.Refs(scn)
        lines = 0
        for c, i, op in E.all_ops(scn):
            f = op.get("fault")
            if op["op"] in E.TOOLBOX_OPS and f and f["kind"] == "oom":
                r = refs.get([], op)
                f["total"] = r["calls"]
                lines += r["lines"]
        if scn.get("sched", {}).get("mode") == "pct":
            scn["sched"].setdefault("total", 10 * lines + 4000)
        out = []
        box = {}

        class R(E.Run):
            def do_op(self, c, i, op):
                single = c < 0 or len(self.scn["clients"]) == 1
                if op["op"] == "setting":
                    rec = super().do_op(c, i, op)
                    box["base"] = settings()
                    return rec
                # a setting the program made may be taken over by the settings proper
                if "base" not in box:
                    box["base"] = settings()
                    box["np"] = np_state()
                s0 = settings() if single else None
                g0 = np_state() if single else None
                rec = super().do_op(c, i, op)
                if single and op["op"] in E.TOOLBOX_OPS:
                    d = changed(s0, settings())
                    if d:
                        out.append(E.viol("setting-changed", d, rec))
                    unseeded = op.get("m") == "create_series" or ("spectrum2timeseries" in op.get("f", "") and "seed" not in op["a"])
                    if not unseeded and np_state() != g0:
                        out.append(E.viol("setting-changed", "state of numpy's global generator", rec))
                return rec

        class RR(R):
            def _go(self, *a):
                super()._go(*a)
                if self.abort:
                    out.append(E.viol(self.abort, "operations do not finish"))
                elif "base" in box:
                    d = changed(box["base"], settings())
                    if d and not out:
                        out.append(E.viol("setting-changed", "at the end: " + d))

        run = RR(scn).go()
        bad = bool(scn.get("setup")) or any(r.out[0] != "ok" for r in run.hist)
        return run, out, bad, refs


SETTINGS = [
    "np.raise-over",
    "np.ignore",
    "np.warn",
    "print",
    "filter-error-deprecation",
    "filter-ignore",
    "rc-font",
    "rc-grid",
    "rc-style",
    "decimal",
    "special",
    "bufsize",
    "recursion",
]


def apply_setting(w):
    import decimal

    import matplotlib
    import scipy.special

    if w == "np.raise-over":
        np.seterr(over="raise")
    elif w == "np.ignore":
        np.seterr(all="ignore")
    elif w == "np.warn":
        np.seterr(all="warn", under="ignore")
    elif w == "print":
        np.set_printoptions(precision=3, suppress=True)
    elif w == "filter-error-deprecation":
        warnings.filterwarnings("error", category=DeprecationWarning, module="nosuch")
    elif w == "filter-ignore":
        warnings.filterwarnings("ignore", message="nothing")
    elif w == "rc-font":
        matplotlib.rcParams["font.size"] = 9.0
    elif w == "rc-grid":
        matplotlib.rcParams["axes.grid"] = True
    elif w == "rc-style":
        matplotlib.rcParams["lines.linewidth"] = 2.5
        matplotlib.rcParams["figure.figsize"] = [5.0, 4.0]
    elif w == "decimal":
        decimal.getcontext().prec = 17
    elif w == "special":
        scipy.special.seterr(loss="ignore")
    elif w == "bufsize":
        np.setbufsize(16384)
    elif w == "recursion":
        sys.setrecursionlimit(3000)


O.SETTING = apply_setting


def gen_disk(rng):
    """one fault of the disk, for one operation"""
    c = rng.random()
    if c < 0.2:
        return {"at": "open", "n": 1, "errno": rng.choice(["EACCES", "EMFILE", "ENOSPC", "EROFS", "EIO"])}
    if c < 0.45:
        return {"at": "write", "bytes": rng.choice([0, 1, 7, 100, 2000, 5000, 9000]), "errno": rng.choice(["ENOSPC", "EDQUOT", "EFBIG"])}
    if c < 0.65:
        return {"at": "write", "n": rng.choice([1, 1, 2, 3]), "errno": rng.choice(["EIO", "ENOSPC"])}
    if c < 0.8:
        return {"at": "write", "n": rng.choice([1, 2]), "short": True, "errno": "EIO"}
    if c < 0.9:
        return {"at": "write", "n": rng.choice([1, 2]), "errno": "EINTR"}
    return {"at": "close", "n": 1, "errno": rng.choice(["EIO", "ENOSPC"])}


# ---------------------------------------------------------------------------
def clear_bins(d, comps, lim=0.125):
    """which components the array of gauges can separate; None if one is too close to call"""
    x = np.array(d["x"], dtype=float)
    w = np.array(d["w"], dtype=float)
    s = x - x[0]
    ok = []
    for om, k, a, r in comps:
        a11 = np.sum(w * np.exp(-2j * k * s))
        det = abs(abs(a11) ** 2 - w.sum() ** 2) / 4
        if 0.64 * lim < det < 1.6 * lim:
            return None
        ok.append(det > lim)
    return ok


class C17:
    id = "C17"
    rule = (
        "decompositions of simulated gauge arrays whose records arrive complete, with "
        "rounding on the time axis, or faulty (a gauge missing or twice, a record cut at "
        "either end, a clock offset, drifting or at another rate), in histories of several "
        "calls and by interleaved clients; faulty arrays must be refused, complete ones give "
        "the simulated incident and reflected waves; non-trivial when a fault was injected"
    )
    quick, thorough = 1600, 16000

    @staticmethod
    def gen_how(rng, d):
        n, k = d["n"], len(d["x"])
        j = rng.randrange(k)
        c = rng.random()
        if c < 0.12:
            return [{"k": "drop", "j": j}]
        if c < 0.24:
            return [{"k": "extra", "j": j, "at": rng.randrange(k + 1)}]
        if c < 0.4:
            return [{"k": "trunc", "j": j, "v": rng.choice([1, 1, 2, 5, n // 2])}]
        if c < 0.52:
            return [{"k": "ftrunc", "j": j, "v": rng.choice([1, 1, 2, 5, n // 2])}]
        if c < 0.64:
            return [{"k": "slip", "j": j, "v": rng.choice([1, 1, 2, 3])}]
        if c < 0.8:
            return [{"k": "shift", "j": j, "v": rng.choice([0.5, -0.5, 0.6, 1, -1, 3, -7, n // 2, n])}]
        if c < 0.88:
            return [{"k": "drift", "j": j, "v": rng.choice([1, -1, 1.5, 2, -3])}]
        if c < 0.92:
            return [{"k": "rate", "j": j, "v": rng.choice([0.5, 2.0, 1.1])}]
        if c < 0.97:
            return [{"k": rng.choice(["gap", "gapfill"]), "j": j, "v": rng.randrange(2, n - 4), "m": rng.choice([1, 1, 2])}]
        # two faults that make the lengths agree again
        return [{"k": "ftrunc", "j": j, "v": 2}] + [{"k": "trunc", "j": q, "v": 2} for q in range(k) if q != j]

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        for j in range(rng.choice([1, 1, 2])):
            d = D.gen_gauges(rng)
            if tier == "thorough" and rng.random() < 0.1:
                d["n"] = rng.choice([256, 501])
            scn["data"]["d%d" % j] = d

        def one():
            nm = rng.choice(list(scn["data"]))
            d = scn["data"][nm]
            a = {"h": d["h"], "x_loc": "@%s.x_loc" % nm, "w_loc": "@%s.w_loc" % nm}
            if rng.random() < 0.3:
                a["detLim"] = rng.choice([0.02, 0.05, 0.3, 0.6, 1.0, 0.125])
            c = rng.random()
            if c < 0.2:
                return {"op": "fn", "f": "core_wave_decomposition.decompose_linear_ZS", "a": {"t": "@%s.t" % nm, "xTime": "@%s.X" % nm, **a}, "truth": nm}
            if c < 0.24:
                # two gauges at the same place, or one place too few or too many
                x = list(d["x"])
                j = rng.randrange(1, len(x))
                how = rng.choice(["twin", "twin", "less", "more"])
                if how == "twin":
                    x[j] = x[j - 1]
                elif how == "less":
                    del x[j]
                else:
                    x.append(round(x[-1] + 0.2, 6))
                a["x_loc"] = {"arr": x}
                if rng.random() < 0.5:
                    return {"op": "fn", "f": "core_wave_decomposition.decompose_linear_ZS", "a": {"t": "@%s.t" % nm, "xTime": "@%s.X" % nm, **a}, "refuse": True}
                return {"op": "fn", "f": "core_wave_decomposition.decompose_linear_ZS_series", "a": {"Series_objects": {"gser": nm}, **a}, "refuse": True}
            if c < 0.3:
                # the same with a record missing or twice
                cols = list(range(len(d["x"])))
                if rng.random() < 0.5:
                    del cols[rng.randrange(len(cols))]
                else:
                    cols.insert(rng.randrange(len(cols)), cols[0])
                return {"op": "fn", "f": "core_wave_decomposition.decompose_linear_ZS", "a": {"t": "@%s.t" % nm, "xTime": {"gcols": nm, "cols": cols}, **a}, "refuse": True}
            op = {"op": "fn", "f": "core_wave_decomposition.decompose_linear_ZS_series", "a": {"Series_objects": {"gser": nm}, **a}}
            if c < 0.5:
                op["truth"] = nm
            elif c < 0.58:
                op["a"]["Series_objects"]["how"] = [{"k": "jitter", "j": rng.randrange(len(d["x"])), "seed": rng.randrange(1 << 20)}]
                op["truth"] = nm
            elif c < 0.62:
                # all records cut alike: complete again, only shorter
                v = rng.choice([1, 2, 3])
                op["a"]["Series_objects"]["how"] = [{"k": rng.choice(["trunc", "ftrunc"]), "j": 0, "v": v}]
                k = op["a"]["Series_objects"]["how"][0]["k"]
                op["a"]["Series_objects"]["how"] = [{"k": k, "j": q, "v": v} for q in range(len(d["x"]))]
            else:
                op["a"]["Series_objects"]["how"] = C17.gen_how(rng, d)
                op["refuse"] = True
            return op

        if rng.random() < 0.6:
            scn["clients"] = [[one() for _ in range(E.many(rng, 2, 7))]]
        else:
            scn["clients"] = [[one() for _ in range(rng.randrange(1, 3))] for _ in range(2)]
            scn["sched"] = E.gen_sched(rng, 2)
        return scn

    @staticmethod
    def run(scn):
        s2 = scn
        refs, table = E.prepare(s2)
        for c, i, op in E.all_ops(scn):
            if op.get("refuse"):
                table.pop((c, i))
        out = []

        class R(E.Run):
            def do_op(self, c, i, op):
                rec = super().do_op(c, i, op)
                for h in (op["a"].get("Series_objects") or {}).get("how", []):
                    self.fired("gauge-" + h["k"])
                if "gcols" in str(op["a"].get("xTime")):
                    self.fired("gauge-column")
                return rec

        run = R(scn, keep=True).go()
        truth = {}
        for r in run.hist:
            if r.op.get("refuse"):
                if r.out[0] == "ok":
                    out.append(E.viol("accepted", "incomplete or misaligned gauge records are decomposed", r))
            elif r.op.get("truth") and r.out[0] == "ok":
                dn = r.op["truth"]
                lim = r.op["a"].get("detLim", 0.125)
                nm = (dn, lim)
                if nm not in truth:
                    d, dt = scn["data"][dn], run.env.data[dn]
                    ok = clear_bins(d, dt["comps"], lim)
                    z = np.zeros(d["n"])
                    truth[nm] = None if ok is None else [
                        sum((v for v, q in zip(dt[k], ok) if q), z) for k in ("incs", "refs")
                    ]
                if truth[nm] is not None:
                    for k, got in zip(("incident", "reflected"), r.raw):
                        got = np.ravel(got.xTime if hasattr(got, "xTime") else got)
                        want = truth[nm][0 if k == "incident" else 1]
                        if got.shape != want.shape or np.max(np.abs(got - want)) > 2e-3:
                            e = np.max(np.abs(got - want)) if got.shape == want.shape else "shape"
                            out.append(E.viol("wrong-waves", "%s wave differs from the simulated one by %s" % (k, e), r))
                            break
            elif r.op.get("truth"):
                out.append(E.viol("refused", "a complete array of gauges is refused: %s" % r.extra, r))
        out = E.judge(run, table) + out
        return run, out, any(op.get("refuse") for _, _, op in E.all_ops(scn)), refs
