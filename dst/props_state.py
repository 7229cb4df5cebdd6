"""C05, C06, C11, C16, C18: what earlier operations may and may not change."""
import json
import os
import pickle
import subprocess
import sys

import numpy as np

from dst import data as D
from dst import engine as E
from dst import ops as O
from dst import world
from dst.canon import canon, same


def waves_or_series(rng, name, scn, big=False, pos=True):
    if rng.random() < 0.5:
        d = D.gen_waves(rng, big=big)
        cls = "WaveHeights"
    else:
        d = D.gen_series(rng, big=False, small=not big)
        if big and rng.random() < 0.4:
            d["n"] = rng.choice([999, 1001, 1200, 1536, 2049, 4097])
        if not pos and d["kind"] == "pos":
            d["kind"] = "sum"
        if rng.random() < 0.15:
            d["stamp"] = rng.choice([0.01, 0.05, 0.1])
        cls = "Series"
    scn["data"]["d" + name[1:]] = D.gen_form(rng, d, 0.3)
    scn["objs"][name] = {"cls": cls, "data": "d" + name[1:]}
    return cls, d


def twins(rng, scn, p=0.5):
    """for each data set another one of the same shape, to build later objects from"""
    for n in list(scn["data"]):
        d = dict(scn["data"][n])
        e = D.gen_edit(rng, d) if rng.random() < p else None
        if e:
            d["edits"] = d.get("edits", []) + [e]
        else:
            d["seed"] = rng.randrange(1 << 30)
        scn["data"][n + "b"] = d


def renew(rng, scn, o):
    """the program gives up object o and makes another one"""
    n = scn["objs"][o]["data"]
    return {"op": "new", "obj": o, "cls": scn["objs"][o]["cls"], "data": rng.choice([n, n + "b", n + "b"]), "eff": True}


def _pairs(o):
    h, t = np.asarray(o.hwave, dtype=float).ravel(), np.asarray(o.twave, dtype=float).ravel()
    if h.shape != t.shape:
        return None
    k = np.lexsort((t, h))
    return np.stack([h[k], t[k]])


# ---------------------------------------------------------------------------
class C05:
    id = "C05"
    rule = (
        "a history of queries, refused queries, plots and sort() calls on WaveHeights and "
        "Series objects; every answer against a fresh object with the same sort() calls "
        "only, wave pairs conserved after every operation; non-trivial when at least three "
        "operations were made on one object"
    )
    quick, thorough = 2500, 30000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        for j in range(rng.choice([1, 1, 2])):
            waves_or_series(rng, "o%d" % j, scn, big=rng.random() < 0.06)
            D.add_special(rng, scn["data"]["d%d" % j], 0.06, nan=False)
        twins(rng, scn)
        lst = []
        sorty = rng.random() < 0.6
        for _ in range(rng.randrange(30, 60) if rng.random() < 0.04 else rng.randrange(4, 14)):
            o = rng.choice(list(scn["objs"]))
            cls = scn["objs"][o]["cls"]
            d = scn["data"]["d" + o[1:]]
            c = rng.random()
            if sorty and c < 0.18:
                lst.append({"op": "call", "obj": o, "m": "sort", "a": {}, "eff": True})
            elif c < 0.24:
                lst.append(O.plot_op(rng, o, cls, d))
            elif c > 0.94:
                lst.append(renew(rng, scn, o))
            elif c < 0.32:
                lst.append(O.waves_query(rng, o, bad=True))
            elif c < 0.5:
                lst.append({"op": "attrs", "obj": o})
            else:
                lst.append(O.query(rng, o, cls, d))
        for o in scn["objs"]:
            lst.append({"op": "attrs", "obj": o})
        scn["clients"] = [lst]
        return scn

    @staticmethod
    def run(scn):
        refs, table = E.prepare(scn)
        out = []
        start = {}

        class R(E.Run):
            def do_op(self, c, i, op):
                if op["op"] == "new":
                    # the object is given up first: the new one may get its address
                    self.env.objs.pop(op["obj"], None)
                    start.pop(op["obj"], None)
                    return super().do_op(c, i, op)
                for n, o in self.env.objs.items():
                    if n not in start:
                        start[n] = (_pairs(o), o.hwave.copy(), o.twave.copy(), [False])
                rec = super().do_op(c, i, op)
                o = self.env.objs.get(op.get("obj"))
                if o is None:
                    return rec
                p0, h0, t0, srt = start[op["obj"]]
                if op.get("m") == "sort" and rec.out[0] == "ok":
                    srt[0] = True
                    if np.any(np.diff(np.asarray(o.hwave, dtype=float)) > 0):
                        out.append(E.viol("not-sorted", "wave heights are not in descending order after sort()", rec))
                elif not srt[0]:
                    if o.hwave.shape != h0.shape or not np.array_equal(o.hwave, h0, equal_nan=True) or not np.array_equal(o.twave, t0, equal_nan=True):
                        out.append(E.viol("reordered", "the waves of the object changed without sort()", rec))
                p = _pairs(o)
                if p is None or p.shape != p0.shape or not np.array_equal(p, p0, equal_nan=True):
                    out.append(E.viol("pairs-lost", "height and period pairs are not those the object started with", rec))
                return rec

        run = R(scn).go()
        out = E.judge(run, table) + out
        return run, out, len(run.hist) >= 3, refs


# ---------------------------------------------------------------------------
class C06:
    id = "C06"
    rule = (
        "a history of parameter queries with varying limits on Spectrum objects, with plots, "
        "realisations and changes of the spectral densities in between; every answer against "
        "a fresh object with the same densities; non-trivial when at least three queries "
        "were made on one object"
    )
    quick, thorough = 2500, 30000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        for j in range(rng.choice([1, 1, 2])):
            scn["data"]["d%d" % j] = D.gen_form(rng, D.gen_spec(rng, big=rng.random() < 0.05), 0.25)
            D.add_special(rng, scn["data"]["d%d" % j], 0.1)
            scn["objs"]["o%d" % j] = {"cls": "Spectrum", "data": "d%d" % j}
        twins(rng, scn)
        lst = []
        change = rng.random() < 0.5
        long = rng.random() < 0.05
        for _ in range(rng.randrange(40, 80) if long else rng.randrange(4, 13)):
            o = rng.choice(list(scn["objs"]))
            d = scn["data"]["d" + o[1:]]
            c = rng.random()
            if c > 0.95:
                lst.append(renew(rng, scn, o))
            elif change and c < (0.04 if long else 0.2) and d["kind"] != "int":
                lst.append({"op": "specset", "obj": o, "how": rng.choice(["scale", "assign", "bin", "tail", "swap", "roll", "rev"]), "v": rng.choice([0.25, 4.0, 2.0]), "eff": True})
            elif c < 0.24:
                op = O.plot_op(rng, o, "Spectrum", d)
                op["noref"] = True
                lst.append(op)
            elif c < 0.28:
                fm = d.get("f0", 0.0) + (d["nf"] - 1) * d["df"]
                dt = round(0.5 / fm, 3) or 0.01
                lst.append({"op": "call", "obj": o, "m": "create_series", "a": {"tstart": 0.0, "tend": 20 * dt, "dt": dt}, "noref": True})
            elif c < 0.32:
                lst.append({"op": "attrs", "obj": o})
            else:
                lst.append(O.spec_query(rng, o, d))
        scn["clients"] = [lst]
        return scn

    @staticmethod
    def run(scn):
        refs, table = E.prepare(scn)
        out = []

        class R(E.Run):
            def do_op(self, c, i, op):
                if op["op"] == "new":
                    self.env.objs.pop(op["obj"], None)
                rec = super().do_op(c, i, op)
                if op["op"] == "call" and op["m"] in O.SPEC_GETTERS and rec.out[0] == "ok":
                    o = self.env.objs[op["obj"]]
                    v = getattr(o, op["m"][4:], None)
                    d = same(canon(v), rec.out[1])
                    if d:
                        out.append(E.viol("stale-attribute", "attribute %s after %s: %s" % (op["m"][4:], op["m"], d), rec))
                return rec

        run = R(scn).go()
        out = E.judge(run, table) + out
        return run, out, len(run.hist) >= 3, refs


# ---------------------------------------------------------------------------
class C11:
    id = "C11"
    rule = (
        "objects built from the caller's arrays, then a history in which the caller overwrites "
        "those arrays and the arrays earlier queries returned (in between or from another "
        "interleaved client) while it queries; non-trivial when at least one overwrite "
        "precedes or overlaps a query"
    )
    quick, thorough = 2200, 25000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        for j in range(rng.choice([1, 1, 2])):
            n = "o%d" % j
            if rng.random() < 0.35:
                scn["data"]["d%d" % j] = D.gen_form(rng, D.gen_spec(rng, big=rng.random() < 0.03), 0.4)
                scn["objs"][n] = {"cls": "Spectrum", "data": "d%d" % j}
            else:
                waves_or_series(rng, n, scn, big=rng.random() < 0.03)
            f = scn["data"]["d%d" % j]
            if f.get("form") == "ro":
                f["form"] = "1d"
            D.add_special(rng, f, 0.06)
        if rng.random() < 0.35:
            # another object made from the same arrays
            scn["objs"]["p0"] = dict(scn["objs"]["o0"])
        names = list(scn["objs"])
        k = [0]

        def q(o):
            cls = scn["objs"][o]["cls"]
            d = scn["data"][scn["objs"][o]["data"]]
            if rng.random() < 0.3:
                op = {"op": "attr", "obj": o, "m": {"Spectrum": ["f", "sVarDens", "nf", "D"], "Series": ["time", "xTime", "dt", "nt", "hwave", "twave", "tCross"], "WaveHeights": ["hwave", "twave", "nwave"]}[cls]}
                op["m"] = rng.choice(op["m"])
                return op
            op = O.query(rng, o, cls, d)
            if cls == "Series" and rng.random() < 0.4:
                op = rng.choice(
                    [
                        {"op": "call", "obj": o, "m": "get_crossing", "a": {}},
                        {"op": "call", "obj": o, "m": "get_fourier_comp", "a": {}},
                        {"op": "call", "obj": o, "m": "get_bandpassfilter", "a": {"fmin": 0.0, "fmax": round(0.2 / d["dt"], 4)}},
                        {"op": "call", "obj": o, "m": "get_spectrum_raw", "a": {}},
                    ]
                )
            if op["op"] == "call":
                k[0] += 1
                op["id"] = "r%d" % k[0]
            return op

        def scr():
            return {"op": "scribble", "data": rng.choice(list(scn["data"])), "how": rng.choice(["zero", "nan", "reverse", "scale", "const"])}

        def refill():
            n = rng.choice(list(scn["data"]))
            return O.gen_refill(rng, n, scn["data"][n])

        if rng.random() < 0.65:
            lst = []
            for _ in range(rng.randrange(4, 12)):
                c = rng.random()
                ids = [o["id"] for o in lst if "id" in o]
                if c < 0.2:
                    lst.append(scr())
                elif c < 0.28:
                    lst.append(refill())
                elif c < 0.45 and ids:
                    lst.append({"op": "scribble_ret", "of": rng.choice(ids), "how": rng.choice(["zero", "nan", "reverse", "const"])})
                elif c < 0.5 and scn["objs"][names[0]]["cls"] != "Spectrum":
                    lst.append({"op": "call", "obj": names[0], "m": "sort", "a": {}, "eff": True})
                elif c < 0.54 and scn["objs"][names[0]]["cls"] == "Spectrum" and scn["data"]["d0"]["kind"] != "int":
                    lst.append({"op": "specset", "obj": names[0], "how": rng.choice(["scale", "bin", "swap"]), "v": 4.0, "eff": True})
                else:
                    lst.append(q(rng.choice(names)))
            scn["clients"] = [lst]
        else:
            scn["clients"] = [
                [q(rng.choice(names)) for _ in range(rng.randrange(2, 4))],
                [rng.choice([scr, scr, refill])() if rng.random() < 0.7 else q(rng.choice(names)) for _ in range(rng.randrange(2, 5))],
            ]
            scn["sched"] = E.gen_sched(rng, 2)
        scn["finish"] = [{"op": "attrs", "obj": o} for o in names]
        return scn

    @staticmethod
    def run(scn):
        # for the references nobody overwrites anything: only "eff" operations count
        refs, table = E.prepare(scn)
        run = E.Run(scn).go()
        out = E.judge(run, table)
        kinds = [r.op["op"] for r in run.hist]
        return run, out, any(k in ("scribble", "scribble_ret", "refill") for k in kinds), refs


# ---------------------------------------------------------------------------
def core_data(rng, scn, k, big=False, forms=0.3):
    gens = [D.gen_series, D.gen_waves, D.gen_spec, D.gen_freq]
    for j in range(k):
        c = rng.random()
        if c < 0.12:
            d = D.gen_fgrid(rng)
        elif c < 0.2:
            d = D.gen_gauges(rng)
        else:
            d = rng.choice(gens)(rng, big=big)
            if d["type"] == "waves" and rng.random() < 0.5:
                d["kind"] = "desc"
            d = D.gen_form(rng, d, forms)
        d.pop("twoD", None)
        scn["data"]["d%d" % j] = d


class C16:
    id = "C16"
    rule = (
        "calls of the core functions and constructors on buffers the caller refills with new "
        "content of the same shape, with earlier results kept, overwritten by the caller and "
        "compared again at the end, in sequence or by interleaved clients, under clock jumps "
        "and other entropy; non-trivial when one function ran at least twice or clients overlapped"
    )
    quick, thorough = 2500, 30000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        multi = rng.random() < 0.45
        long = not multi and rng.random() < 0.06
        core_data(rng, scn, rng.choice([1, 2, 2]), big=(not multi and not long and rng.random() < 0.08), forms=0.25)
        # the same shapes with other content
        for n in list(scn["data"]):
            D.add_special(rng, scn["data"][n], 0.08)
            d = dict(scn["data"][n])
            e = D.gen_edit(rng, d) if rng.random() < 0.5 else None
            if e:
                d["edits"] = d.get("edits", []) + [e]
            else:
                d["seed"] = rng.randrange(1 << 30)
            if d["type"] == "gauges" and rng.random() < 0.5:
                if rng.random() < 0.5:
                    d["x"] = [d["x"][0]] + [round(x + 0.03 * (k + 1), 6) for k, x in enumerate(d["x"][1:])]
                else:
                    d["w"] = [rng.choice([0.6, 0.8, 1.0]) for _ in d["w"]]
            scn["data"][n + "b"] = d
        names = list(scn["data"])
        pool = []
        for n in names:
            for _ in range(2):
                pool.append(O.fn_query(rng, n, scn["data"][n]))
        # the same call, on the twin data
        for op in list(pool):
            n = [x for x in names if "@%s." % x in json.dumps(op) or '"gser": "%s"' % x in json.dumps(op)]
            if not n:
                continue
            n = max(n, key=len)
            m = n[:-1] if n.endswith("b") else n + "b"
            txt = json.dumps(op).replace("@%s." % n, "@%s." % m).replace('"gser": "%s"' % n, '"gser": "%s"' % m)
            pool.append(json.loads(txt))
        if rng.random() < 0.1:
            pool.append(O.bg_op(rng))

        k = [0]

        def one():
            op = json.loads(json.dumps(rng.choice(pool)))
            k[0] += 1
            op["id"] = "r%d" % k[0]
            op["a"] = dict(op["a"])
            return op

        def new(n):
            d = scn["data"][n]
            return {"op": "new", "obj": "n" + n, "cls": E.CLS[d["type"]], "data": n}

        if multi:
            scn["clients"] = [[one() for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([2, 2, 3]))]
            scn["sched"] = E.gen_sched(rng, 2)
            scn["jumps"] = E.gen_jumps(rng)
        else:
            lst = []
            for _ in range(rng.randrange(30, 60) if long else rng.randrange(4, 12)):
                c = rng.random()
                ids = [o["id"] for o in lst if "id" in o]
                if c < (0.08 if long else 0.2):
                    n = rng.choice(names)
                    lst.append({**O.gen_refill(rng, n, scn["data"][n], 0.25), "eff": True})
                elif c > 0.88:
                    # the same call before and after its input changed
                    op = one()
                    n = max((x for x in names if "@%s." % x in json.dumps(op)), key=len, default=names[0])
                    lst += [op, {**O.gen_refill(rng, n, scn["data"][n], 0.15, op), "eff": True}]
                    k[0] += 1
                    lst.append({**op, "id": "r%d" % k[0]})
                elif c < 0.28 and ids:
                    lst.append({"op": "scribble_ret", "of": rng.choice(ids), "how": rng.choice(["zero", "nan", "const"])})
                elif c < 0.32:
                    lst.append({"op": "clock", "v": rng.choice([1e6, -1e6])})
                elif c < 0.36:
                    lst.append(rng.choice([{"op": "npseed", "v": 3}, {"op": "npdraw", "n": 5}]))
                elif c < 0.42 and scn["data"][names[0]]["type"] in E.CLS:
                    n = rng.choice(names)
                    if scn["data"][n]["type"] in E.CLS:
                        lst.append(new(n))
                else:
                    lst.append(one())
            scn["clients"] = [lst]
        return scn

    @staticmethod
    def run(scn):
        refs, table = E.prepare(scn)
        run = E.Run(scn, keep=True).go()
        out = E.judge(run, table)
        # results handed out earlier stay what they were, unless the caller wrote to
        # them, or to the input they are allowed to be a view of
        spoiled = {r.op["of"] for r in run.hist if r.op["op"] == "scribble_ret"}
        touched = bool(spoiled) or any(r.op["op"] == "refill" for r in run.hist)
        if not out:
            for r in run.hist:
                if r.out[0] != "ok" or r.raw is None or r.op.get("id") in spoiled:
                    continue
                if r.op["op"] not in ("fn", "new"):
                    continue
                if touched and aliases_input(r, run):
                    continue
                d = same(canon(r.raw), r.out[1])
                if d:
                    out.append(E.viol("result-changed", "a result handed out earlier changed later: %s" % d, r))
                    break
        fns = [r.op.get("f") for r in run.hist if r.op["op"] == "fn"]
        return run, out, len(fns) > len(set(fns)) or len(scn["clients"]) > 1, refs


def aliases_input(rec, run):
    """documented behaviour of numpy-style functions: a result may be a view of an argument
    (convert_to_vector of a vector, sorting of nothing, ...); such a result follows its input"""
    for a in O.arrays_of(rec.raw):
        for b in O.inputs_of(run.env):
            if np.may_share_memory(a, b) and np.shares_memory(a, b):
                return True
    # two results of which one was overwritten may be views of each other only if they are
    # the same object's arrays: not excused
    return False


# ---------------------------------------------------------------------------
class C18:
    id = "C18"
    rule = (
        "a history on objects is cut by a crash at an arbitrary operation (or inside one); "
        "what survives is the pickle of the last checkpoint, restored in a new process that "
        "continues the history; also deepcopy and in-process pickling, also while another "
        "client queries; non-trivial when operations precede the checkpoint and follow the "
        "restore"
    )
    quick, thorough = 1800, 20000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        for j in range(rng.choice([1, 1, 2])):
            n = "o%d" % j
            if rng.random() < 0.45:
                scn["data"]["d%d" % j] = D.gen_form(rng, D.gen_spec(rng, big=rng.random() < 0.03), 0.3)
                scn["objs"][n] = {"cls": "Spectrum", "data": "d%d" % j}
            else:
                waves_or_series(rng, n, scn, big=rng.random() < 0.03)
            D.add_special(rng, scn["data"]["d%d" % j], 0.05)
        names = list(scn["objs"])

        def q(srt=True, obj=None):
            o = obj or rng.choice(names)
            cls = scn["objs"][o]["cls"]
            if srt and cls != "Spectrum" and rng.random() < 0.22:
                return {"op": "call", "obj": o, "m": "sort", "a": {}, "eff": True}
            if cls == "Spectrum" and srt and rng.random() < 0.1 and scn["data"][scn["objs"][o]["data"]]["kind"] != "int":
                return {"op": "specset", "obj": o, "how": rng.choice(["assign", "swap", "bin"]), "v": 4.0, "eff": True}
            if rng.random() < 0.2:
                return {"op": "attrs", "obj": o}
            return O.query(rng, o, cls, scn["data"][scn["objs"][o]["data"]])

        def save():
            return {"op": rng.choice(["pickle", "pickle", "deepcopy", "copy"]), "obj": rng.choice(names), "proto": rng.choice([2, 4, 5])}

        c = rng.random()
        if c < 0.55:
            scn["mode"] = "crash"
            scn["part1"] = [q() for _ in range(E.many(rng, 1, 6))]
            # most checkpoints are late
            scn["checkpoint"] = max(rng.randrange(0, len(scn["part1"]) + 1) for _ in range(rng.choice([1, 1, 3])))
            scn["proto"] = rng.choice([2, 4, 5])
            scn["fresh"] = tier == "thorough" and rng.random() < 0.01
            if rng.random() < 0.4:
                scn["midcrash"] = {"frac": round(rng.random(), 4)}
            lst = [q() for _ in range(rng.randrange(2, 6))]
            scn["clients"] = [lst]
        elif c < 0.7:
            # a copy and the original go their own ways; the reference for either is the
            # one object with the operations of its own line of descent
            scn["mode"] = "branch"
            lst = []
            live = list(names)
            kin = {o: o for o in names}
            for j in range(rng.randrange(5, 14)):
                o = rng.choice(live)
                if len(live) < len(names) + 3 and rng.random() < 0.28:
                    to = "x%d" % j
                    lst.append({"op": rng.choice(["pickle", "deepcopy"]), "obj": o, "to": to, "proto": rng.choice([2, 4, 5])})
                    live.append(to)
                    kin[to] = kin[o]
                    continue
                op = q(obj=kin[o])
                lst.append({**op, "obj": o})
            lst += [{"op": "attrs", "obj": o} for o in live]
            scn["clients"] = [lst]
        elif c < 0.85:
            scn["mode"] = "inline"
            lst = []
            for _ in range(rng.randrange(4, 10)):
                lst.append(save() if rng.random() < 0.3 else q())
            scn["clients"] = [lst]
        else:
            scn["mode"] = "inline"
            scn["clients"] = [
                [q(False) for _ in range(rng.randrange(2, 4))],
                [{**save(), "to": "x%d" % j} for j in range(rng.randrange(1, 3))],
            ]
            scn["sched"] = E.gen_sched(rng, 2)
            pairs = [(op["to"], op["obj"]) for op in scn["clients"][1]]
            scn["finish"] = []
            for to, o in pairs:
                cls = scn["objs"][o]["cls"]
                scn["finish"].append({"op": "attrs", "obj": to, "like": o})
                for _ in range(2):
                    op = O.query(rng, o, cls, scn["data"][scn["objs"][o]["data"]])
                    scn["finish"].append({**op, "obj": to, "like": o})
        return scn

    @staticmethod
    def before_crash(scn):
        """the first process: runs part 1, keeps the checkpoint, and is gone"""
        s = dict(scn)
        cut = scn["checkpoint"]
        saved = {}

        class R(E.Run):
            def do_op(self, c, i, op):
                if i == cut:
                    self.keep_it()
                return super().do_op(c, i, op)

            def keep_it(self):
                for n, o in self.env.objs.items():
                    saved[n] = pickle.dumps(o, protocol=scn["proto"])

        s["clients"] = [[dict(op) for op in scn["part1"]]]
        if scn.get("midcrash") and len(scn["part1"]) > cut:
            op = s["clients"][0][cut]
            op["fault"] = {"kind": "kbi", "frac": scn["midcrash"]["frac"], "total": 40}
            del s["clients"][0][cut + 1 :]
        run = R(s)
        run.go()
        if cut >= len(scn["part1"]):
            run.keep_it()
        return saved, [r.brief() for r in run.hist]

    @staticmethod
    def run(scn):
        refs = E.Refs(scn)
        if scn["mode"] == "branch":
            table = {}
            lines = 0
            kin = {o: (o, []) for o in scn["objs"]}  # origin and what was done to it since
            for c, i, op in E.all_ops(scn):
                if op.get("obj") not in kin:
                    continue
                o, line = kin[op["obj"]]
                if op["op"] in ("pickle", "deepcopy"):
                    kin[op["to"]] = (o, list(line))
                    continue
                if op["op"] in E.TOOLBOX_OPS:
                    r = table[(c, i)] = refs.get(line, {**op, "obj": o})
                    lines += r["lines"]
                if op.get("eff"):
                    line.append({**op, "obj": o})
            scn["budget"] = 400_000 + 100 * lines
            run = E.Run(scn).go()
            out = E.judge(run, table)
            for r in run.hist:
                if r.op["op"] in ("pickle", "deepcopy") and r.out[0] != "ok" and r.op["obj"] in run.env.objs:
                    out.append(E.viol("not-storable", "%s raises %s: %s" % (r.op["op"], r.out[1], r.extra), r))
            return run, out, True, refs
        if scn["mode"] == "inline":
            table = {}
            lines = 0
            for c, i, op in E.all_ops(scn):
                if op["op"] in E.TOOLBOX_OPS:
                    rop = {k: v for k, v in op.items() if k != "like"}
                    if "like" in op:
                        rop["obj"] = op["like"]
                    r = refs.get(E.effects_before(scn, c, i), rop)
                    table[(c, i)] = r
                    lines += r["lines"]
            scn["budget"] = 400_000 + 100 * lines
            if scn.get("sched", {}).get("mode") == "pct":
                scn["sched"]["total"] = 10 * lines + 10
            run = E.Run(scn).go()
            out = E.judge(run, table)
            for r in run.hist:
                if r.op["op"] in ("pickle", "deepcopy", "copy") and r.out[0] != "ok":
                    if r.op["obj"] in run.env.objs:
                        out.append(E.viol("not-storable", "%s raises %s: %s" % (r.op["op"], r.out[1], r.extra), r))
            return run, out, True, refs
        # crash and restart
        try:
            saved, hist1 = world.fork_call(lambda: C18.before_crash(scn))
        except world.HarnessError as e:
            if "pickle" in str(e) and ("TypeError" in str(e) or "PicklingError" in str(e) or "AttributeError" in str(e)):
                run = E.Run({**scn, "clients": []}).go()
                return run, [E.viol("not-storable", str(e).strip().splitlines()[-1])], True, refs
            raise
        done = [op for op in scn["part1"][: scn["checkpoint"]] if op.get("eff")]
        table = {}
        lines = 0
        for i, op in enumerate(scn["clients"][0]):
            if op["op"] in E.TOOLBOX_OPS:
                eff = done + [x for x in scn["clients"][0][:i] if x.get("eff")]
                r = refs.get(eff, op)
                table[(0, i)] = r
                lines += r["lines"]
        scn["budget"] = 400_000 + 100 * lines
        out = []
        if scn.get("fresh"):
            out += fresh_restore(scn, saved)

        class R(E.Run):
            def do_op(self, c, i, op):
                if i == 0 and c == 0:
                    self.env.objs = {}
                    for n, b in saved.items():
                        self.env.objs[n] = pickle.loads(b)
                    self.fired("crash-restore")
                    if scn.get("midcrash"):
                        self.fired("crash-inside-operation")
                return super().do_op(c, i, op)

        run = R(scn).go()
        out = E.judge(run, table) + out
        return run, out, bool(scn["part1"]) and bool(run.hist), refs


def fresh_restore(scn, saved):
    """restored in a fresh interpreter the objects have to hold the same data"""
    import tempfile

    with tempfile.TemporaryDirectory(prefix="dst-fresh-") as tmp:
        p = os.path.join(tmp, "objs.pkl")
        with open(p, "wb") as f:
            pickle.dump(saved, f)
        code = (
            "import sys, pickle\n"
            "sys.path.insert(0, %r); sys.path.insert(0, %r)\n"
            "from dst import world; world.boot()\n"
            "from dst.canon import canon\n"
            "s = pickle.load(open(%r, 'rb'))\n"
            "sys.stdout.buffer.write(pickle.dumps({n: canon(pickle.loads(b)) for n, b in s.items()}))\n"
        ) % (world.REPO, world.VERIF, p)
        r = subprocess.run([sys.executable, "-c", code], capture_output=True, env={**os.environ, "PYTHONHASHSEED": "17"})
        if r.returncode:
            return [E.viol("not-storable", r.stderr.decode()[-300:])]
        got = pickle.loads(r.stdout)
    out = []
    for n, b in saved.items():
        d = same(got[n], canon(pickle.loads(b)))
        if d:
            out.append(E.viol("wrong-result", "restored in a fresh interpreter: %s" % d))
    return out
