"""C26: the statistics of the samples of a record."""
import numpy as np

from dst import data as D
from dst import engine as E
from dst import ops as O
from dst import props_rec as PR
from dst import recmodels as R

ASKED = ["get_skewness", "get_skewness", "get_asymmetry", "get_asymmetry", "mean", "var", "max", "min"]


def gen_record(rng):
    d = D.gen_series(rng, big=rng.random() < 0.03, small=rng.random() < 0.75)
    if d["kind"] == "pos" and rng.random() < 0.5:
        d["kind"] = "narrow"
    if rng.random() < 0.8:
        d["sensor"] = [D.gen_sensor(rng) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    if rng.random() < 0.1 and d["kind"] != "int":
        # a record in another unit, by far
        d["sensor"] = d.get("sensor", []) + [{"k": "gain", "v": rng.choice([1e-60, 1e-20, 1e-3, 1e3, 1e20, 1e60])}]
        d.pop("f32", None)
    else:
        D.add_special(rng, d, 0.06, nan=False)
    if "edits" in d:
        d["edits"] = [e for e in d["edits"] if e["v"] != "big"]
    if d["kind"] == "int":
        d.pop("f32", None)
    if rng.random() < 0.1:
        # far from zero, compared with the waves
        d["sensor"] = d.get("sensor", []) + [{"k": "offset", "v": rng.choice([1e3, -1e4, 1e6])}]
    return D.gen_cast(rng, d, 0.15)


class C26:
    id = "C26"
    rule = (
        "wave records as faulty sensors deliver them and records filtered from or derived of them, asked "
        "for mean, variance, extremes, skewness and asymmetry in histories with other analyses, sorting, "
        "renewed buffers, interrupts and failing allocations, or by interleaved clients that ask the same "
        "or different records; every answer against moments computed from the samples; non-trivial when "
        "the shape of a damaged record was compared"
    )
    quick, thorough = 4000, 60000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        multi = rng.random() < 0.3
        for j in range(rng.choice([1, 2, 2])):
            d = gen_record(rng)
            if j and rng.random() < 0.5:
                # a twin: as long as the first, or the first again after a sensor of its own
                d0 = scn["data"]["d0"]
                d = {**d0, "seed": rng.randrange(1 << 30)} if rng.random() < 0.4 else {**d0, "sensor": d0.get("sensor", []) + [D.gen_sensor(rng)]}
                d.pop("form", None)
            scn["data"]["d%d" % j] = D.gen_form(rng, d, 0.2)
            scn["objs"]["o%d" % j] = {"cls": "Series", "data": "d%d" % j}
        k = [0]

        def ask(o):
            return {"op": "call", "obj": o, "m": rng.choice(ASKED), "a": {}}

        def one(cl):
            o = rng.choice(list(scn["objs"]))
            dn = "d" + o[1:]
            c = rng.random()
            if c < 0.5:
                return [ask(o)]
            if c < 0.6:
                return [O.series_query(rng, o, scn["data"][dn])]
            if c < 0.66 and not multi:
                return [{"op": "call", "obj": o, "m": "sort", "a": {}}, ask(o)]
            if c < 0.74 and not multi:
                return [O.gen_refill(rng, dn, scn["data"][dn], 0.3), {"op": "new", "obj": o, "cls": "Series", "data": dn}, ask(o)]
            if c < 0.78 and not multi:
                # the caller reuses its buffers, the object stays what it was
                return [O.gen_refill(rng, dn, scn["data"][dn], 0.3), ask(o)]
            n = "n%d" % cl
            if c < 0.84:
                return [{"op": "new", "obj": n, "cls": "Series", "data": dn}, ask(n), ask(n)]
            if c < 0.92:
                k[0] += 1
                fn = 0.5 / scn["data"][dn]["dt"]
                lo = round(fn * rng.choice([0.0, rng.uniform(0, 0.4)]), 4)
                q = {"op": "call", "obj": o, "m": "get_bandpassfilter", "a": {"fmin": lo, "fmax": round(lo + fn * rng.uniform(0.2, 0.6), 4)}, "id": "q%d" % k[0]}
                return [q, {"op": "take", "of": "q%d" % k[0], "to": n}, ask(n), ask(n)]
            how = rng.choice([[{"k": "flipped"}], [{"k": "gain", "v": rng.choice([-1, 2.0, 0.1, 1e3])}], [{"k": "roll", "m": rng.choice([1, 3, 17])}], [D.gen_sensor(rng)], [D.gen_sensor(rng)]])
            return [{"op": "derive", "of": o, "to": n, "how": how}, ask(n), ask(n), ask(o)]

        def client(cl):
            lst = []
            for _ in range(E.many(rng, 2, 8) if not multi else rng.randrange(1, 4)):
                x = one(cl)
                if rng.random() < 0.1 and x[-1]["op"] == "call" and x[-1]["m"] != "sort":
                    x.insert(-1, {**{q: v for q, v in x[-1].items() if q != "id"}, "fault": {"kind": rng.choice(["kbi", "oom"]), "frac": round(rng.random(), 3), "total": rng.choice([5, 20, 100, 1000])}})
                lst += x
            return lst

        scn["clients"] = [client(c) for c in range(rng.choice([2, 3]) if multi else 1)]
        if multi:
            scn["sched"] = E.gen_sched(rng, len(scn["clients"]))
            scn["sched"].setdefault("total", 3000)
        scn["budget"] = PR.CHAIN_BUDGET * (4 if max(map(len, scn["clients"])) > 40 else 1)
        return scn

    class Run(PR.Chain):
        """what the caller handed over is copied before the toolbox has it"""

        def start(self):
            for o, d in self.scn["objs"].items():
                self.known[o] = self.samples(D.build(self.scn["data"][d["data"]])["xTime"])
            return self

        @staticmethod
        def samples(x):
            x = np.array(x)
            return {"x": x.astype(float).reshape(-1), "single": x.dtype == np.float32}

        def before(self, op):
            if op["op"] == "new":
                self.env.objs.pop(op["obj"], None)
                self.known[op["obj"]] = self.samples(self.env.data[op["data"]]["xTime"])

        def do_op(self, c, i, op):
            if op["op"] == "derive":
                if op["of"] not in self.env.objs:
                    self.env.objs.pop(op["to"], None)
                    return None
                x = np.array(self.known[op["of"]]["x"])
                for e in op["how"]:
                    x = np.roll(x, int(e["m"])) if e["k"] == "roll" else D.sensor(x, e, len(x))
                self.known[op["to"]] = self.samples(x)
            return super().do_op(c, i, op)

        def learn(self, op):
            # the filter is judged elsewhere (C19); what it made is asked for its shape
            self.known[op["to"]] = self.samples(self.env.objs[op["to"]].xTime)

        def after(self, rec):
            op = rec.op
            if rec.fired in ("kbi", "oom") or op.get("m") not in ASKED or op["obj"] not in self.known:
                return
            m = self.known[op["obj"]]
            x, single = m["x"], m["single"]
            if not np.all(np.isfinite(x)):
                return
            what = op["m"]
            if rec.out[0] != "ok":
                return self.say("refused", "%s raises %s (%s)" % (what, rec.out[1], rec.extra), rec)
            r = np.asarray(rec.raw)
            if r.size != 1:
                return self.say("wrong-moment", "%s has %d values" % (what, r.size), rec)
            r = float(r.reshape(-1)[0])
            big = np.max(np.abs(x))
            rel = 2e-4 if single else 1e-9
            if what in ("max", "min"):
                self.checked += 1
                return self.say("wrong-moment", None if r == getattr(np, what)(x) else "%s is %.12g, of the samples %.12g" % (what, r, getattr(np, what)(x)), rec)
            if what == "mean":
                self.checked += 1
                return self.tell(what, r, np.mean(x), rel * np.mean(np.abs(x)) * (1 if single else 1e-3) + 1e-300, rec)
            s = big or 1.0
            if not 1e-75 < s < 1e75:
                return
            y = (x - np.mean(x)) / s
            y -= np.mean(y)
            v = np.mean(y**2)
            if what == "var":
                self.checked += 1
                return self.tell(what, r, v * s * s, (rel * v + (1e-6 if single else 1e-28)) * s * s, rec)
            if v < (1e-3 if single else 1e-18):
                return  # a constant to the last digits has no shape
            amp = 1.0 / np.sqrt(v)
            if what == "get_skewness":
                want = np.mean(y**3) / v**1.5
            else:
                want = np.mean(R.hilbert_imag(y) ** 3) / v**1.5
            self.checked += 1
            self.shaped = True
            big3 = np.mean(np.abs(y) ** 3) / v**1.5
            self.tell(what, r, want, rel * (1 + abs(want) + big3) * (amp if single else 1) + (1e-6 * (1 + amp) if single else 4e-12) * amp, rec)

        shaped = False

        def tell(self, what, got, want, tol, rec):
            if not abs(got - want) <= tol:
                self.say("wrong-moment", "%s is %.12g, of the samples %.12g" % (what, got, want), rec)

    @staticmethod
    def run(scn):
        scn.setdefault("budget", PR.CHAIN_BUDGET)
        run = C26.Run(scn).start().go()
        for d in scn["data"].values():
            for e in d.get("sensor", []):
                run.fired("sensor-" + e["k"])
        out = E.judge(run, {}) if run.abort else []
        return run, out + run.bad, run.shaped and any("sensor" in d for d in scn["data"].values()), E.Refs(scn)

