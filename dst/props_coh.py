"""C24: coherence tells related waves from unrelated ones."""
import numpy as np

from dst import data as D
from dst import engine as E
from dst import ops as O
from dst import props_rec as PR
from dst import recmodels as R

COH = "core_spectral.coherence"


class C24:
    id = "C24"
    rule = (
        "pairs of records in one simulated program: realisations with different seeds or draws, copies with a "
        "gain, a shift or another record mixed in, and what faulty sensors make of them, brought to "
        "components and compared band by band in either order, between other draws, failing calls and clock "
        "jumps, or by interleaved clients; every coherence against the magnitude of the averaged cross "
        "spectrum, 1 for a record and its multiple, the value of independent phases for unrelated ones; "
        "non-trivial when bands of two or more bins were compared"
    )
    quick, thorough = 4000, 60000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        for j in range(rng.choice([1, 1, 2])):
            d = D.gen_spec(rng)
            d.pop("twoD", None)
            scn["data"]["d%d" % j] = d
            scn["objs"]["s%d" % j] = {"cls": "Spectrum", "data": "d%d" % j}
        multi = rng.random() < 0.25
        k = [0]

        def nid():
            k[0] += 1
            return "q%d" % k[0]

        def client(cl):
            lst, recs = [], []
            n = rng.choice([64, 65, 100, 128, 200, 256, 401]) if not multi else rng.choice([32, 48, 64])
            long = not multi and rng.random() < 0.06
            if long:
                scn["long"] = True
                n = rng.choice([640, 1000, 1601])
            seeds = rng.sample(range(1000), 4)
            dn0 = rng.choice(list(scn["data"]))
            base = O.synth_op(rng, dn0, scn["data"][dn0], seed=0, n=n)["a"]
            for _ in range(rng.choice([2, 2, 3])):
                dn = rng.choice(list(scn["data"]))
                a = {**base, "f": "@%s.f" % dn, "sVarDens": "@%s.S" % dn}
                a.pop("seed", None)
                if rng.random() < 0.6:
                    a["seed"] = seeds.pop()
                rid, nm = nid(), "w%dc%d" % (len(recs), cl)
                lst += [{"op": "fn", "f": "core_spectral." + rng.choice(["spectrum2timeseries", "spectrum2timeseries_object"]), "a": a, "id": rid}, {"op": "take", "of": rid, "to": nm}]
                recs.append(nm)
                if rng.random() < 0.2 and not multi:
                    lst.append(rng.choice([{"op": "npdraw", "n": 7}, {"op": "clock", "v": -1e6}]))
            own = len(recs)
            for _ in range(rng.randrange(1, 4)):
                nm = "x%dc%d" % (len(recs), cl)
                op = {"op": "derive", "of": rng.choice(recs), "to": nm, "how": []}
                c = rng.random()
                if c < 0.35:
                    op["how"] = [{"k": "gain", "v": rng.choice([2.0, -1.0, 0.5, 30.0, -7.5])}]
                elif c < 0.5:
                    op["how"] = [{"k": "roll", "m": rng.choice([1, -1, 2, 5, n // 2])}]
                elif c < 0.7:
                    op["plus"] = rng.choice(recs)
                    op["v"] = rng.choice([0.1, 1.0, -1.0, 0.5])
                else:
                    op["how"] = [D.gen_sensor(rng) for _ in range(rng.choice([1, 2]))]
                lst.append(op)
                recs.append(nm)
            for _ in range(E.many(rng, 1, 5) if not multi else rng.randrange(1, 3)):
                one = rng.choice(recs)
                two = rng.choice([x for x in recs if x != one]) if rng.random() < 0.95 else one
                f1, f2 = nid(), nid()
                b = rng.choice([0, 1, 2, 3, 4, 5, 8, 8, 12, 16, 2.4] if not long else [0, 3, 8, 24, 40, 66, 100, 150])
                q = {"op": "fn", "f": COH, "a": {"f": {"ret": f1, "i": 0}, "xFreq1": {"ret": f1, "i": 1}, "xFreq2": {"ret": f2, "i": 1}, "dfDesired": {"bins": one, "b": b}}, "on": one, "two": two, "b": b}
                if b == 0 and rng.random() < 0.5:
                    del q["a"]["dfDesired"]
                for x, y in ((one, f1), (two, f2)):
                    if rng.random() < 0.5:
                        lst.append({"op": "call", "obj": x, "m": "get_fourier_comp", "a": {}, "id": y})
                    else:
                        lst.append({"op": "fn", "f": "core_spectral.time2freq_nyquist", "a": {"t": {"of": x, "at": "time"}, "xTime": {"of": x, "at": "xTime"}}, "id": y})
                if rng.random() < 0.12:
                    lst.append({**q, "fault": {"kind": rng.choice(["kbi", "oom"]), "frac": round(rng.random(), 3), "total": rng.choice([20, 100, 400])}})
                lst.append(q)
                if rng.random() < 0.4:
                    lst.append({**q, "a": {**q["a"], "xFreq1": q["a"]["xFreq2"], "xFreq2": q["a"]["xFreq1"]}})
            return lst

        scn["clients"] = [client(c) for c in range(rng.choice([2, 3]) if multi else 1)]
        if multi:
            scn["sched"] = E.gen_sched(rng, len(scn["clients"]))
            scn["sched"].setdefault("total", 20000)
            scn["jumps"] = E.gen_jumps(rng)
        scn["budget"] = PR.CHAIN_BUDGET * (4 if scn.pop("long", 0) or max(map(len, scn["clients"])) > 40 else 1)
        return scn

    class Run(PR.Chain):
        wide = 0

        def after(self, rec):
            op = rec.op
            if op["op"] not in ("fn", "call") or rec.fired in ("kbi", "oom"):
                return
            if rec.out[0] != "ok":
                return self.say("refused", "%s raises %s (%s)" % (op.get("m") or op["f"], rec.out[1], rec.extra), rec)
            if op.get("f") != COH:
                return
            o, p = self.env.objs[op["on"]], self.env.objs[op["two"]]
            X, Y = R.fourier(o.xTime), R.fourier(p.xTime)
            N = len(o.xTime)
            f = np.arange(len(X)) * (len(o.time) - 1) / (N * (o.time[-1] - o.time[0]))
            dfd = self.arg(op, "dfDesired", 0.0)
            fm, a = R.band_average(f, np.abs(X) ** 2, dfd)
            b = R.band_average(f, np.abs(Y) ** 2, dfd)[1]
            c = R.band_average(f, X * np.conj(Y), dfd)[1]
            m = len(f) // len(fm)
            got = np.asarray(rec.raw[1])
            self.say("wrong-bands", PR.close(rec.raw[0], fm, rel=1e-9), rec)
            if got.dtype.kind != "f" or got.shape != fm.shape:
                return self.say("wrong-coherence", "%s of type %s for %d bands" % (got.shape, got.dtype, len(fm)), rec)
            if not np.all(np.isfinite(got)) or np.any(got < -1e-9) or np.any(got > 1 + 1e-9):
                return self.say("wrong-coherence", "coherence outside 0..1: %r to %r" % (got.min(), got.max()), rec)
            # bands without energy are cut off by contract, nor do those count that only rounding fills
            k = (a > 1e-6) & (b > 1e-6) & (a > 1e-12 * a.max()) & (b > 1e-12 * b.max())
            if not k.any():
                return
            self.checked += 1
            self.wide += m > 1
            want = np.abs(c[k]) ** 2 / (a[k] * b[k])
            self.say("wrong-coherence", PR.close(got[k], want, rel=1e-5, ref=1.0), rec)
            if op["on"][0] == op["two"][0] == "w" and op["on"] != op["two"] and N % 2 == 0 and m >= 4 and k.sum() >= 4:
                # unrelated: what independent phases give (whole periods: what leaks from the
                # ends of other records is alike in neighbouring bins)
                e = R.band_average(f, np.abs(X * Y) ** 2, dfd)[1][k] / (a[k] * b[k]) / m
                lim = 9 * np.sqrt(np.sum(e**2)) / len(e) + 1e-3
                if abs(np.mean(got[k]) - np.mean(e)) > lim:
                    self.say("unrelated", "coherence of unrelated records is %.3f on average, not %.3f" % (np.mean(got[k]), np.mean(e)), rec)

    @staticmethod
    def run(scn):
        scn.setdefault("budget", PR.CHAIN_BUDGET)
        run = C24.Run(scn).go()
        for lst in scn["clients"]:
            for op in lst:
                if op["op"] == "derive":
                    for e in op["how"]:
                        run.fired("record-" + e["k"])
        out = E.judge(run, {}) if run.abort else []
        return run, out + run.bad, run.wide > 0, E.Refs(scn)
