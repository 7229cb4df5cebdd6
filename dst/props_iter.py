"""C23: iterations end, at the solution of their equation."""
import numpy as np

from dst import data as D
from dst import engine as E
from dst import ops as O
from dst import props_rec as PR

DISPER = "core_dispersion.disper"
BG = "core_wavefunctions.compute_BattjesGroenendijk_wave_height_distribution"
# simulated steps a single call may take (the longest seen takes 110 000)
CALL_STEPS = 1_000_000


def wave_number(w, h, g):
    """w**2 = g k tanh(k h), the way the options of the depth have it"""
    w = np.asarray(w, dtype=float).reshape(-1)
    if np.isinf(h):
        return w * w / g
    if h < 0:
        return w / np.sqrt(g * abs(h))
    y = w * w * h / g
    lo, hi = np.zeros(len(y)), np.maximum(y, np.sqrt(y)) + 1.0  # brackets of k h
    for _ in range(200):
        mid = (lo + hi) / 2
        up = mid * np.tanh(mid) < y
        lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
    return np.sign(w) * (lo + hi) / 2 / h


def bg(hm0, nwave, depth, slope):
    """heights and chances of the composite Weibull distribution; None where it is Rayleigh"""
    from scipy.integrate import quad
    from scipy.optimize import brentq

    htr = (0.35 + 5.8 / slope) * depth
    m0 = (hm0 / 4) ** 2
    hrms = np.sqrt(m0) * (2.69 + 3.24 * np.sqrt(m0) / depth)
    x = htr / hrms
    if abs(x - 2.75) < 1e-9:
        return None, None
    if x > 2.75:
        return np.zeros(0), np.zeros(0)

    def second(h1):
        return x * (h1 / x) ** (2 / 3.6)

    def rms(h1):
        # root mean square of the composite distribution, from its exceedance
        h2 = second(h1)
        a = quad(lambda s: 2 * s * np.exp(-((s / h1) ** 2)), 0, x, epsabs=1e-13, epsrel=1e-12)[0]
        b = quad(lambda s: 2 * s * np.exp(-((s / h2) ** 3.6)), x, max(x, h2 * 60 ** (1 / 3.6)) + 1, epsabs=1e-13, epsrel=1e-12)[0]
        return a + b - 1.0

    h1 = brentq(rms, 1e-3, 200.0, xtol=1e-13, rtol=1e-13)
    h2 = second(h1)
    L = np.log(nwave)
    top = h1 * np.sqrt(L) if h1 * np.sqrt(L) < x else h2 * L ** (1 / 3.6)
    rayleigh = np.sqrt(8 * L) / 4 * hm0
    return np.array([0.0, htr, min(top * hrms, rayleigh)]), np.array([1.0, np.exp(-((x / h1) ** 2)), 1.0 / nwave])


def gen_disper(rng, scn):
    c = rng.random()
    if c < 0.5:
        w = "@%s.w" % rng.choice(list(scn["data"]))
    elif c < 0.75:
        w = round(10 ** rng.uniform(-3, 1.5), rng.choice([3, 6])) * rng.choice([1, 1, 1, -1])
    elif c < 0.8:
        w = rng.choice([1, 2, 0, 0.0])
    elif c < 0.9:
        w = [round(10 ** rng.uniform(-2, 1.3), 4) for _ in range(rng.choice([1, 2, 3, 6]))]
    elif c < 0.92:
        # whole numbers as converters and files have them
        t = rng.choice(["int8", "int16", "int32", "int64", "uint8", "uint16"])
        v = [rng.randrange(0 if t[0] == "u" else -100, 128) for _ in range(rng.choice([1, 2, 5, 12]))]
        w = {"arr": v, "dt": t} if rng.random() < 0.8 else {"np": t, "v": v[0]}
    else:
        w = {"arr": [round(rng.choice([-1, 1, 1]) * 10 ** rng.uniform(-3, 2), 5) if rng.random() < 0.8 else 0.0 for _ in range(rng.choice([1, 2, 5, 12]))]}
    c = rng.random()
    if c < 0.65:
        h = round(10 ** rng.uniform(-2, 4), 4)
    elif c < 0.8:
        h = rng.choice([1, 10, 0.5, 2.0, 20.0, 500.0, 5000])
    elif c < 0.9:
        h = "inf"
    else:
        h = -round(10 ** rng.uniform(-1, 3), 3)
    a = {"w": w, "h": h}
    if rng.random() < 0.3:
        a["g"] = rng.choice([9.81, 9.8, 1.62, 32.2, 10])
    return {"op": "fn", "f": DISPER, "a": a}


def gen_bg(rng):
    depth = round(10 ** rng.uniform(-1, 2), 3)
    a = {
        "hm0": round(depth * rng.choice([rng.uniform(0.15, 0.7), rng.uniform(0.02, 1.5)]), 4) or 0.1,
        "nwave": rng.choice([1, 2, 3, 10, 100, 500, 1000, 5000, 10**6]),
        "water_depth": depth,
    }
    if rng.random() < 0.7:
        a["cota_slope"] = rng.choice([20, 30.0, 50, 100.0, 250.0, round(rng.uniform(20, 250), 2), round(rng.uniform(20, 250), 2), 10.0, 500.0])
    if rng.random() < 0.5:
        a["tolerance"] = rng.choice([1e-5, 1e-6, 1e-8, 1e-10, 1e-3])
    if rng.random() < 0.2:
        for k in ("hm0", "water_depth"):
            a[k] = {"np": "float64", "v": a[k]}
    return {"op": "fn", "f": BG, "a": a}


class C23:
    id = "C23"
    rule = (
        "calls of the iterative solvers (wave number from the dispersion relation, with its deep and "
        "shallow options; transition of the Battjes-Groenendijk distribution) with generated, "
        "extreme and degenerate arguments, in histories with renewed buffers, interrupts, failing "
        "allocations, clock jumps and warnings as errors, or by interleaved clients; every call must end "
        "within a bounded number of simulated steps, with the solution an independent solver finds; "
        "non-trivial when a solution was compared"
    )
    quick, thorough = 3000, 60000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        for j in range(rng.choice([1, 2])):
            scn["data"]["d%d" % j] = D.gen_freq(rng, big=rng.random() < 0.03)
        multi = rng.random() < 0.25

        said = []

        def client(cl):
            lst = []
            for _ in range(E.many(rng, 2, 7) if not multi else rng.randrange(1, 3)):
                c = rng.random()
                if c < 0.1 and not multi:
                    lst.append({"op": "clock", "v": rng.choice([-1e7, 1e6])})
                if c < 0.3 and not multi:
                    dn = rng.choice(list(scn["data"]))
                    lst.append(O.gen_refill(rng, dn, scn["data"][dn]))
                op = gen_disper(rng, scn) if rng.random() < 0.6 else gen_bg(rng)
                if rng.random() < 0.15:
                    kind = rng.choice(["kbi", "oom", "warn"]) if not multi else "kbi"
                    lst.append({**op, "fault": {"kind": kind, "frac": round(rng.random(), 3), "total": rng.choice([10, 60, 1000])}})
                lst.append(op)
                if rng.random() < 0.12 and len(said) + cl < 9:
                    # asked again later, and again
                    said.append(op)
                elif said and rng.random() < 0.3:
                    lst.append(dict(rng.choice(said)))
                    if rng.random() < 0.6 and not multi:
                        lst[-1]["fault"] = {"kind": "warn", "frac": 0.0, "total": 10}
            return lst

        scn["clients"] = [client(c) for c in range(rng.choice([2, 3]) if multi else 1)]
        if multi:
            scn["sched"] = E.gen_sched(rng, len(scn["clients"]))
            scn["sched"].setdefault("total", 20000)
            scn["jumps"] = E.gen_jumps(rng)
        scn["budget"] = CALL_STEPS + 200_000 * sum(map(len, scn["clients"]))
        return scn

    class Run(PR.Chain):
        def before(self, op):
            del E.SEEN[:]
            if op["op"] == "fn":
                self.known[id(op)] = {k: np.array(O.resolve(self.env, v), dtype=float) for k, v in op["a"].items()}

        def after(self, rec):
            op = rec.op
            a = self.known.pop(id(op), None)
            if a is None or rec.fired in ("kbi", "oom"):
                return
            alone = len(self.scn["clients"]) == 1
            if alone and rec.ret - rec.inv > CALL_STEPS:
                self.say("no-progress", "%s takes %d steps" % (op["f"].split(".")[1][:20], rec.ret - rec.inv), rec)
            if op["f"] == DISPER:
                w, h, g = a["w"], float(a["h"]), float(a.get("g", 9.81))
                if rec.out[0] != "ok":
                    return self.say("refused", "disper raises %s (%s)" % (rec.out[1], rec.extra), rec)
                want = wave_number(w, h, g)
                got = np.asarray(rec.raw, dtype=float).reshape(-1)
                self.checked += 1
                if len(got) != len(want):
                    return self.say("wrong-solution", "%d wave numbers for %d frequencies" % (len(got), len(want)), rec)
                k = np.ones(len(want), dtype=bool)
                if 0 < h < np.inf:
                    # longer waves are cut off by contract of the approximation
                    k = (w.reshape(-1) ** 2 * h / g > 1.1e-8) | (w.reshape(-1) == 0)
                bad = k & ~(np.abs(got - want) <= 1e-9 * np.abs(want))
                if bad.any():
                    j = int(np.argmax(bad))
                    self.say("wrong-solution", "wave number %.12g instead of %.12g" % (got[j], want[j]), rec)
                return
            kw = {k: float(v) for k, v in a.items()}
            slope, tol = kw.get("cota_slope", 250.0), kw.get("tolerance", 1e-5)
            H, P = bg(kw["hm0"], kw["nwave"], kw["water_depth"], slope)
            if H is None:
                return
            warned = len(H) == 0 or slope < 20 or slope > 250
            if rec.out[0] != "ok":
                if not (rec.fired == "warn" and warned):
                    self.say("refused", "distribution raises %s (%s)" % (rec.out[1], rec.extra), rec)
                return
            if warned and op.get("fault", {}).get("kind") == "warn":
                return self.say("silent", "outside its range without a warning", rec)
            if self.scn["env"].get("warn") == "all" and not op.get("fault"):
                told = UserWarning in E.SEEN
                if warned != told:
                    return self.say("silent" if warned else "false-warning", "outside its range without a warning" if warned else "warns inside its range", rec)
            self.checked += 1
            gh, gp = (np.asarray(v, dtype=float).reshape(-1) for v in rec.raw)
            rel = 30 * tol + 1e-7
            self.say("wrong-solution", PR.close(gh, H, rel=rel), rec)
            self.say("wrong-solution", PR.close(gp, P, rel=rel) or (len(P) and PR.close(np.log(gp[1:]), np.log(P[1:]), rel=rel)) or None, rec)

    @staticmethod
    def run(scn):
        scn.setdefault("budget", 10 * CALL_STEPS)
        run = C23.Run(scn).go()
        out = E.judge(run, {}) if run.abort else []
        return run, out + run.bad, run.checked > 0, E.Refs(scn)
