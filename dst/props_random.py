"""C01 - C04: random realisations."""
import hashlib
import json
import random as pyrandom

import numpy as np

from dst import data as D
from dst import engine as E
from dst import models as M
from dst import ops as O
from dst import world


def _specs(rng, k, full=False, big=False):
    out = {}
    for i in range(k):
        d = D.gen_spec(rng, big=big)
        if full:
            # energy at every frequency that can be generated
            d = {"type": "spec", "nf": rng.choice([40, 80, 120]), "df": rng.choice([0.01, 0.02]), "f0": 0.0, "seed": rng.randrange(1 << 30), "kind": rng.choice(["flat", "flat", "flat"])}
        out["d%d" % i] = d
    return out


def _fault(rng):
    f = {"kind": rng.choice(["kbi", "oom"]), "frac": round(rng.random(), 4)}
    if f["kind"] == "oom" and rng.random() < 0.4:
        f["sub"] = rng.choice([0, 0, 1, 2, 4])
    return f


def _bad_synth(rng, name, d):
    op = O.synth_op(rng, name, d)
    c = rng.random()
    if c < 0.4:
        op["a"]["seed"] = rng.choice([2**32, 2**33, 2**40])
    elif c < 0.7:
        op["a"]["sVarDens"] = {"arr": [1.0, 2.0]}
    else:
        op["a"]["dt"] = 0.0
    return op


def _state():
    import numpy as np

    s = np.random.get_state()
    return hashlib.sha256(s[1].tobytes() + repr((s[0], s[2:])).encode()).hexdigest()[:16]


def _pystate():
    return hashlib.sha256(repr(pyrandom.getstate()).encode()).hexdigest()[:16]


def _is_seeded(op):
    return op["op"] == "fn" and "spectrum2timeseries" in op["f"] and "seed" in op["a"]


def _is_unseeded(op):
    return (op["op"] == "fn" and "spectrum2timeseries" in op["f"] and "seed" not in op["a"]) or (
        op["op"] == "call" and op["m"] == "create_series"
    )


def _xt(c):
    """time axis and values of a canonical realisation"""
    if c[0] == "Series":
        return c[1][2][3], c[1][3][3]
    return c[1][0][3], c[1][1][3]


def related_seeds(rng):
    """seeds that differ, but not after truncating, folding, hashing, scaling, ..."""
    lim = 2**32
    s = rng.choice([rng.randrange(lim), rng.randrange(1, 1 << 16), rng.randrange(20000101, 20301231), 42, rng.randrange(1 << 24, 1 << 27)])
    hi, lo = s >> 16, s & 0xFFFF
    x = rng.randrange(1, 1 << 16)
    out = [
        s,
        s + 1,
        s ^ 1,
        s ^ (1 << rng.randrange(32)),
        s + (1 << rng.randrange(8, 32)),
        s % (1 << rng.choice([8, 10, 15, 16, 20, 24, 30, 31])),
        s + 10 ** rng.randrange(1, 9),
        s + rng.choice([97, 101, 997, 1009, 9973, 65521, 65535, 65537, 2**31 - 1, 1000003]),
        (lo << 16) | hi,
        hi ^ lo,
        hi + lo,
        ((hi ^ x) << 16) | (lo ^ x),
        ((hi - 1) << 16) + lo + 1,
        2 * s,
        s // 2 * 2,
        s // 10 * 10,
        s // 100 * 100 + rng.randrange(100),
        (s // 1000 + 1) * 1000 + s % 1000,
        lim - s,
        lim - 1 - s,
        s * s % lim,
        int(str(s)[::-1]),
        int("".join(sorted(str(s)))),
        int.from_bytes(s.to_bytes(4, "little"), "big"),
        rng.randrange(lim),
        rng.randrange(100),
        0,
    ]
    out = sorted({v for v in out if 0 <= v < lim})
    rng.shuffle(out)
    if s in out:
        out.remove(s)
    return [s] + out[: rng.randrange(6, 13)]


# ---------------------------------------------------------------------------
class C01:
    id = "C01"
    rule = (
        "one seeded program: seeded syntheses mixed with draws from and re-seeding of "
        "numpy's generator, unseeded and failing syntheses, clock jumps, or run by 2-3 "
        "interleaved clients; non-trivial when a seeded synthesis follows or overlaps "
        "another operation"
    )
    quick, thorough = 1500, 20000

    @staticmethod
    def gen(rng, i, tier):
        k = rng.choice([1, 1, 2, 3])
        big = rng.random() < 0.05
        if rng.random() < 0.25:
            return C01.family(rng)
        scn = {"data": _specs(rng, k, big=big), "objs": {}, "env": E.gen_env(rng)}
        names = list(scn["data"])
        # what else the program has: a spectrum and a record of its own
        scn["objs"]["os"] = {"cls": "Spectrum", "data": names[0]}
        scn["data"]["dw"] = D.gen_series(rng)
        scn["objs"]["ow"] = {"cls": "Series", "data": "dw"}
        seeds = [O.gen_seed(rng) for _ in range(rng.choice([1, 2, 2]))]

        def one(kinds):
            n = rng.choice(names)
            d = scn["data"][n]
            c = rng.choice(kinds)
            if c == "s":
                op = O.synth_op(rng, n, d, seed=rng.choice(seeds))
                if rng.random() < 0.12:
                    op["fault"] = _fault(rng)
                return op
            if c == "u":
                return {**O.synth_op(rng, n, d, seeded=False), "noref": True}
            if c == "b":
                return _bad_synth(rng, n, d)
            if c == "npseed":
                return {"op": "npseed", "v": rng.randrange(100)}
            if c == "npdraw":
                return {"op": "npdraw", "n": rng.randrange(1, 50)}
            if c == "clock":
                return {"op": "clock", "v": rng.choice([3600.0, -3600.0, 1e7])}
            if c in ("o", "p"):
                o = rng.choice(["os", "ow"])
                make = O.query if c == "o" else O.plot_op
                return {**make(rng, o, scn["objs"][o]["cls"], scn["data"][scn["objs"][o]["data"]]), "noref": True}
            if c == "gauge":
                return O.bg_op(rng)
            return O.fn_query(rng, n, d)

        if rng.random() < 0.6:
            base = [O.synth_op(rng, n, scn["data"][n], seed=s) for n in names for s in seeds][:3]
            lst = []
            for _ in range(E.many(rng, 4, 9)):
                if rng.random() < 0.55:
                    op = dict(rng.choice(base))
                    if rng.random() < 0.1:
                        op["fault"] = _fault(rng)
                    lst.append(op)
                else:
                    lst.append(one(["s", "u", "u", "b", "npseed", "npdraw", "clock", "q", "o", "p"]))
            scn["clients"] = [lst]
        else:
            scn["clients"] = [
                [one(["s", "s", "s", "u", "npdraw", "q", "o"]) for _ in range(rng.randrange(1, 4))]
                for _ in range(rng.choice([2, 2, 3]))
            ]
            scn["sched"] = E.gen_sched(rng, len(scn["clients"]))
            scn["jumps"] = E.gen_jumps(rng)
        return scn

    @staticmethod
    def family(rng):
        """one realisation, with many seeds that a careless mapping could confuse"""
        scn = {"data": _specs(rng, 1, full=True), "objs": {}, "env": E.gen_env(rng)}
        base = O.synth_op(rng, "d0", scn["data"]["d0"], seed=0, n=rng.choice([32, 40, 63, 64]))
        fs = [base["f"], base["f"], rng.choice(["core_spectral.spectrum2timeseries", "core_spectral.spectrum2timeseries_object"])]
        seeds = related_seeds(rng)
        lst = [{**base, "f": rng.choice(fs), "a": {**base["a"], "seed": s}} for s in seeds]
        lst += [dict(rng.choice(lst)) for _ in range(3)]
        scn["clients"] = [lst]
        return scn

    @staticmethod
    def run(scn):
        refs, table = E.prepare(scn)
        run = E.Run(scn).go()
        out = E.judge(run, table)
        # other seeds are other realisations
        seen = {}
        for r in run.hist:
            if not _is_seeded(r.op) or r.out[0] != "ok":
                continue
            s = r.op["a"]["seed"]
            s = s["v"] if isinstance(s, dict) else s
            if s < 0:
                continue
            x = _xt(r.out[1])[1]
            if len(x) < 12 or not np.abs(x).max() > 0 or not np.all(np.isfinite(x)):
                continue
            p = M.phases(x, r.op["a"]["dt"])
            for s2, q in seen.items():
                n = max(M.shared_phases(p, q), M.anywhere_shared(p, q))
                if s2 != s and n > 2:
                    out.append(E.viol("seed-ignored", "seeds %d and %d share %d of %d phases" % (s2, s, n, len(p)), r))
                    break
            seen[s] = p
        n = [i for i, r in enumerate(run.hist) if _is_seeded(r.op) and r.out[0] == "ok"]
        return run, out, bool(n and n[-1] > 0), refs


# ---------------------------------------------------------------------------
class C02:
    id = "C02"
    rule = (
        "a program that draws from numpy's shared generator (directly and through unseeded "
        "syntheses) in one client while the same or other clients make seeded syntheses, "
        "also failing and interrupted ones; compared with the program without the seeded "
        "calls; non-trivial when at least one seeded call precedes or overlaps a draw"
    )
    quick, thorough = 1500, 20000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": _specs(rng, rng.choice([1, 2])), "objs": {}, "env": E.gen_env(rng)}
        names = list(scn["data"])

        def draw():
            n = rng.choice(names)
            if rng.random() < 0.5:
                return {"op": "npdraw", "n": rng.randrange(1, 40)}
            return {**O.synth_op(rng, n, scn["data"][n], seeded=False), "noref": True}

        def seeded():
            n = rng.choice(names)
            c = rng.random()
            if c < 0.15:
                return {**_bad_synth(rng, n, scn["data"][n]), "noref": True}
            op = O.synth_op(rng, n, scn["data"][n])
            if c < 0.45:
                op["fault"] = _fault(rng)
            return op

        if rng.random() < 0.5:
            lst = [draw() if rng.random() < 0.45 else seeded() for _ in range(E.many(rng, 4, 10))]
            lst.append(draw())
            scn["clients"] = [lst]
        else:
            scn["clients"] = [[draw() for _ in range(rng.randrange(2, 5))]] + [
                [seeded() for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([1, 1, 2]))
            ]
            scn["sched"] = E.gen_sched(rng, len(scn["clients"]))
        return scn

    @staticmethod
    def _draw(op):
        return op["op"] in ("npdraw", "npseed") or _is_unseeded(op)

    @staticmethod
    def alone(scn):
        s = dict(scn)
        s["clients"] = [[E.clean(op) for op in scn["clients"][0] if C02._draw(op)]]
        s.pop("sched", None)
        s.pop("jumps", None)
        run = E.Run(s).go()
        return [r.out for r in run.hist], _state(), _pystate()

    @staticmethod
    def run(scn):
        refs, table = E.prepare(scn)
        want, st, pst = world.fork_call(lambda: C02.alone(scn))
        out = []
        single = len(scn["clients"]) == 1

        class R(E.Run):
            def do_op(self, c, i, op):
                pre = (_state(), _pystate()) if single else None
                rec = super().do_op(c, i, op)
                if single and not C02._draw(op):
                    if (_state(), _pystate()) != pre:
                        out.append(E.viol("shared-stream", "the shared generator was moved by a seeded synthesis", rec))
                return rec

        run = R(scn).go()
        if run.abort:
            out += E.judge(run, {})
        got = [r.out for r in run.hist if r.c == 0 and C02._draw(r.op)]
        for k, (g, w) in enumerate(zip(got, want)):
            d = E.differs(g, w)
            if d:
                out.append(E.viol("shared-stream", "draw %d of the program: %s" % (k, d)))
                break
        if not out and (_state(), _pystate()) != (st, pst):
            out.append(E.viol("shared-stream", "the shared generator ends in another state"))
        nt = any(not C02._draw(r.op) for r in run.hist) and bool(got)
        return run, out, nt, refs


# ---------------------------------------------------------------------------
class C03:
    id = "C03"
    rule = (
        "unseeded realisations, also through create_series, in sequence or by interleaved "
        "clients, between seeded, failing and interrupted syntheses, under clock jumps; "
        "non-trivial when at least two unseeded realisations were made"
    )
    quick, thorough = 1200, 15000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": _specs(rng, rng.choice([1, 2]), full=True), "objs": {}, "env": E.gen_env(rng)}
        names = list(scn["data"])
        for j, n in enumerate(names):
            scn["objs"]["o%d" % j] = {"cls": "Spectrum", "data": n}
        N = rng.choice([32, 64, 96, 128])
        long_ = rng.random()
        if long_ < 0.03:
            N = rng.choice([1000, 3000, 5000, 9000, 17000])
        elif long_ < 0.06:
            N = 24

        def one(multi):
            n = rng.choice(names)
            d = scn["data"][n]
            c = rng.random()
            size = N if rng.random() < 0.7 else rng.choice([33, 48, 63, 100])
            if c < 0.45:
                op = O.synth_op(rng, n, d, seeded=False, n=size)
                op["noref"] = True
                if rng.random() < 0.1:
                    op["a"]["seed"] = -1
                return op
            if c < 0.65:
                s = O.synth_op(rng, n, d, seeded=False, n=size)["a"]
                return {"op": "call", "obj": "o" + n[1:], "m": "create_series", "a": {"tstart": s["tInit"], "tend": s["tEnd"], "dt": s["dt"]}, "noref": True}
            if c < 0.8:
                op = O.synth_op(rng, n, d, n=size, seed=rng.choice([0, 1, 5, 77]))
                op["noref"] = True
                return op
            if c < 0.9 and scn["faulty"]:
                op = O.synth_op(rng, n, d, seeded=rng.random() < 0.4, n=size)
                op["fault"] = {**_fault(rng), "total": rng.choice([25, 40])}
                op["noref"] = True
                return op
            if c < 0.95 and scn["faulty"]:
                return {**_bad_synth(rng, n, d), "noref": True}
            if multi:
                return {"op": "npdraw", "n": rng.randrange(1, 30)}
            return rng.choice([{"op": "npdraw", "n": rng.randrange(1, 30)}, {"op": "clock", "v": rng.choice([-1e6, 1e6, 60.0])}])

        scn["faulty"] = rng.random() < 0.5
        if long_ < 0.03:
            scn["clients"] = [[one(False) for _ in range(3)]]
        elif long_ < 0.06:
            # a long campaign
            scn["clients"] = [[one(False) for _ in range(rng.choice([40, 80, 150]))]]
        elif rng.random() < 0.6:
            scn["clients"] = [[one(False) for _ in range(rng.randrange(5, 12))]]
        else:
            scn["clients"] = [[one(True) for _ in range(rng.randrange(2, 5))] for _ in range(rng.choice([2, 3]))]
            scn["sched"] = E.gen_sched(rng, len(scn["clients"]))
            scn["jumps"] = E.gen_jumps(rng)
        return scn

    @staticmethod
    def _unseeded(op):
        return _is_unseeded(op) or (_is_seeded(op) and op["a"]["seed"] == -1)

    @staticmethod
    def again(scn, env):
        s = dict(scn)
        s["env"] = env
        run = E.Run(s).go()
        return [(r.c, r.i, r.out) for r in run.hist]

    @staticmethod
    def run(scn):
        refs, table = E.prepare(scn)
        single = len(scn["clients"]) == 1
        e = scn["env"]
        clean_ = single and not scn.get("faulty")
        if clean_:
            # the program again: same generator state, other clock and entropy
            w1 = world.fork_call(lambda: C03.again(scn, {**E.REF_ENV, "np_seed": e["np_seed"]}))
            # and with another generator state
            w2 = world.fork_call(lambda: C03.again(scn, {**e, "np_seed": e["np_seed"] + 1}))
        run = E.Run(scn).go()
        out = E.judge(run, {}) if run.abort else []
        reals = []
        for r in run.hist:
            if r.out[0] != "ok" or r.op["op"] not in ("fn", "call"):
                continue
            t, x = _xt(r.out[1])
            if x.size < 16:
                continue
            reals.append((r, M.phases(x, r.op["a"]["dt"])))
        allp = []
        for i, (r, p) in enumerate(reals):
            un = C03._unseeded(r.op)
            if un:
                allp.append(p[np.isfinite(p)])
                if M.repeated_within(p) > (0 if len(p) < 400 else 3):
                    out.append(E.viol("not-fresh", "two frequencies of one realisation have the same phase", r))
            for r2, q in reals[:i]:
                if not (un or C03._unseeded(r2.op)):
                    continue
                n = M.shared_phases(p, q)
                if n or M.anywhere_shared(p, q) > 2:
                    out.append(
                        E.viol("not-fresh", "shares %d of %d phases with the realisation made by client %d operation %d" % (max(n, M.anywhere_shared(p, q)), len(p), r2.c, r2.i), r)
                    )
                    break
        steps = []
        for i, (r, p) in enumerate(reals):
            if not C03._unseeded(r.op):
                continue
            # the steps from one frequency to the next are as random as the phases
            u = np.mod(np.diff(p), 2 * np.pi)
            steps.append(u[np.isfinite(u)])
            if M.repeated_within(u, 1e-9) > (0 if len(u) < 100 else 3):
                out.append(E.viol("not-fresh", "the phases of one realisation are evenly stepped", r))
                break
            for r2, q in reals[:i]:
                n = M.shared_phases(u, np.mod(np.diff(q), 2 * np.pi), 1e-9)
                if n > (1 if len(u) < 1000 else 3):
                    out.append(E.viol("not-fresh", "differs from the realisation made by client %d operation %d by one angle at %d frequencies" % (r2.c, r2.i, n), r))
                    break
        if steps and not out:
            b = np.concatenate(steps)
            if len(b) >= 300:
                q = np.bincount(np.minimum((b / (np.pi / 2)).astype(int), 3), minlength=4)
                if q.min() < len(b) / 4 - 8 * np.sqrt(len(b) * 3 / 16):
                    out.append(E.viol("not-uniform", "phase steps by quadrant: %s" % q.tolist()))
        if allp:
            a = np.concatenate(allp)
            n = len(a)
            if n >= 500:
                # 16 sectors, and the sums of the first three harmonics
                q = np.bincount(np.minimum((a / (np.pi / 8)).astype(int), 15), minlength=16)
                dev = np.abs(q - n / 16).max() / np.sqrt(n * 15 / 256)
                har = max(abs(np.exp(1j * m * a).sum()) for m in (1, 2, 3)) / np.sqrt(n)
                if dev > 7 or har > 5.5:
                    out.append(E.viol("not-uniform", "phases by sector: %s, harmonic sums %.2f" % (q.tolist(), har)))
            if n >= 150:
                q = np.bincount(np.minimum((a / (np.pi / 2)).astype(int), 3), minlength=4)
                lim = n / 4 - 6 * np.sqrt(n * 3 / 16)
                if q.min() < lim:
                    out.append(E.viol("not-uniform", "phases by quadrant: %s" % q.tolist()))
        if clean_ and not out:
            for r, (c, i, w) in zip(run.hist, w1):
                if C03._unseeded(r.op) or r.op["op"] == "npdraw":
                    d = E.differs(r.out, w)
                    if d:
                        out.append(E.viol("ungoverned", "same generator state, other clock and entropy: %s" % d, r))
                        break
            for r, p in reals:
                if not C03._unseeded(r.op):
                    continue
                w = [o for c, i, o in w2 if (c, i) == (r.c, r.i)][0]
                if w[0] == "ok" and M.shared_phases(p, M.phases(_xt(w[1])[1], r.op["a"]["dt"])):
                    out.append(E.viol("not-fresh", "another state of the shared generator gives the same phases", r))
                    break
        return run, out, len(allp) >= 2, refs


# ---------------------------------------------------------------------------
class C04:
    id = "C04"
    rule = (
        "realisations of one or more spectra on generated time axes, seeded or with random, "
        "constant, extreme and patterned draws injected into the shared generator, in "
        "sequence or by interleaved clients; each is decomposed by an independent model; "
        "non-trivial when the target carries energy below Nyquist"
    )
    quick, thorough = 1800, 25000

    @staticmethod
    def gen(rng, i, tier):
        k = rng.choice([1, 1, 2])
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        for j in range(k):
            d = D.gen_spec(rng, big=rng.random() < 0.04)
            d.pop("twoD", None)
            if rng.random() < 0.25:
                d["form"] = rng.choice(["list", "ro", "strided", "col"])
            scn["data"]["d%d" % j] = d
            scn["objs"]["o%d" % j] = {"cls": "Spectrum", "data": "d%d" % j}
        names = list(scn["data"])

        def one(single):
            n = rng.choice(names)
            d = scn["data"][n]
            big = rng.random() < 0.07
            op = O.synth_op(rng, n, d, seeded=rng.random() < 0.5, n=rng.choice([1000, 1023, 2048, 2048, 5000, 9999, 18000, 32768, 50001]) if big else rng.choice([4, 5, 7, 8, 15, 16, 31, 32, 33, 64, 65, 96, 127, 200]))
            fmax = d.get("f0", 0.0) + (d["nf"] - 1) * d["df"]
            c = rng.random()
            if c < 0.3:
                # also steps that leave the spectrum far below, or well beyond Nyquist
                dt = round(rng.choice([0.1, 0.05, 1.0, 2.0]) / fmax, 4) or 0.01
                n_ = round((op["a"]["tEnd"] - op["a"]["tInit"]) / op["a"]["dt"])
                op["a"]["dt"] = dt
                op["a"]["tEnd"] = round(op["a"]["tInit"] + n_ * dt, 9)
            elif c < 0.45:
                op["a"]["tEnd"] = round(op["a"]["tEnd"] + 0.37 * op["a"]["dt"], 9)
            if rng.random() < 0.2:
                op = {"op": "call", "obj": "o" + n[1:], "m": "create_series", "a": {"tstart": op["a"]["tInit"], "tend": op["a"]["tEnd"], "dt": op["a"]["dt"]}}
            if single and not _is_seeded(op) and rng.random() < 0.7:
                op["fault"] = {"kind": "draws", "how": rng.choice(["zeros", "top", "half", "quarter", "alternate", "ramp", "tiny", "grid"]), "seed": rng.randrange(1000)}
            op["noref"] = True
            return op

        if rng.random() < 0.7:
            scn["clients"] = [[one(True) for _ in range(E.many(rng, 2, 6))]]
        else:
            scn["clients"] = [[one(False) for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([2, 3]))]
            scn["sched"] = E.gen_sched(rng, len(scn["clients"]))
        return scn

    @staticmethod
    def run(scn):
        refs, _ = E.prepare(scn)
        run = E.Run(scn).go()
        out = E.judge(run, {}) if run.abort else []
        nt = False
        for r in run.hist:
            a = r.op["a"]
            dn = r.op["obj"].replace("o", "d") if r.op["op"] == "call" else a["f"][1:].split(".")[0]
            ds = D.build({k: v for k, v in scn["data"][dn].items() if k != "form"})
            t0, t1 = (a["tstart"], a["tend"]) if "tstart" in a else (a["tInit"], a["tEnd"])
            if r.out[0] != "ok":
                out.append(E.viol("refused", "raises %s (%s)" % (r.out[1], r.extra), r))
                continue
            t, x = _xt(r.out[1])
            e = M.realisation_error(t, x, ds["f"], ds["S"], t0, t1, a["dt"])
            if e:
                out.append(E.viol("wrong-realisation", e, r))
            elif np.max(ds["S"]) > 0:
                nt = True
        return run, out, nt, refs
