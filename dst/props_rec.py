"""C19 - C22: what the measurement chain gives back, against an independent model."""
import json

import numpy as np

from dst import data as D
from dst import engine as E
from dst import models as M
from dst import ops as O
from dst import recmodels as R
from dst import seams
from dst.world import TB, fork_call

CHAIN_BUDGET = 30_000_000


def close(a, b, rel=1e-7, ref=None, absol=0.0):
    """largest misfit of array a against b if it is beyond tolerance, else None"""
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind not in "fiuc" or a.size != b.size:
        return "%r values of type %s instead of %r" % (a.shape, a.dtype, b.shape)
    a, b = a.reshape(-1), b.reshape(-1)
    if a.size == 0:
        return None
    bad = np.isnan(a) != np.isnan(b)
    if bad.any():
        return "nan where the model is not, or the other way round"
    if ref is None:
        ref = np.nanmax(np.abs(b)) if np.any(np.isfinite(b)) else 0.0
    with np.errstate(all="ignore"):
        d = np.where(a == b, 0.0, np.abs(a - b))
        d = np.where(np.isnan(a), 0.0, d)
    i = int(np.argmax(d))
    if d[i] > rel * ref + absol:
        return "%.9g instead of %.9g at place %d of %d" % (a[i].real, b[i].real, i, len(b))
    return None


class Chain(E.Run):
    """a run whose records, analysed records and spectra are followed by a model"""

    def __init__(self, scn, **k):
        super().__init__(scn, keep=True, **k)
        self.made = {}  # op id -> what the realisation was made from
        self.known = {}  # object name -> model record
        self.bad = []
        self.checked = 0
        self.skipped = 0

    def uses(self, op):
        """names and results the operation needs that a failed operation never made"""
        text = json.dumps(op)
        if op["op"] in ("call", "attrs", "str", "attr", "specset", "sort") and op["obj"] not in self.env.objs:
            return False
        for v in json_dicts(op.get("a", {})):
            if "ret" in v and v["ret"] not in self.env.rets:
                return False
            for k in ("of", "bins", "per", "count"):
                if k in v and v[k] not in self.env.objs:
                    return False
        return bool(text)

    def do_op(self, c, i, op):
        if op["op"] == "take":
            if op["of"] not in self.env.rets:
                self.env.objs.pop(op["to"], None)
                self.known.pop(op["to"], None)
                return None
            super().do_op(c, i, op)
            self.learn(op)
            return None
        if not self.uses(op):
            self.skipped += 1
            return None
        self.before(op)
        rec = super().do_op(c, i, op)
        self.after(rec)
        return rec

    def before(self, op):
        pass

    def after(self, rec):
        pass

    def learn(self, op):
        pass

    def say(self, cls, text, rec):
        if text and len(self.bad) < 5:
            self.bad.append(E.viol(cls, text, rec))

    def arg(self, op, n, default=None):
        v = op["a"].get(n, default)
        return O.resolve(self.env, v) if not isinstance(v, (int, float, type(None))) else v

    def judge_record(self, rec, what, m, nm):
        """one answered analysis of the record m (of the object nm)"""
        op = rec.op
        x, dt, N = m["x"], m["dt"], len(m["x"])
        tol = m.get("tol", 1e-7)
        self.checked += 1
        r = rec.raw
        ref = np.max(np.abs(x)) or 1.0
        if what in ("get_spectrum_raw", "compute_spectrum_time_series"):
            f, S = (r.f, r.sVarDens) if what[0] == "g" else r
            dfd = self.dfd(op)
            q = abs(dfd) * N * dt % 1.0
            if abs(q - 0.5) < 1e-4:
                # as many bins in a band as in the next: rounding decides
                self.checked -= 1
                return
            fm, Sm = R.raw_spectrum(x, dt, dfd)
            Sref = max(Sm.max(), 1e-12)
            self.say("wrong-spectrum", close(f, fm, rel=tol), rec)
            self.say("wrong-spectrum", close(S, Sm, rel=tol, ref=Sref), rec)
            if "S" in m and not self.bad:
                _, want = R.band_average(np.arange(N // 2 + 1) / (N * dt), m["S"], dfd)
                k = np.isfinite(want)
                self.say("target-lost", close(np.asarray(S)[k], want[k], rel=1e-5, ref=max(Sref, want[k].max() if k.any() else 0)), rec)
        elif what in ("get_fourier_comp", "time2freq_nyquist"):
            X = R.fourier(x)
            self.say("wrong-components", close(r[0], np.arange(len(X)) / (N * dt), rel=tol), rec)
            self.say("wrong-components", close(r[1], X, rel=1e-9, ref=ref * N), rec)
            if bool(r[2]) != bool(N % 2):
                self.say("wrong-components", "isOdd is %r for %d samples" % (r[2], N), rec)
            if "S" in m and not self.bad:
                k = np.isfinite(m["S"])
                want = np.sqrt(m["S"][k] / 2 * N / dt)
                self.say("target-lost", close(np.abs(r[1])[k], want, rel=1e-5, ref=max(want.max(), ref)), rec)
        elif what == "time2freq":
            self.say("wrong-components", close(r[0], np.arange(N) / (N * dt), rel=tol), rec)
            self.say("wrong-components", close(r[1], np.fft.fft(x), rel=1e-9, ref=ref * N), rec)
        elif what == "compute_spectrum_freq_series":
            fm, Sm = R.raw_spectrum(x, dt, self.dfd(op))
            self.say("wrong-spectrum", close(r[0], fm, rel=tol), rec)
            self.say("wrong-spectrum", close(r[1], Sm, rel=tol, ref=max(Sm.max(), 1e-12)), rec)
        elif what == "frequency_averaging":
            fm, Sm = R.raw_spectrum(x, dt, self.dfd(op))
            self.say("wrong-spectrum", close(r[0], fm, rel=tol), rec)
            self.say("wrong-spectrum", close(r[1], Sm, rel=tol, ref=max(Sm.max(), 1e-12)), rec)
        elif what == "applybandfilter":
            X = R.fourier(x)
            f = np.arange(len(X)) / (N * dt)
            k = R.keep(f, self.arg(op, "flow"), self.arg(op, "fhigh"))
            self.say("wrong-band", close(r, np.where(k, X, 0), rel=1e-9, ref=ref * N), rec)
        elif what == "freq2time":
            self.say("not-restored", close(r, x, rel=1e-9, ref=ref), rec)
        elif what in ("get_bandpassfilter", "bandpassfilter"):
            lo, hi = (self.arg(op, "fmin"), self.arg(op, "fmax")) if what[0] == "g" else (self.arg(op, "flow"), self.arg(op, "fhigh"))
            y = r.xTime if what[0] == "g" else r
            b = np.array([lo, hi]) * N * dt
            if not np.any((b > 0.5) & (b < N // 2 + 0.5) & (np.abs(b - np.round(b)) < 1e-6)):
                self.say("wrong-band", close(y, R.band(x, dt, lo, hi), rel=1e-8, ref=ref), rec)
            if what[0] == "g":
                self.say("wrong-band", close(r.time, m["t"], rel=1e-9, ref=max(dt, np.abs(m["t"]).max())), rec)
            if "parts" in op and op["parts"][0] == nm:
                ids = op["parts"][1]
                if all(q in self.env.rets for q in ids):
                    tot = sum(R.vec(self.env.rets[q].xTime) for q in ids)
                    self.say("not-restored", close(tot, x, rel=1e-8, ref=ref), rec)
        elif what in ("get_spectrum", "compute_spectrum_welch_wrapper"):
            f, S = (r.f, r.sVarDens) if what == "get_spectrum" else r
            w = self.welch(op, m)
            if w is None:
                self.say("wrong-spectrum", "a Welch spectrum where none is possible", rec)
            else:
                self.say("wrong-spectrum", close(f, w[0], rel=tol), rec)
                self.say("wrong-spectrum", close(S, w[1], rel=tol, ref=max(w[1].max(), 1e-12 * ref * ref)), rec)
        elif what in ("get_skewness", "get_asymmetry"):
            v = np.var(x)
            if v > 1e-12 * ref * ref:
                self.say("wrong-moment", close(r, R.skewness(x) if what == "get_skewness" else R.asymmetry(x), rel=1e-6, ref=1.0 / min(1.0, v / ref**2) ** 1.5), rec)
        elif what in ("mean", "var", "max", "min"):
            self.say("wrong-moment", close(r, getattr(np, what)(x), rel=1e-10, ref=max(ref, ref * ref)), rec)
        else:
            self.checked -= 1

    def welch(self, op, m):
        a = op["a"]
        if op.get("m") == "get_spectrum" and a.get("use_dfDesired", True):
            n = int(round(1 / m["dt"] / self.dfd(op)))
            return R.welch(m["x"], m["dt"], n, int(np.round(n / 2)), 0, "hann")
        return R.welch(m["x"], m["dt"], a.get("nperseg", 256 if "m" in op else 0), a.get("noverlap", 0), a.get("nfft", 0), a.get("windows_type") or a.get("window_type", "hann"))

    def dfd(self, op):
        """the bands asked for"""
        return self.arg(op, "dfDesired", 0.01 if op["op"] == "call" else 0.0)

    def judge_spec(self, rec, what, m):
        """one answered parameter of the spectrum m"""
        op = rec.op
        a = op.get("a", {})
        f, S = m["f"], m["S"]
        lo, hi = a.get("fmin", -1.0), a.get("fmax", -1.0)
        lo, hi = np.inf if lo == "inf" else lo, np.inf if hi == "inf" else hi
        full = (lo == -1.0, hi == -1.0)
        lo, hi = f[0] if full[0] else lo, f[-1] if full[1] else hi
        rel = 1e-3 if m.get("single") else 1e-6
        r = rec.raw

        def check(name, got, want, k=1.0):
            if not np.isfinite(want):
                return
            self.checked += 1
            got = np.asarray(got, dtype=float).reshape(-1)
            if got.size != 1 or not abs(got[0] - want) <= k * rel * abs(want):
                self.say("wrong-parameter", "%s is %r instead of %r" % (name, got.tolist(), float(want)), rec)

        def vague(lo, hi, all=True):
            # limits half way between bins, or an answer that hangs on cancellation
            return any(np.isfinite(v) and R.ambiguous(f, v) for v in (lo, hi)) or not np.all(S >= 0)

        if what == "compute_moment":
            q = a["m"]
            if full != (True, True) and vague(lo, hi):
                return
            if full == (True, True) and q < 0 and f[0] == 0:
                lo = f[1]
            check("moment %d" % q, r, R.moment(f, S, q, lo, hi))
            return
        if what == "compute_spectrum_params":
            names = ("Hm0", "Tp", "Tps", "Tmm10", "Tm01", "Tm02")
            if len(r) != 6:
                return self.say("wrong-parameter", "%d parameters" % len(r), rec)
            if vague(lo, hi):
                return
            P = R.params(f, S, lo, hi)
            if np.all(S == 0.0):
                self.checked += 1
                if not np.all(np.isnan(np.asarray(r, dtype=float))):
                    self.say("wrong-parameter", "%r for a spectrum without waves" % (list(r),), rec)
            if not (P["Hm0"] > 2e-6):
                return
            for k, v in zip(names, r):
                if k != "Tps":
                    check(k, v, P[k])
                else:
                    self.check_tps(rec, v, *R.part(f, S, lo, hi), rel)
            return
        if what == "frequency_averaging":
            fm, Sm = R.band_average(f, S, self.dfd(op))
            self.checked += 1
            self.say("wrong-spectrum", close(r[0], fm, rel=1e-7), rec)
            self.say("wrong-spectrum", close(r[1], Sm, rel=rel, ref=max(np.max(np.abs(Sm)), 1e-300) if np.all(np.isfinite(Sm)) else 1.0), rec)
            return
        if what == "tpd":
            want = R.tpd(f, S)
            if want is not None and not vague(*want[:2]):
                check("TpD", r, want[2])
            return
        if what in ("compute_tps", "get_Tps"):
            return self.check_tps(rec, r, *(R.part(f, S, lo, hi) if what == "get_Tps" else (f, S)), rel)
        base = what.split("_")[1] if what.startswith("get_") else ""
        if base not in ("Hm0", "Tp", "Tmm10", "Tm01", "Tm02", "s0p", "smm10"):
            return
        if what.endswith(("_HF", "_LF")):
            P = R.params(f, S, f[0], f[-1])
            if vague(f[0], f[-1]) or not np.isfinite(P["Tmm10"]) or P["Tmm10"] <= 0:
                return
            cut = 0.45 / P["Tmm10"]
            d = np.sort(np.abs(f - cut))
            if d[1] - d[0] < 1e-4 * (f[1] - f[0]):
                return
            if what.endswith("_HF") and full[0]:
                lo = cut
            if what.endswith("_LF") and full[1]:
                hi = cut
        if base == "Tp":
            fp, Sp = R.part(f, S, lo, hi)
            if len(fp) and R.peak(fp, Sp) > 0:
                check(what, r, 1 / R.peak(fp, Sp))
            return
        if vague(lo, hi):
            return
        P = R.params(f, S, lo, hi)
        if not (P["m"][0] > 1e-13):
            return
        if base in P:
            check(what, r, P[base])
        elif base == "smm10":
            check(what, r, 2 * np.pi * P["Hm0"] / (a.get("g", 9.81) * P["Tmm10"] ** 2), 3)
        else:
            T = np.sqrt(2 * np.pi * P["Hm0"] / (a.get("g", 9.81) * np.asarray(r, dtype=float)))
            self.check_tps(rec, T, *R.part(f, S, lo, hi), 2 * rel, signless=True)

    def check_tps(self, rec, got, f, S, rel, signless=False):
        if not len(f) or not np.all(np.isfinite(S)):
            return
        want = R.tps(f, S)
        got = np.asarray(got, dtype=float).reshape(-1)
        if np.all(S == 0.0) and not signless:
            self.checked += 1
            # no wave has that period
            if not (got.size == 1 and (np.isnan(got[0]) or got[0] == -999)):
                self.say("wrong-parameter", "smoothed peak period %r of a spectrum without waves" % got.tolist(), rec)
        if want is None:
            return
        self.checked += 1
        want = np.abs(want) if signless else np.asarray(want)
        ok = got.size == 1 and any((not np.isfinite(w) and not np.isfinite(got[0])) or abs(got[0] - w) <= 30 * rel * max(1.0, abs(w) * (f[1] - f[0] if len(f) > 1 else 1.0)) * abs(w) for w in want)
        if not ok:
            self.say("wrong-parameter", "smoothed peak period %r, not one of %r" % (got.tolist(), list(want)[:4]), rec)


def json_dicts(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from json_dicts(v)
    elif isinstance(x, list):
        for v in x:
            yield from json_dicts(v)


DEFAULT = {"dfDesired": 0.0, "nperseg": 0, "noverlap": 0, "nfft": 0, "window_type": "hann", "windows_type": "hann"}


def analysis_ops(rng, name, core=True):
    """analyses of record `name`, some of them with what is the default left out"""
    op = _analysis_ops(rng, name, core)
    a = op["a"]
    if rng.random() < 0.4:
        for k, v in DEFAULT.items():
            if k in a and a[k] == v and not (k == "dfDesired" and op["op"] == "call"):
                del a[k]
    elif op.get("m") in ("get_spectrum_raw", "get_spectrum") and rng.random() < 0.1:
        op["a"] = {}
    elif op.get("m") == "get_spectrum" and "nperseg" in a and rng.random() < 0.1:
        op["a"] = {"use_dfDesired": False}
    return op


def _analysis_ops(rng, name, core=True):
    """analyses of record `name` (spectral and in time)"""
    df = lambda m: {"bins": name, "b": m}
    A = lambda at: {"of": name, "at": at}
    c = rng.random()
    if c < 0.2:
        m = rng.choice([0.0, 0.0, 1, 2, 3, 4, 5, 8, 2.3, 0.3, 1.7])
        d = df(m) if m else 0.0
        if core and rng.random() < 0.5:
            return {"op": "fn", "f": "core_spectral.compute_spectrum_time_series", "a": {"t": A("time"), "xTime": A("xTime"), "dfDesired": d}}
        return {"op": "call", "obj": name, "m": "get_spectrum_raw", "a": {"dfDesired": d}}
    if c < 0.34:
        if core and rng.random() < 0.6:
            return {"op": "fn", "f": rng.choice(["core_spectral.time2freq", "core_spectral.time2freq_nyquist"]), "a": {"t": A("time"), "xTime": A("xTime")}}
        return {"op": "call", "obj": name, "m": "get_fourier_comp", "a": {}}
    if c < 0.56:
        lo = rng.choice([-3.0, 0.0, 0.5, 0.5, 1.5, 2.5, 4.5, 7.5, 12.5, 20.5])
        # half way between two bins, so that rounding decides nothing
        hi = rng.choice([np.floor(lo) + rng.choice([1.5, 2.5, 3.5, 5.5, 9.5, 17.5]), 1e6, lo])
        lo, hi = df(lo), df(hi)
        if rng.random() < 0.2:
            # limits near the highest frequency
            hi = {**df(rng.choice([-0.5, 0.5, 0.5, 1.5, 2.5])), "last": True}
            if rng.random() < 0.4:
                lo = {**df(hi["b"] + rng.choice([1, 2, 3])), "last": True}
        if core and rng.random() < 0.5:
            return {"op": "fn", "f": "core_spectral.bandpassfilter", "a": {"t": A("time"), "xTime": A("xTime"), "flow": lo, "fhigh": hi}}
        return {"op": "call", "obj": name, "m": "get_bandpassfilter", "a": {"fmin": lo, "fmax": hi}}
    if c < 0.72:
        w = rng.choice(["hann", "hann", "boxcar", "hamming"])
        k = rng.choice([4, 5, 8, 9, 12, 16])
        if core and rng.random() < 0.3:
            return {"op": "fn", "f": "core_spectral.compute_spectrum_welch_wrapper", "a": {"xTime": A("xTime"), "dt": {"of": name, "at": "dt"}, "nperseg": rng.choice([k, k, 0]), "noverlap": rng.choice([0, 0, 3, k // 2]), "nfft": rng.choice([0, 0, 32]), "window_type": w}}
        if rng.random() < 0.5:
            return {"op": "call", "obj": name, "m": "get_spectrum", "a": {"dfDesired": {"per": name, "k": k}}}
        return {"op": "call", "obj": name, "m": "get_spectrum", "a": {"use_dfDesired": False, "nperseg": k, "noverlap": rng.choice([0, 0, 3]), "nfft": rng.choice([0, 0, 32]), "windows_type": w}}
    if c < 0.8:
        return {"op": "call", "obj": name, "m": rng.choice(["get_skewness", "get_asymmetry"]), "a": {}}
    return {"op": "call", "obj": name, "m": rng.choice(["mean", "var", "max", "min"]), "a": {}}


class C19:
    id = "C19"
    rule = (
        "realisations with any seed, shared-generator state or injected draws, named and analysed "
        "in any order (raw, averaged and Welch spectra, Fourier components there and back, "
        "band filters, moments of the record), by one or several interleaved clients, with "
        "failing calls, other draws and clock jumps in between; every answer against an "
        "independent model of the record, and the spectra against the density the realisation "
        "was made from; non-trivial when an analysis was compared"
    )
    quick, thorough = 6000, 90000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        for j in range(rng.choice([1, 1, 2])):
            d = D.gen_cast(rng, D.gen_spec(rng), 0.08)
            d.pop("twoD", None)
            scn["data"]["d%d" % j] = d
            scn["objs"]["s%d" % j] = {"cls": "Spectrum", "data": "d%d" % j}
        multi = rng.random() < 0.3
        k = [0]

        def chain(cl):
            lst = []
            names = []
            for _ in range(rng.choice([1, 1, 2])):
                k[0] += 1
                rid, nm = "r%d" % k[0], "w%d" % rng.randrange(2) + "c%d" % cl
                dn = rng.choice(list(scn["data"]))
                n = rng.choice([16, 24, 31, 32, 40, 48, 64, 65, 96, 100, 128]) if not multi else rng.choice([16, 24, 32])
                op = O.synth_op(rng, dn, scn["data"][dn], seeded=rng.random() < 0.5, n=n)
                if rng.random() < 0.25:
                    a = op["a"]
                    op = {"op": "call", "obj": "s" + dn[1:], "m": "create_series", "a": {"tstart": a["tInit"], "tend": a["tEnd"], "dt": a["dt"]}}
                if not multi and "seed" not in op["a"] and rng.random() < 0.6:
                    op["fault"] = {"kind": "draws", "how": rng.choice(["zeros", "top", "half", "quarter", "alternate", "ramp", "tiny", "grid"]), "seed": rng.randrange(1000)}
                op["id"] = rid
                lst += [op, {"op": "take", "of": rid, "to": nm}]
                names.append(nm)
                for _ in range(E.many(rng, 2, 6) if not multi else rng.randrange(1, 3)):
                    nm = rng.choice(names)
                    c = rng.random()
                    if c < 0.1:
                        # to frequency and back
                        k[0] += 2
                        f1, f2 = "q%d" % k[0], "q%d" % (k[0] - 1)
                        lst += [
                            {"op": "call", "obj": nm, "m": "get_fourier_comp", "a": {}, "id": f1},
                            {"op": "fn", "f": "core_spectral.unfold_spectrum", "a": {"f": {"ret": f1, "i": 0}, "xFreq": {"ret": f1, "i": 1}, "isOdd": {"ret": f1, "i": 2}}, "id": f2},
                            {"op": "fn", "f": "core_spectral.freq2time", "a": {"xFreq": {"ret": f2, "i": 1}}, "back": nm},
                        ]
                    elif c < 0.2:
                        # bands that adjoin
                        cuts = sorted({rng.choice([0.5, 1.5, 3.5, 5.5, 9.5, 14.5]) for _ in range(rng.choice([1, 2, 3]))})
                        if rng.random() < 0.4:
                            cuts = sorted({np.floor(q) or 2 for q in cuts})  # on a bin: it goes to one of the two
                        ids = []
                        for lo, hi in zip([0.0] + cuts, cuts + [1e6]):
                            k[0] += 1
                            ids.append("q%d" % k[0])
                            lst.append({"op": "call", "obj": nm, "m": "get_bandpassfilter", "a": {"fmin": {"bins": nm, "b": lo}, "fmax": {"bins": nm, "b": hi}}, "id": ids[-1]})
                        lst[-1]["parts"] = [nm, ids]
                    elif c < 0.3:
                        # an analysed record is a record
                        k[0] += 1
                        q = "q%d" % k[0]
                        to = "w%dc%d" % (2 + rng.randrange(2), cl)
                        lo = rng.choice([0.0, 0.5, 1.5])
                        lst += [
                            {"op": "call", "obj": nm, "m": "get_bandpassfilter", "a": {"fmin": {"bins": nm, "b": lo}, "fmax": {"bins": nm, "b": np.floor(lo) + rng.choice([3.5, 6.5, 12.5])}}, "id": q},
                            {"op": "take", "of": q, "to": to},
                        ]
                        names.append(to)
                    elif c < 0.36:
                        # from the components to a density
                        k[0] += 1
                        f1 = "q%d" % k[0]
                        fx = {"f": {"ret": f1, "i": 0}, "xFreq": {"ret": f1, "i": 1}}
                        lst.append({"op": "call", "obj": nm, "m": "get_fourier_comp", "a": {}, "id": f1})
                        if rng.random() < 0.5:
                            lst.append({"op": "fn", "f": "core_spectral.compute_spectrum_freq_series", "a": {**fx, "Ntime": {"count": nm}, "dfDesired": {"bins": nm, "b": rng.choice([0, 1, 2, 3, 5])}}, "on": nm, "from": f1})
                        else:
                            lo = rng.choice([-2.0, 0.5, 1.5, 3.5, 6.5])
                            lst.append({"op": "fn", "f": "core_spectral.applybandfilter", "a": {**fx, "flow": {"bins": nm, "b": lo}, "fhigh": {"bins": nm, "b": rng.choice([np.floor(lo) + 2.5, np.floor(lo) + 6.5, 1e6])}}, "on": nm, "from": f1})
                    elif c < 0.41:
                        # two records side by side, in either order
                        k[0] += 2
                        f1, f2 = "q%d" % k[0], "q%d" % (k[0] - 1)
                        two = rng.choice(names)
                        b = {"bins": nm, "b": rng.choice([0, 0, 2, 3, 4])}
                        lst += [
                            {"op": "call", "obj": nm, "m": "get_fourier_comp", "a": {}, "id": f1},
                            {"op": "call", "obj": two, "m": "get_fourier_comp", "a": {}, "id": f2},
                            {"op": "fn", "f": "core_spectral.coherence", "a": {"f": {"ret": f1, "i": 0}, "xFreq1": {"ret": f1, "i": 1}, "xFreq2": {"ret": f2, "i": 1}, "dfDesired": b}, "on": nm, "two": two, "from": f1, "from2": f2},
                            {"op": "fn", "f": "core_spectral.coherence", "a": {"f": {"ret": f1, "i": 0}, "xFreq1": {"ret": f2, "i": 1}, "xFreq2": {"ret": f1, "i": 1}, "dfDesired": b}, "on": nm, "two": two, "from": f1, "from2": f2},
                        ]
                    elif c < 0.46:
                        # averaged afterwards
                        k[0] += 1
                        f1 = "q%d" % k[0]
                        lst += [
                            {"op": "call", "obj": nm, "m": "get_spectrum_raw", "a": {"dfDesired": 0.0}, "id": f1},
                            {"op": "fn", "f": "core_spectral.frequency_averaging", "a": {"f": {"ret": f1, "at": "f"}, "sVarDens": {"ret": f1, "at": "sVarDens"}, "dfDesired": {"bins": nm, "b": rng.choice([0, 1, 2, 3, 4, 7, 0.3])}}, "on": nm, "from": f1},
                        ]
                    elif c < 0.51 and not multi:
                        lst.append(rng.choice([{"op": "npseed", "v": rng.randrange(9)}, {"op": "npdraw", "n": 7}, {"op": "clock", "v": 1e6}]))
                    elif c < 0.56 and not multi:
                        lst.append(O.gen_refill(rng, dn, scn["data"][dn]))
                    else:
                        op = analysis_ops(rng, nm)
                        if rng.random() < 0.08:
                            lst.append({**op, "fault": {"kind": rng.choice(["kbi", "oom"]), "frac": round(rng.random(), 3), "total": rng.choice([10, 60])}})
                        lst.append(op)
            return lst

        scn["clients"] = [chain(c) for c in range(rng.choice([2, 2, 3]) if multi else 1)]
        if multi:
            scn["sched"] = E.gen_sched(rng, len(scn["clients"]))
            scn["sched"].setdefault("total", 20000)
            scn["jumps"] = E.gen_jumps(rng)
        scn["budget"] = CHAIN_BUDGET * (4 if max(map(len, scn["clients"])) > 40 else 1)
        return scn

    class Run(Chain):
        def __init__(self, scn, **k):
            super().__init__(scn, **k)
            self.src = {}  # op id -> the record it analysed

        def before(self, op):
            a = op.get("a", {})
            if "create_series" == op.get("m"):
                o = self.env.objs[op["obj"]]
                self.made[op["id"]] = (R.vec(o.f), R.vec(o.sVarDens), a["dt"])
            elif "spectrum2timeseries" in op.get("f", ""):
                self.made[op["id"]] = (R.vec(self.arg(op, "f")), R.vec(self.arg(op, "sVarDens")), a["dt"])

        def learn(self, op):
            o = self.env.objs[op["to"]]
            m = {"t": R.vec(o.time), "x": R.vec(o.xTime)}
            m["dt"] = (m["t"][-1] - m["t"][0]) / (len(m["t"]) - 1)
            if op["of"] in self.made and len(m["t"]) >= 4:
                f, S, dt = self.made[op["of"]]
                N = len(m["x"])
                if N % 2 == 0:
                    fk = np.arange(1, N // 2) / (N * dt)
                    want = M.target_amplitudes(fk, f, S, N, dt) ** 2 / 2 * N * dt
                    m["S"] = np.concatenate([[0.0], np.where(M.edge_bins(fk, f, 1 / (N * dt)), np.nan, want), [np.nan]])
            self.known[op["to"]] = m

        def after(self, rec):
            op = rec.op
            a = op.get("a", {})
            nm = op.get("obj") or (a.get("xTime") or {}).get("of") if isinstance(a.get("xTime", {}), dict) else None
            if "back" in op:
                nm = op["back"]
            nm = op.get("on", nm)
            # the components are those of the record the name had when they were made
            if any(self.src.get(op[q]) is not self.known.get(n) for q, n in (("from", nm), ("from2", op.get("two"))) if q in op):
                return
            if "id" in op and op.get("obj") in self.known:
                self.src[op["id"]] = self.known[op["obj"]]
            if nm not in self.known or (op["op"] == "fn" and op["f"].endswith("unfold_spectrum")):
                return
            m = self.known[nm]
            x, dt, N = m["x"], m["dt"], len(m["x"])
            if rec.fired in ("kbi", "oom"):
                return
            what = op.get("m") or op["f"].split(".")[1]
            if rec.out[0] != "ok":
                if what == "coherence" and len(self.known[op["two"]]["x"]) != N:
                    return
                if what in ("get_spectrum", "compute_spectrum_welch_wrapper") and self.welch(op, m) is None:
                    return
                if what == "get_spectrum_raw" and len(R.raw_spectrum(x, dt, self.dfd(op))[0]) < 2:
                    return
                self.say("refused", "%s of a realisation raises %s (%s)" % (what, rec.out[1], rec.extra), rec)
                return
            if what == "coherence":
                return self.judge_coherence(rec, m, self.known[op["two"]])
            self.judge_record(rec, what, m, nm)

        def judge_coherence(self, rec, m, m2):
            N = len(m["x"])
            if len(m2["x"]) != N:
                return
            self.checked += 1
            dfd = self.arg(rec.op, "dfDesired")
            X, Y = R.fourier(m["x"]), R.fourier(m2["x"])
            f = np.arange(len(X)) / (N * m["dt"])
            fm, a = R.band_average(f, np.abs(X) ** 2, dfd)
            b = R.band_average(f, np.abs(Y) ** 2, dfd)[1]
            c = np.abs(R.band_average(f, X * np.conj(Y), dfd)[1])
            got = np.asarray(rec.raw[1], dtype=float)
            self.say("wrong-coherence", close(rec.raw[0], fm, rel=1e-9), rec)
            if np.any(got < -1e-9) or np.any(got > 1 + 1e-9):
                self.say("wrong-coherence", "coherence outside 0..1: %r to %r" % (got.min(), got.max()), rec)
            k = (a > 1e-6) & (b > 1e-6)  # smaller ones are cut off by contract
            self.say("wrong-coherence", close(got[k], (c**2)[k] / (a * b)[k], rel=1e-6, ref=1.0) if len(got) == len(k) else "length", rec)

    @staticmethod
    def run(scn):
        scn.setdefault("budget", CHAIN_BUDGET)
        refs = E.Refs(scn)
        run = C19.Run(scn).go()
        out = E.judge(run, {}) if run.abort else []
        return run, out + run.bad, run.checked > 0, refs


# ---------------------------------------------------------------------------
def arrays(op, d):
    return {k: "@%s.%s" % (d, k) for k in ("time", "xTime")}


class C20:
    id = "C20"
    rule = (
        "wave records as faulty sensors deliver them (quantised, clipped, stuck, lost, spiked, "
        "drifting, offset, dead, flipped, repeating, noisy; several faults at once), analysed for "
        "crossings, individual waves and their statistics through objects and core functions, "
        "in histories with sorting, renewed buffers and failing calls, or by interleaved "
        "clients; every answer against a model of the waves between the zero crossings; "
        "non-trivial when a damaged record was analysed"
    )
    quick, thorough = 5000, 60000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        for j in range(rng.choice([1, 1, 2])):
            d = D.gen_series(rng, big=rng.random() < 0.03, small=rng.random() < 0.75)
            if d["kind"] in ("pos",) and rng.random() < 0.7:
                d["kind"] = "narrow"
            if rng.random() < 0.85:
                d["sensor"] = [D.gen_sensor(rng) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
            if rng.random() < 0.06 and d["kind"] != "int":
                # a record in the wrong unit, by far
                d["sensor"] = d.get("sensor", []) + [{"k": "gain", "v": rng.choice([1e-170, 1e-165, 1e-100, 1e-20, 1e20, 1e100])}]
                d.pop("f32", None)
            else:
                D.add_special(rng, d, 0.08, nan=False)
            if "edits" in d:
                d["edits"] = [e for e in d["edits"] if e["v"] != "big"]
            if d["kind"] == "int":
                d.pop("f32", None)
            scn["data"]["d%d" % j] = D.gen_form(rng, D.gen_cast(rng, d, 0.1), 0.25)
            scn["objs"]["o%d" % j] = {"cls": "Series", "data": "d%d" % j}
        if rng.random() < 0.15:
            # waves counted elsewhere
            d = D.gen_waves(rng, big=rng.random() < 0.05)
            if rng.random() < 0.4:
                d["n"] = rng.choice([50, 100, 100, 200])
            scn["data"]["w0"] = D.gen_cast(rng, d, 0.3)
            scn["objs"]["w0"] = {"cls": "WaveHeights", "data": "w0"}
        multi = rng.random() < 0.25
        k = [0]

        def one(cl):
            o = rng.choice(list(scn["objs"]))
            if o == "w0":
                c = rng.random()
                if c < 0.1 and not multi:
                    return [{"op": "call", "obj": o, "m": "sort", "a": {}}]
                if c < 0.2:
                    return [{"op": "attrs", "obj": o}]
                if c < 0.5:
                    return [{"op": "call", "obj": o, "m": "get_exceedance_waveheight", "a": {"excPerc": rng.choice([rng.randrange(101), 29, 57, 58, 82])}} for _ in range(rng.choice([1, 2, 3]))]
                return [O.waves_query(rng, o)]
            dn = "d" + o[1:]
            c = rng.random()
            A = arrays(None, dn)
            if scn["data"][dn].get("form") == "col":
                c *= 0.7  # the core functions want 1D arrays
            if c < 0.3:
                op = O.waves_query(rng, o)
                return [op]
            if c < 0.42:
                return [{"op": "call", "obj": o, "m": "get_crossing", "a": rng.choice([{}, {"typeCross": "up"}, {"typeCross": "down"}, {"typeCross": "Up"}])}]
            if c < 0.5:
                return [{"op": "attrs", "obj": o}]
            if c < 0.56 and not multi:
                return [{"op": "call", "obj": o, "m": "sort", "a": {}}]
            if c < 0.64 and not multi:
                return [O.gen_refill(rng, dn, scn["data"][dn]), {"op": "new", "obj": o, "cls": "Series", "data": dn}]
            if c < 0.7:
                return [{"op": "new", "obj": "n%d" % cl, "cls": "Series", "data": dn}, O.waves_query(rng, "n%d" % cl), {"op": "attrs", "obj": "n%d" % cl}]
            k[0] += 2
            q1, q2 = "q%d" % k[0], "q%d" % (k[0] - 1)
            kind = rng.choice(["up", "down", "down"])
            lst = [
                {"op": "fn", "f": "core_time.determine_zero_crossing", "a": {"t": A["time"], "xTime": A["xTime"], "typeCross": kind}, "id": q1, "src": dn},
            ]
            if c < 0.78:
                return lst
            lst.append({"op": "fn", "f": "core_time.determine_params_individual_waves", "a": {"tCross": {"ret": q1, "i": 1}, "t": A["time"], "xTime": A["xTime"]}, "id": q2, "src": dn, "kind": kind})
            if c < 0.86:
                return lst
            k[0] += 1
            q3 = "q%d" % k[0]
            lst.append({"op": "fn", "f": "core_time.sort_wave_params", "a": {"hWave": {"ret": q2, "i": 0}, "tWave": {"ret": q2, "i": 1}}, "id": q3, "src": dn, "kind": kind})
            if rng.random() < 0.5:
                lst.append({"op": "fn", "f": "core_time.highest_waves_params", "a": {"hWaveSorted": {"ret": q3, "i": 0}, "tWaveSorted": {"ret": q3, "i": 1}, "fracP": rng.choice([0, 0.02, 0.1, 1 / 3, 0.5, 1.0, round(rng.random(), 3)])}, "src": dn, "kind": kind})
            else:
                lst.append({"op": "fn", "f": "core_time.exceedance_wave_height", "a": {"hWaveSorted": {"ret": q3, "i": 0}, "excPerc": rng.choice([0, 1, 2, 5, 10, 33.3, 50, 100, round(100 * rng.random(), 2)])}, "src": dn, "kind": kind})
            return lst

        def client(cl):
            lst = []
            for _ in range(E.many(rng, 2, 7) if not multi else rng.randrange(1, 4)):
                x = one(cl)
                if rng.random() < 0.08 and x[0]["op"] in ("call", "fn") and x[0].get("m") != "sort":
                    lst.append({**{q: v for q, v in x[0].items() if q != "id"}, "fault": {"kind": rng.choice(["kbi", "oom"]), "frac": round(rng.random(), 3), "total": rng.choice([10, 100, 1000])}})
                lst += x
            return lst

        scn["clients"] = [client(c) for c in range(rng.choice([2, 3]) if multi else 1)]
        if multi:
            scn["sched"] = E.gen_sched(rng, len(scn["clients"]))
            scn["sched"].setdefault("total", 20000)
        scn["budget"] = CHAIN_BUDGET * (4 if max(map(len, scn["clients"])) > 40 else 1)
        return scn

    class Run(Chain):
        def truth(self, t, x, kind="down"):
            cr = R.crossings(t, x, kind)
            return {"edge": R.on_the_edge(t, x, cr), "t": R.vec(t), "x": R.vec(x), "cr": cr, "w": R.waves(t, x, cr), "single": np.asarray(x).dtype == np.float32, "sorted": False}

        def model(self, name):
            if name not in self.known:
                o = self.env.objs[name]
                if name == "w0":
                    d = self.env.data[name]
                    h, T = np.array(d["hwave"], dtype=float), np.array(d["twave"], dtype=float)
                    self.known[name] = {"t": np.arange(2.0), "x": h, "cr": None, "w": list(zip(h, T)), "single": False, "sorted": False}
                else:
                    self.known[name] = self.truth(o.time, np.asarray(o.xTime))
            return self.known[name]

        def before(self, op):
            if op["op"] == "new":
                self.known.pop(op["obj"], None)
                self.env.objs.pop(op["obj"], None)
            if "src" in op:
                d = self.env.data[op["src"]]
                key = json.dumps([self.env.defs[op["src"]], op.get("kind") or op["a"].get("typeCross")], sort_keys=True)
                if key not in self.known:
                    self.known[key] = self.truth(d["time"], np.asarray(d["xTime"]).reshape(-1), op.get("kind") or op["a"]["typeCross"])
                self.src = self.known[key] if len(self.scn["clients"]) == 1 else None
                self.bykey = key

        def check_stats(self, h, T, op, r, rec):
            m = self.what
            a = op.get("a", {})
            ref = (max(h) if len(h) else 0) or 1.0
            if m in ("highest_waves", "get_Hs", "highest_waves_params"):
                p = 1 / 3 if m == "get_Hs" else a["fracP"]
                H, lo, hi = R.highest(h, T, p)
                self.say("wrong-statistics", close(r[0], H, rel=1e-6, ref=ref), rec)
                s = max(np.abs(T).max() if len(T) else 1, 1e-9) * (1e-4 if self.cur["single"] else 1e-6)
                if not (lo - s <= float(r[1]) <= hi + s):
                    self.say("wrong-statistics", "mean period %r, the waves have %r to %r" % (r[1], lo, hi), rec)
            elif m == "get_H2p_Rayleigh":
                self.say("wrong-statistics", close(r, R.highest(h, T, 1 / 3)[0] * R.RAYLEIGH2P, rel=1e-6, ref=ref), rec)
            elif m in ("get_exceedance_waveheight", "exceedance_wave_height"):
                d = [close(r, v, rel=1e-6, ref=ref) for v in R.exceeded(h, a["excPerc"])]
                self.say("wrong-statistics", d[0] if all(d) else None, rec)
            elif m == "get_Hrms":
                if ref < 1e-100:
                    return  # the squares are beyond the smallest number
                self.say("wrong-statistics", close(r, np.sqrt(np.mean(h**2)), rel=1e-6, ref=ref) if len(h) else None, rec)
            elif m == "get_Hmax":
                self.say("wrong-statistics", close(r, max(h), rel=1e-6, ref=ref) if len(h) else None, rec)

        def eq_cross(self, got, m, rec):
            want = [c[1] for c in m["cr"]]
            dt = (m["t"][-1] - m["t"][0]) / (len(m["t"]) - 1)
            tol = dt * (1e-4 if m["single"] else 1e-6) + 1e-12 * np.abs(m["t"]).max()
            got = np.asarray(got, dtype=float).reshape(-1)
            self.say("wrong-crossings", close(got, want, rel=0.0, absol=tol), rec)
            if len(got) > 1 and not np.all(np.diff(got) > -tol):
                self.say("wrong-crossings", "crossings are not in order", rec)

        def after(self, rec):
            op = rec.op
            if rec.fired in ("kbi", "oom") or op["op"] not in E.TOOLBOX_OPS:
                return
            if op["op"] == "fn":
                m = self.src if len(self.scn["clients"]) == 1 else self.known[json.dumps([self.env.defs[op["src"]], op.get("kind") or op["a"].get("typeCross")], sort_keys=True)]
            elif op["obj"] in self.env.objs:
                m = self.model(op["obj"])
            elif rec.out[0] != "ok":
                return self.say("refused", "raises %s (%s)" % (rec.out[1], rec.extra), rec)
            what = op.get("m") or (op["f"].split(".")[1] if op["op"] == "fn" else op["op"])
            self.what = what
            w = m["w"]
            h, T = np.array([q[0] for q in w]), np.array([q[1] for q in w])
            self.cur = m
            if rec.out[0] != "ok":
                if what == "get_Hmax" and not w:
                    return
                return self.say("refused", "%s raises %s (%s)" % (what, rec.out[1], rec.extra), rec)
            if m.get("edge") and what not in ("get_crossing", "determine_zero_crossing"):
                return
            self.checked += 1
            r = rec.raw
            ref = np.max(np.abs(m["x"])) or 1.0
            tt = dict(rel=1e-4 if m["single"] else 1e-6, ref=(m["t"][-1] - m["t"][0]) / len(m["t"]) + 1e-9 * np.abs(m["t"]).max())
            if what == "get_crossing":
                kind = op["a"].get("typeCross", "down").lower()
                mm = m if kind == "down" else self.truth(m["t"], self.env.objs[op["obj"]].xTime, kind)
                self.eq_cross(r[1], mm, rec)
                if r[0] != max(len(mm["cr"]) - 1, 0):
                    self.say("wrong-crossings", "%r waves between %d crossings" % (r[0], len(mm["cr"])), rec)
            elif what == "determine_zero_crossing":
                self.eq_cross(r[1], m, rec)
                if r[0] != max(len(m["cr"]) - 1, 0):
                    self.say("wrong-crossings", "%r waves between %d crossings" % (r[0], len(m["cr"])), rec)
            elif what == "determine_params_individual_waves":
                for q, name in enumerate(("height", "period", "crest", "trough")):
                    e = close(r[q], [v[q] for v in w], **(tt if q == 1 else dict(rel=1e-6, ref=ref)))
                    self.say("wrong-waves", e and "%s: %s" % (name, e), rec)
                for q, name in ((4, "time of crest"), (5, "time of trough")):
                    got = np.asarray(r[q], dtype=float).reshape(-1)
                    k = [z for z, v in enumerate(w) if v[q] is not None]
                    if len(got) == len(w):
                        e = close(got[k], [m["t"][w[z][q]] for z in k], rel=1e-9, ref=np.abs(m["t"]).max())
                    else:
                        e = "%d values for %d waves" % (len(got), len(w))
                    self.say("wrong-waves", e and "%s: %s" % (name, e), rec)
            elif what == "sort_wave_params" or what in ("attrs", "new", "sort"):
                if what == "sort_wave_params":
                    H, P = r
                else:
                    o = self.env.objs[op["obj"]]
                    H, P = o.hwave, o.twave
                    if what == "sort":
                        m["sorted"] = True
                    if m["cr"] is not None:
                        self.eq_cross(o.tCross, m, rec)
                    if o.nwave != len(w):
                        self.say("wrong-waves", "nwave is %r for %d waves" % (o.nwave, len(w)), rec)
                H, P = np.asarray(H, dtype=float).reshape(-1), np.asarray(P, dtype=float).reshape(-1)
                if len(H) != len(w) or len(P) != len(w):
                    return self.say("wrong-waves", "%d heights, %d periods for %d waves" % (len(H), len(P), len(w)), rec)
                if what == "sort_wave_params" or m["sorted"]:
                    if np.any(np.diff(H) > 0):
                        self.say("wrong-waves", "not in descending order", rec)
                    a, b = np.lexsort((P, H)), np.lexsort((T, h))
                    self.say("wrong-waves", close(H[a], h[b], rel=1e-6, ref=ref), rec)
                    # periods of equal heights may be in any order
                    if not self.bad:
                        self.say("wrong-waves", self.same_pairs(H, P, h, T, ref, tt), rec)
                else:
                    self.say("wrong-waves", close(H, h, rel=1e-6, ref=ref), rec)
                    self.say("wrong-waves", close(P, T, **tt), rec)
            else:
                self.check_stats(h, T, op, r, rec)

        def same_pairs(self, H, P, h, T, ref, tt):
            left = list(zip(h, T))
            for a, b in zip(H, P):
                d = [abs(a - c) / ref + abs(b - e) / tt["ref"] for c, e in left]
                z = int(np.argmin(d))
                if d[z] > 1e-3:
                    return "no wave of height %.6g has the period %.6g" % (a, b)
                del left[z]
            return None

    @staticmethod
    def run(scn):
        scn.setdefault("budget", CHAIN_BUDGET)
        run = C20.Run(scn).go()
        for d in scn["data"].values():
            for e in d.get("sensor", []):
                run.fired("sensor-" + e["k"])
        out = E.judge(run, {}) if run.abort else []
        return run, out + run.bad, run.checked > 0 and any("sensor" in d for d in scn["data"].values()), E.Refs(scn)


# ---------------------------------------------------------------------------
def lims_of(rng, d):
    """frequency limits: none, one, both; in the axis, off it, infinite"""
    nf, df, f0 = d["nf"], d["df"], d.get("f0", 0.0)

    def at(i):
        return round(f0 + i * df, 9)

    c = rng.random()
    if c < 0.3:
        return {}
    lo = rng.choice([0, 1, 2, nf // 8, nf // 4, nf // 3])
    hi = min(nf - 1, lo + rng.choice([2, 3, 4, nf // 3, nf // 2, nf]))
    off = lambda: rng.choice([0.0, 0.0, 0.3, -0.3, 0.1])
    a, b = at(lo + off()), at(hi + off())
    if a <= 0:
        a = rng.choice([0.0, at(1)])
    b = rng.choice([b, b, b, 1.5 * at(nf - 1), "inf"])
    if c < 0.45:
        return {"fmin": a}
    if c < 0.6:
        return {"fmax": b}
    return {"fmin": a, "fmax": b}


def spec_ops(rng, obj, dn, d):
    """a parameter of spectrum obj, or of data set dn through the core functions"""
    L = lims_of(rng, d)
    if dn and rng.random() < 0.35:
        A = {"f": "@%s.f" % dn, "sVarDens": "@%s.S" % dn}
        c = rng.random()
        if c < 0.4:
            return {"op": "fn", "f": "core_wavefunctions.compute_spectrum_params", "a": {**A, **L}}
        if c < 0.48:
            a = {**A, "dfDesired": rng.choice([0.0, 1, 2, 3, 5, 8, 2.3, 0.3]) * d["df"]}
            if a["dfDesired"] == 0.0:
                del a["dfDesired"]
            return {"op": "fn", "f": "core_spectral.frequency_averaging", "a": a}
        if c < 0.75:
            return {"op": "fn", "f": "core_wavefunctions.compute_moment", "a": {**A, "m": rng.choice([-2, -1, -1, 0, 0, 1, 2, 3]), **L}}
        if c < 0.87:
            return {"op": "fn", "f": "core_wavefunctions.tpd", "a": A}
        return {"op": "fn", "f": "core_wavefunctions.compute_tps", "a": A}
    m = rng.choice(O.SPEC_GETTERS)
    if m in ("get_s0p", "get_smm10", "get_smm10_HF") and rng.random() < 0.3:
        L["g"] = rng.choice([9.81, 9.8, 1.62])
    return {"op": "call", "obj": obj, "m": m, "a": L}


GOOD_SENSOR = ("quantised", "clipped", "stuck", "lost", "spike", "hold", "zeroed", "swapped", "dead")


def gen_spec_sensor(rng):
    while True:
        e = D.gen_sensor(rng)
        if e["k"] in GOOD_SENSOR and (e["v"] > 0 or e["k"] == "dead"):
            e["v"] = abs(e["v"])
            return e


class C22:
    id = "C22"
    rule = (
        "spectra as instruments and models deliver them (JONSWAP, double peaked, measured from "
        "realisations of the run, degraded: quantised, clipped, stuck or lost bins, spikes), "
        "asked for moments, wave heights, periods and steepnesses over generated limits in "
        "histories with changed densities, failing calls and theoretical spectra, or by "
        "interleaved clients; every answer against moments and parameters computed "
        "independently; non-trivial when a parameter was compared"
    )
    quick, thorough = 5000, 60000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        for j in range(rng.choice([1, 1, 2])):
            d = D.gen_spec(rng, big=rng.random() < 0.02)
            d.pop("twoD", None)
            if d["nf"] < 8:
                d["nf"] = rng.choice([8, 12, 16])
            if rng.random() < 0.6 and d["kind"] != "int":
                d["sensor"] = [gen_spec_sensor(rng) for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < 0.06 and d["kind"] != "int":
                d["f32"] = True
                d.pop("sensor", None)
            if rng.random() < 0.2 and d["kind"] != "int":
                d["amp"] = rng.choice([1e-3, 0.1, 30.0])
            d = D.gen_cast(rng, d, 0.1)
            scn["data"]["d%d" % j] = D.gen_form(rng, d, 0.25)
            scn["objs"]["s%d" % j] = {"cls": "Spectrum", "data": "d%d" % j}
        if rng.random() < 0.5:
            scn["data"]["g"] = D.gen_fgrid(rng)
        multi = rng.random() < 0.3
        k = [0]

        def client(cl):
            lst = []
            for _ in range(E.many(rng, 3, 9) if not multi else rng.randrange(1, 4)):
                dn = rng.choice([n for n in scn["data"] if n != "g"])
                d = scn["data"][dn]
                o = "s" + dn[1:]
                c = rng.random()
                if c < 0.16 and "g" in scn["data"] and rng.random() < 0.8:
                    lst.append(O.fn_query(rng, "g", scn["data"]["g"]))
                elif c < 0.16 and not multi:
                    lst.append({"op": "specset", "obj": o, "how": rng.choice(["scale", "assign", "bin", "swap", "roll", "rev", "tail"]), "v": rng.choice([0.0, 0.25, 3.0])})
                elif c < 0.24 and not multi:
                    # the spectrum of a realisation of it
                    k[0] += 3
                    r, q = "r%d" % k[0], "r%d" % (k[0] + 1)
                    op = O.synth_op(rng, dn, d, seeded=rng.random() < 0.5, n=rng.choice([32, 64, 65, 128]))
                    nm, sp = "w", "m%d" % rng.randrange(2)
                    lst += [{**op, "id": r}, {"op": "take", "of": r, "to": nm}]
                    lst.append({"op": "call", "obj": nm, "m": "get_spectrum_raw", "a": {"dfDesired": {"bins": nm, "b": rng.choice([1, 2, 3])}}, "id": q} if rng.random() < 0.5 else {"op": "call", "obj": nm, "m": "get_spectrum", "a": {"use_dfDesired": False, "nperseg": rng.choice([16, 32])}, "id": q})
                    lst.append({"op": "take", "of": q, "to": sp})
                    for _ in range(2):
                        lst.append(spec_ops(rng, sp, None, {**d, "f0": 0.0, "nf": max(4, d["nf"] // 2)}))
                elif c < 0.3 and not multi:
                    lst.append(O.gen_refill(rng, dn, d))
                    lst.append({"op": "new", "obj": o, "cls": "Spectrum", "data": dn})
                else:
                    op = spec_ops(rng, o, dn, d)
                    if rng.random() < 0.1:
                        kind = rng.choice(["kbi", "oom", "warn"]) if not multi else "kbi"
                        lst.append({**op, "fault": {"kind": kind, "frac": round(rng.random(), 3), "total": rng.choice([10, 60, 200])}})
                    lst.append(op)
            return lst

        scn["clients"] = [client(c) for c in range(rng.choice([2, 3]) if multi else 1)]
        if multi:
            scn["sched"] = E.gen_sched(rng, len(scn["clients"]))
            scn["sched"].setdefault("total", 20000)
        scn["budget"] = CHAIN_BUDGET * (4 if max(map(len, scn["clients"])) > 40 else 1)
        return scn

    class Run(Chain):
        def before(self, op):
            # what the spectrum is when it is asked
            self.now = None
            if op["op"] == "call" and op["obj"] in self.env.objs and hasattr(self.env.objs[op["obj"]], "sVarDens"):
                o = self.env.objs[op["obj"]]
                f, S = o.f, o.sVarDens
            elif op["op"] == "fn" and "sVarDens" in op["a"] and "spectrum2" not in op["f"]:
                f, S = self.arg(op, "f"), self.arg(op, "sVarDens")
                if np.ndim(S) == 2:
                    f, S = np.ravel(f), np.ravel(S)
            else:
                return
            m = {"f": R.vec(f), "S": R.vec(S), "single": np.asarray(S).dtype == np.float32}
            self.known[id(op)] = m

        def after(self, rec):
            op = rec.op
            if op["op"] == "fn" and "create_spectrum" in op["f"] and rec.out[0] == "ok":
                return self.theory(rec)
            m = self.known.pop(id(op), None)
            if m is None or rec.out[0] != "ok" or op.get("fault"):
                if m is not None and rec.out[0] == "err" and not op.get("fault"):
                    self.failed(rec, m)
                return
            self.judge_spec(rec, op.get("m") or op["f"].split(".")[1], m)

        def failed(self, rec, m):
            a = rec.op.get("a", {})
            what = rec.op.get("m") or rec.op["f"].split(".")[1]
            if what.endswith(("_HF", "_LF")) or (what == "tpd" and not np.max(m["S"]) > 0):
                return
            f = m["f"]
            lo, hi = [np.inf if a.get(k) == "inf" else a.get(k, e) for k, e in (("fmin", f[0]), ("fmax", f[-1]))]
            if len(f) >= 4 and np.sum((f >= lo) & (f <= hi)) >= 3 and np.all(np.isfinite(m["S"])):
                self.say("refused", "%s raises %s (%s)" % (what, rec.out[1], rec.extra), rec)

        def theory(self, rec):
            op, a = rec.op, rec.op["a"]
            r = rec.raw
            f = R.vec(self.arg(op, "f"))
            if "object" in op["f"]:
                self.say("wrong-spectrum", close(r.f, f, rel=1e-12), rec)
                r = r.sVarDens
            g = a.get("gammaPeak", 1.0 if "pierson" in op["f"] else 3.3)
            want = R.jonswap(f, a["fp"], a["hm0"], g, a.get("l_fmax", 0))
            self.checked += 1
            self.say("wrong-spectrum", close(r, want, rel=1e-6), rec)

    @staticmethod
    def run(scn):
        scn.setdefault("budget", CHAIN_BUDGET)
        run = C22.Run(scn).go()
        for d in scn["data"].values():
            for e in d.get("sensor", []):
                run.fired("sensor-" + e["k"])
        out = E.judge(run, {}) if run.abort else []
        return run, out + run.bad, run.checked > 0, E.Refs(scn)


# ---------------------------------------------------------------------------
def even(t):
    """+1: evenly and increasingly sampled, -1: certainly not, 0: neither is claimed;
    for the whole axis, and for what a Series must notice"""
    t = R.vec(t)
    s = np.diff(t)
    dev = np.max(np.abs(s - s[0])) / abs(s[0]) if s[0] else np.inf
    good = s[0] > 0 and np.max(np.abs(s - s.mean())) < 1e-3 * s.mean() * 1e-2 + 4 * np.spacing(np.abs(t).max())
    bad = np.any(s <= 0) or dev > 0.05
    sbad = np.any(s <= 0) or np.max(np.abs(s - s.mean())) > 0.6 * s.mean()
    return (1 if good else -1 if bad else 0), (1 if good else -1 if sbad else 0)


class C21:
    id = "C21"
    rule = (
        "records, spectra and gauge records as damaged loggers deliver them (lost, repeated, "
        "swapped, reversed samples, clock steps, late stamps, changes of rate, stopped clocks, "
        "blocks out of order) and complete ones with clocks that start anywhere, built, "
        "analysed, decomposed, damaged and repaired in histories and by interleaved clients; "
        "uneven axes must be refused by what depends on an even one, complete ones "
        "accepted and answered as a model of the record does; non-trivial when an uneven axis "
        "was offered or a complete one was answered"
    )
    quick, thorough = 5000, 60000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        late = [0.0, 0.0, 5.0, -3.0, 100.0, 86400.0, 1.0e6, 1.2e9, 1.7e9]
        for j in range(rng.choice([1, 2, 2, 3])):
            c = rng.random()
            if c < 0.6:
                d = D.gen_series(rng, big=rng.random() < 0.02, small=rng.random() < 0.8)
                if d["n"] < 24:
                    d["n"] = 32
                d["t0"] = rng.choice(late)
                if rng.random() < 0.15:
                    d["dt"] = rng.choice([0.01, 0.02, 2.0, 10.0])
                if abs(d["t0"]) > 1e7 and d["dt"] < 0.1:
                    d["dt"] = 0.5
                d.pop("f32", None)
                if rng.random() < 0.3:
                    d["sensor"] = [D.gen_sensor(rng)]
            elif c < 0.85:
                d = D.gen_spec(rng)
                d.pop("twoD", None)
                d["nf"] = max(16, d["nf"])
            else:
                d = D.gen_gauges(rng)
                d["w"] = [1.0] * len(d["x"])
                if rng.random() < 0.3:
                    d["t0"], d["dt"] = 1.7e9, 0.25
                elif d["t0"] > 1e6:
                    d["t0"] = 1e4
            if rng.random() < 0.55:
                d["axis"] = [D.gen_axis(rng)]
            if d["type"] != "gauges":
                D.gen_cast(rng, d, 0.12)
            elif rng.random() < 0.12:
                d["cast"] = [{"k": "X", "t": rng.choice(["int8", "int16", "int16", "int32"]), "top": rng.choice([100, 30000, 32767])}]
            if d["type"] != "gauges":
                D_ = D.gen_form(rng, d, 0.2)
                if D_.get("form") != "col":
                    d = D_
            scn["data"]["d%d" % j] = d
        multi = rng.random() < 0.25

        def change(dn):
            """the logger is repaired, or damaged, and delivers again"""
            ax = [] if rng.random() < 0.5 else [D.gen_axis(rng)]
            return {"op": "refill", "data": dn, "axis": ax, **({"fresh": True} if rng.random() < 0.3 else {})}

        def one(cl):
            dn = rng.choice(list(scn["data"]))
            d = scn["data"][dn]
            A = {"t": "@%s.time" % dn, "xTime": "@%s.xTime" % dn}
            c = rng.random()
            if d["type"] == "gauges":
                return [{"op": "fn", "f": "core_wave_decomposition.decompose_linear_ZS", "a": {"t": "@%s.t" % dn, "xTime": "@%s.X" % dn, "h": d["h"], "x_loc": "@%s.x_loc" % dn, "w_loc": "@%s.w_loc" % dn}, "src": dn}]
            if d["type"] == "spec":
                o = "%so%d" % (dn, cl)
                if c < 0.45:
                    return [{"op": "new", "obj": o, "cls": "Spectrum", "data": dn}] + [spec_ops(rng, o, None, d) for _ in range(rng.randrange(3))]
                if c < 0.7:
                    return [{"op": "fn", "f": "core_wavefunctions.compute_spectrum_params", "a": {"f": "@%s.f" % dn, "sVarDens": "@%s.S" % dn}, "src": dn}]
                if c < 0.9 or d.get("cast"):
                    return [{"op": "fn", "f": "core_wavefunctions.compute_moment", "a": {"f": "@%s.f" % dn, "sVarDens": "@%s.S" % dn, "m": rng.choice([-1, 0, 1, 2])}, "src": dn}]
                return [{"op": "fn", "f": "core_spectral.compute_spectrum_freq_series", "a": {"f": "@%s.f" % dn, "xFreq": "@%s.S" % dn, "Ntime": 2 * d["nf"] - 2, "dfDesired": 0.0}, "src": dn}]
            o = "%so%d" % (dn, cl)
            df = 1 / (d["n"] * d["dt"])
            if c < 0.45:
                return [{"op": "new", "obj": o, "cls": "Series", "data": dn}] + [analysis_ops(rng, o, core=False) if rng.random() < 0.7 else {"op": "call", "obj": o, "m": "get_crossing", "a": {}} for _ in range(rng.randrange(3))]
            if c < 0.6:
                return [{"op": "fn", "f": "core_spectral.time2freq", "a": A, "src": dn}]
            if c < 0.75:
                return [{"op": "fn", "f": "core_spectral.time2freq_nyquist", "a": A, "src": dn}]
            if c < 0.88:
                return [{"op": "fn", "f": "core_spectral.compute_spectrum_time_series", "a": {**A, "dfDesired": rng.choice([0, 1, 2, 3]) * df}, "src": dn}]
            lo = rng.choice([-1.0, 0.5, 1.5, 3.5])
            return [{"op": "fn", "f": "core_spectral.bandpassfilter", "a": {**A, "flow": lo * df, "fhigh": rng.choice([np.floor(lo) + 4.5, np.floor(lo) + 8.5, 1e6]) * df}, "src": dn}]

        def client(cl):
            lst = []
            for _ in range(E.many(rng, 3, 9) if not multi else rng.randrange(1, 4)):
                if not multi and rng.random() < 0.25:
                    lst.append(change(rng.choice(list(scn["data"]))))
                lst += one(cl)
                if rng.random() < 0.08:
                    lst.append({**lst[-1], "fault": {"kind": rng.choice(["kbi", "oom"]), "frac": round(rng.random(), 3), "total": rng.choice([10, 60])}})
            return lst

        scn["clients"] = [client(c) for c in range(rng.choice([2, 3]) if multi else 1)]
        if multi:
            scn["sched"] = E.gen_sched(rng, len(scn["clients"]))
            scn["sched"].setdefault("total", 20000)
        scn["budget"] = CHAIN_BUDGET * (4 if max(map(len, scn["clients"])) > 40 else 1)
        return scn

    class Run(Chain):
        def __init__(self, scn, **k):
            super().__init__(scn, **k)
            self.offered = 0
            self.later = []

        def before(self, op):
            if op["op"] == "new":
                self.env.objs.pop(op["obj"], None)
                self.known.pop(op["obj"], None)
            if op["op"] == "new" or "src" in op:
                d = self.env.data[op.get("src") or op["data"]]
                ax = next(k for k in ("time", "f", "t") if k in d)
                a, s = even(d[ax])
                m = {"even": s if ax == "time" and op["op"] == "new" else a, "ax": ax}
                if ax == "time":
                    m.update(t=R.vec(d["time"]), x=R.vec(d["xTime"]))
                    n = len(m["t"])
                    m["dt"] = (m["t"][-1] - m["t"][0]) / (n - 1)
                    # scipy's Welch method works on short whole numbers in single precision
                    m["tol"] = (1e-5 if np.asarray(d["xTime"]).dtype.itemsize < 4 else 1e-7) + 16 * np.spacing(np.abs(m["t"]).max()) / abs(m["dt"] or 1.0)
                elif ax == "f":
                    m.update(f=R.vec(d["f"]), S=R.vec(d["S"]))
                self.known[id(op)] = m

        def after(self, rec):
            op = rec.op
            m = self.known.pop(id(op), None)
            what = op.get("m") or (op["f"].split(".")[1] if op["op"] == "fn" else op["op"])
            if rec.fired in ("kbi", "oom") or op["op"] not in E.TOOLBOX_OPS:
                return
            if m is None:
                m = self.known.get(op.get("obj"))
                if m is None:
                    return
                if rec.out[0] != "ok":
                    if what == "get_spectrum" and self.welch(op, m) is None:
                        return
                    if what == "get_spectrum_raw" and len(R.raw_spectrum(m["x"], m["dt"], self.dfd(op))[0]) < 2:
                        return
                    if m["ax"] == "time":
                        self.say("refused", "%s of a complete record raises %s (%s)" % (what, rec.out[1], rec.extra), rec)
                    return
            else:
                self.offered += m["even"] != 0
                if m["even"] < 0:
                    self.checked += 1
                    if rec.out[0] == "ok":
                        self.say("accepted", "%s accepts an uneven axis" % what, rec)
                    return
                if m["even"] == 0:
                    return
                if rec.out[0] != "ok":
                    return self.say("refused", "%s refuses a complete record: %s (%s)" % (what, rec.out[1], rec.extra), rec)
            if what == "new":
                self.known[op["obj"]] = m
                self.checked += 1
                if m["ax"] == "time":
                    o = self.env.objs[op["obj"]]
                    self.say("changed", close(o.time, m["t"], rel=0.0) or close(o.xTime, m["x"], rel=0.0), rec)
                    self.say("changed", close(o.dt, m["dt"], rel=m["tol"]), rec)
            elif what == "get_crossing":
                cr = R.crossings(m["t"], m["x"], "down")
                self.checked += 1
                self.say("wrong-crossings", close(R.vec(rec.raw[1]), [c[1] for c in cr], rel=0.0, absol=1e-6 * m["dt"] + 4 * np.spacing(np.abs(m["t"]).max())), rec)
            elif what == "decompose_linear_ZS":
                self.decomposed(rec, op)
            elif m["ax"] == "f":
                if what == "compute_spectrum_freq_series":
                    f, S = rec.raw
                    self.checked += 1
                    N = op["a"]["Ntime"]
                    self.say("wrong-spectrum", close(f, m["f"], rel=1e-9) or close(S, R.density(m["S"], N, m["f"][1] - m["f"][0]), rel=1e-7), rec)
                else:
                    self.judge_spec(rec, what, m)
            else:
                self.judge_record(rec, what, m, None)

        def decomposed(self, rec, op):
            """as if the clock had started at zero (compared when the run is over)"""
            a = {k: np.array(O.resolve(self.env, v)) for k, v in op["a"].items()}
            n = len(a["t"])
            a["t"] = np.arange(n) * ((a["t"][-1] - a["t"][0]) / (n - 1))
            a["h"] = op["a"]["h"]
            a["xTime"] = a["xTime"].astype(float)
            self.later.append((rec, a, [np.array(v) for v in rec.raw]))

        def settle(self):
            def alone(a):
                return [np.asarray(v) for v in TB.core_wave_decomposition.decompose_linear_ZS(**a)]

            for rec, a, got in self.later:
                want = fork_call(lambda: alone(a))
                self.checked += 1
                ref = max(np.max(np.abs(a["xTime"])), max(np.max(np.abs(w)) for w in want))
                for k, (g, w) in enumerate(zip(got, want)):
                    e = close(g, w, rel=1e-3, ref=ref)
                    self.say("wrong-waves", e and "%s wave: %s" % (("incident", "reflected")[k], e), rec)
            return self

    @staticmethod
    def run(scn):
        scn.setdefault("budget", CHAIN_BUDGET)
        run = C21.Run(scn).go().settle()
        for d in list(scn["data"].values()) + [op for lst in scn["clients"] for op in lst if op["op"] == "refill"]:
            for e in d.get("axis", []):
                run.fired("axis-" + e["k"])
        out = E.judge(run, {}) if run.abort else []
        return run, out + run.bad, run.offered > 0, E.Refs(scn)
