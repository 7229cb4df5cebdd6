"""C25: what does not belong together is refused."""
from dst import data as D
from dst import engine as E
from dst import ops as O

CW = "core_wavefunctions."
CS = "core_spectral."
CT = "core_time."

# analyses that need both channels of an object
NEED = {
    "Series": [("get_crossing", {}), ("get_spectrum_raw", {}), ("get_fourier_comp", {}), ("get_bandpassfilter", {"fmin": 0.05, "fmax": 0.4}), ("get_spectrum_raw", {"dfDesired": 0.1})],
    "WaveHeights": [("get_Hs", {}), ("get_H2p_Rayleigh", {}), ("sort", {}), ("highest_waves", {"fracP": 0.5}), ("get_exceedance_waveheight", {"excPerc": 10})],
    "Spectrum": [(m, {}) for m in "get_Hm0 get_Hm0_HF get_Hm0_LF get_Tmm10 get_Tmm10_HF get_Tmm10_LF get_Tm01 get_Tm02 get_s0p get_smm10 get_smm10_HF".split()],
}
CHANNELS = {"Series": ("time", "xTime"), "WaveHeights": ("hwave", "twave"), "Spectrum": ("f", "sVarDens")}


def gen_cut(rng, n, stack=True):
    """what the logger makes of one channel"""
    k = rng.choice(["tail", "tail", "head", "in", "more", "one", "none", "twice"] + (["stack"] if stack else []))
    c = {"k": k}
    if k in ("tail", "head", "in", "more"):
        c["v"] = rng.choice([1, 1, 1, 2, 3, max(1, n // 2)])
    if k == "in":
        c["at"] = rng.randrange(1, max(2, n - c["v"]))
    return c


def good_op(rng, dn, d):
    """a call that has to be answered, and the pairs of arguments that belong together"""
    t = d["type"]

    def fn(f, /, *pair, **a):
        return {"op": "fn", "f": f, "a": a}, pair

    A = "@" + dn + "."
    if t == "series":
        T = {"t": A + "time", "xTime": A + "xTime"}
        df = 1 / (d["n"] * d["dt"])
        at = [d["t0"] + d["dt"] * d["n"] * q for q in (0.11, 0.32, 0.53, 0.88)]
        p = ("t", "xTime")
        return rng.choice(
            [
                lambda: fn("series.Series", "time", "xTime", time=A + "time", xTime=A + "xTime"),
                lambda: fn(CS + "time2freq", *p, **T),
                lambda: fn(CS + "time2freq_nyquist", *p, **T),
                lambda: fn(CS + "compute_spectrum_time_series", *p, dfDesired=rng.choice([0, 2, 3]) * df, **T),
                lambda: fn(CS + "bandpassfilter", *p, flow=1.5 * df, fhigh=6.5 * df, **T),
                lambda: fn(CT + "determine_zero_crossing", *p, typeCross=rng.choice(["up", "down"]), **T),
                lambda: fn(CT + "determine_params_individual_waves", *p, tCross={"arr": [round(x, 6) for x in at]}, **T),
            ]
        )()
    if t == "waves":
        T = {"hWave": A + "hwave", "tWave": A + "twave"}
        S = {"hWaveSorted": A + "hwave", "tWaveSorted": A + "twave"}
        return rng.choice(
            [
                lambda: fn(CT + "sort_wave_params", "hWave", "tWave", **T),
                lambda: fn(CT + "highest_waves_params", "hWaveSorted", "tWaveSorted", fracP=rng.choice([0.1, 0.5, 1.0, 1 / 3]), **S),
                lambda: fn(CT + "exceedance_wave_height", "hWaveSorted", hWaveSorted=A + "hwave", excPerc=rng.choice([2, 10, 50])),
            ]
        )()
    if t == "spec":
        T = {"f": A + "f", "sVarDens": A + "S"}
        p = ("f", "sVarDens")
        fm = d["f0"] + (d["nf"] - 1) * d["df"]
        dt = round(0.4 / fm, 3) or 0.01
        syn = {"tInit": 0.0, "tEnd": 40 * dt, "dt": dt, "seed": rng.choice([1, 7, 2**31])}
        return rng.choice(
            [
                lambda: fn("spectrum.Spectrum", *p, **T),
                lambda: fn(CW + "compute_moment", *p, m=rng.choice([-1, 0, 1, 2]), **T),
                lambda: fn(CW + "compute_moment", *p, m=rng.choice([0, 1]), fmin=round(0.3 * fm, 4), fmax=round(0.8 * fm, 4), **T),
                lambda: fn(CW + "compute_spectrum_params", *p, **T),
                lambda: fn(CW + "compute_tps", *p, **T),
                lambda: fn(CW + "tpd", *p, **T),
                lambda: fn(CS + "spectrum2timeseries", *p, **T, **syn),
                lambda: fn(CS + "spectrum2timeseries_object", *p, **T, **syn),
            ]
        )()
    if t == "freq":
        p = ("f", "xFreq")
        df = rng.choice([0, 2, 3]) * d["df"]
        return rng.choice(
            [
                lambda: fn(CS + "frequency_averaging", "f", "sVarDens", f=A + "f", sVarDens=A + "S1", dfDesired=df),
                lambda: fn(CS + "unfold_spectrum", *p, f=A + "f", xFreq=A + "x1", isOdd=bool(d.get("odd"))),
                lambda: fn(CS + "freq2time", "xFreq", xFreq=A + "full"),
                lambda: fn(CS + "compute_spectrum_freq_series", *p, f=A + "f", xFreq=A + "x1", Ntime=2 * d["nf"] - 2 + bool(d.get("odd")), dfDesired=df),
                lambda: fn(CS + "coherence", "xFreq1", "xFreq2", f=A + "f", xFreq1=A + "x1", xFreq2=A + "x2", dfDesired=df),
            ]
        )()
    return (
        {"op": "fn", "f": "core_wave_decomposition.decompose_linear_ZS", "a": {"t": A + "t", "xTime": A + "X", "h": d["h"], "x_loc": A + "x_loc", "w_loc": A + "w_loc"}},
        ("t", "x_loc", "w_loc"),
    )


def spoil(rng, op, pair, d):
    """the same call with something that does not belong to the rest"""
    a = dict(op["a"])
    f = op["f"].split(".")[1]
    n = d.get("n") or d.get("nf") or 8
    c = rng.random()
    if "typeCross" in a and c < 0.3:
        a["typeCross"] = rng.choice(["sideways", "", "up ", "updown", "d", "u", "upward"])
    elif "fracP" in a and c < 0.25:
        a["fracP"] = rng.choice([-1e-6, 1 + 1e-6, 1.5, -1.0, 50, "inf"])
    elif "excPerc" in a and c < 0.4:
        a["excPerc"] = rng.choice([-1e-6, 100 + 1e-6, -5, 101, 1e9, "inf"])
    elif f in ("highest_waves_params", "exceedance_wave_height") and (c < 0.5 or f[0] == "e"):
        i = rng.randrange(n - 1)
        a["hWaveSorted"] = {"cut": a["hWaveSorted"], "k": rng.choice(["swap", "swap", "rev"]), "i": i, "j": rng.choice([i + 1, n - 1])}
    elif f == "decompose_linear_ZS":
        k = rng.choice(["t", "x_loc", "x_loc", "w_loc", "w_loc", "xTime", "h"])
        m = len(d["x"])
        if k == "h":
            a["h"] = {"arr": [d["h"]] * rng.choice([m, m - 1, 2])} if m > 2 else {"arr": [d["h"]] * m}
        elif k == "w_loc" and rng.random() < 0.3:
            a[k] = {"arr": [0.0] * (m - 1) + [1.0]}
        elif k == "w_loc" and rng.random() < 0.6:
            # one weight out of range, the others in it
            w = list(d["w"])
            w[rng.randrange(m)] = rng.choice([-1e-6, -0.2, -1.0, 1 + 1e-6, 1.3, 2.0, 100.0])
            a[k] = {"arr": w}
        elif k == "x_loc" and rng.random() < 0.3:
            # gauges listed out of order
            x = list(d["x"])
            j = rng.randrange(1, m)
            x[j - 1], x[j] = x[j], x[j - 1]
            a[k] = {"arr": x}
        elif k == "xTime":
            a[k] = {"cut": a[k], "k": rng.choice(["T", "tail", "head"]), "v": 1}
        else:
            c = gen_cut(rng, n if k == "t" else m, stack=False)
            if k != "t" and c["k"] == "in":
                c["at"] = 1
            if k != "t" and "v" in c:
                c["v"] = 1
            a[k] = {"cut": a[k], **c}
    elif f in ("frequency_averaging", "unfold_spectrum", "freq2time"):
        # lengths are not compared here
        k = rng.choice(pair)
        a[k] = {"cut": a[k], "k": "stack"}
    elif f == "coherence":
        k = rng.choice(pair)
        a[k] = {"cut": a[k], "k": rng.choice(["tail", "head", "more", "twice"]), "v": rng.choice([1, 1, 2])}
    else:
        # the density may have two dimensions by contract
        k = rng.choice(pair)
        a[k] = {"cut": a[k], **gen_cut(rng, n, stack=not (f == "Spectrum" and k == "sVarDens"))}
    return {"op": "fn", "f": op["f"], "a": a, "must": "refuse"}


class C25:
    id = "C25"
    rule = (
        "records, sorted waves, spectra and gauges of which a logger loses, repeats, adds or mixes up samples "
        "in one channel only (at the start, the end, inside, all), unsorted waves, unknown options and "
        "fractions out of range, offered to objects and core calls in histories with the complete records "
        "around them, objects that lose samples after they were analysed, failures, and interleaved clients; "
        "the ones must be refused wherever they come, the others answered as in a process that never saw "
        "them; non-trivial when something was to be refused"
    )
    quick, thorough = 2500, 40000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        objs = {}
        for j in range(rng.choice([2, 2, 3])):
            c = rng.random()
            dn = "d%d" % j
            if c < 0.35:
                d = D.gen_series(rng, small=rng.random() < 0.8)
                d["n"] = max(24, d["n"])
                d.pop("f32", None)
                d["kind"] = rng.choice(["sum", "noise", "narrow"])
                cls = "Series"
            elif c < 0.55:
                d = D.gen_waves(rng)
                d["n"] = rng.choice([3, 4, 5, 9, 20, 50])
                d["kind"] = "desc"
                cls = "WaveHeights"
            elif c < 0.7:
                d = D.gen_freq(rng)
                cls = None
            elif c < 0.88:
                d = D.gen_spec(rng)
                d.pop("twoD", None)
                d["nf"] = max(8, d["nf"])
                d["kind"] = rng.choice(["jonswap", "two", "rand"])
                cls = "Spectrum"
            else:
                d = D.gen_gauges(rng)
                if rng.random() < 0.5:
                    d["w"] = [1.0] * len(d["x"])
                cls = None
            if cls:
                form = D.gen_form(rng, d, 0.3)
                # the functions of individual waves take vectors only
                d = form if cls == "Spectrum" or form.get("form") in (None, "ro", "strided") else d
                scn["objs"]["o%d" % j] = {"cls": cls, "data": dn}
                objs["o%d" % j] = cls
            scn["data"][dn] = d
        multi = rng.random() < 0.3
        cut = {}  # objects that lost samples

        def one():
            dn = rng.choice(list(scn["data"]))
            d = scn["data"][dn]
            op, pair = good_op(rng, dn, d)
            bad = spoil(rng, op, pair, d)
            op["must"] = "answer"
            return rng.choice([[bad], [bad], [op, bad], [bad, op], [op, bad, op], [op]])

        def obj():
            o = rng.choice(list(objs))
            cls = objs[o]
            if o in cut:
                m, a = rng.choice(NEED[cls])
                return [{"op": "call", "obj": o, "m": m, "a": a, "must": "refuse"}]
            m, a = rng.choice(NEED[cls])
            lst = [{"op": "call", "obj": o, "m": m, "a": a, **({"eff": True} if m == "sort" else {"must": "answer"} if cls != "Spectrum" and not m.startswith("get_exc") else {})}]
            if rng.random() < 0.45 and not multi:
                cut[o] = True
                lst.append({"op": "cutobj", "obj": o, "at": rng.choice(CHANNELS[cls]), "v": rng.choice([1, 1, 2]), "side": rng.choice(["tail", "head"]), "eff": True})
                m2, a2 = rng.choice(NEED[cls])
                m2, a2 = rng.choice([(m, a), (m2, a2)])
                lst.append({"op": "call", "obj": o, "m": m2, "a": a2, "must": "refuse"})
            elif cls == "Series" and rng.random() < 0.3:
                lst.append({"op": "call", "obj": o, "m": "get_crossing", "a": {"typeCross": rng.choice(["sideways", "", "up "])}, "must": "refuse"})
            elif cls != "Spectrum" and rng.random() < 0.3:
                m, a = rng.choice([("highest_waves", {"fracP": 1.0001}), ("highest_waves", {"fracP": -0.1}), ("get_exceedance_waveheight", {"excPerc": 100.01}), ("get_exceedance_waveheight", {"excPerc": -1})])
                lst.append({"op": "call", "obj": o, "m": m, "a": a, "must": "refuse"})
            return lst

        def client():
            lst = []
            for _ in range(E.many(rng, 2, 6) if not multi else rng.randrange(1, 3)):
                lst += obj() if objs and rng.random() < 0.35 else one()
                if rng.random() < 0.1 and lst[-1].get("op") in ("fn", "call") and not lst[-1].get("eff") and lst[-1].get("m") != "sort":
                    op = {k: v for k, v in lst[-1].items() if k != "must"}
                    lst.insert(len(lst) - rng.randrange(2), {**op, "fault": {"kind": rng.choice(["kbi", "oom"]), "frac": round(rng.random(), 3)}})
            return lst

        scn["clients"] = [client() for c in range(rng.choice([2, 3]) if multi else 1)]
        if multi:
            scn["sched"] = E.gen_sched(rng, len(scn["clients"]))
        return scn

    @staticmethod
    def run(scn):
        refs, table = E.prepare(scn)
        run = E.Run(scn).go()
        out = E.judge(run, table)
        n = 0
        for r in run.hist:
            must = r.op.get("must")
            if not must or r.fired in ("kbi", "oom"):
                continue
            what = r.op.get("m") or r.op["f"].split(".")[1]
            n += must == "refuse"
            if must == "refuse" and r.out[0] == "ok":
                out.append(E.viol("accepted", "%s answers what does not belong together" % what, r))
            elif must == "answer" and r.out[0] != "ok":
                out.append(E.viol("refused", "%s raises %s (%s)" % (what, r.out[1], r.extra), r))
            if must == "refuse":
                for v in (r.op.get("a") or {}).values():
                    if isinstance(v, dict) and "cut" in v:
                        run.fired("channel-" + v["k"])
            if r.op["op"] == "call" and must == "refuse":
                run.fired("object-request")
        return run, out, n > 0, refs
