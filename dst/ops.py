"""Operations of a simulated program: how they are made up, how they are carried out."""
import copy
import json
import pathlib
import pickle
import re
import warnings

import numpy as np

from dst import data as D
from dst import seams
from dst.canon import canon
from dst.world import TB


class Env:
    """The state of one simulated program."""

    def __init__(self, scn):
        self.scn = scn
        self.defs = {k: dict(v) for k, v in scn.get("data", {}).items()}
        self.data = {k: D.build(v) for k, v in self.defs.items()}
        self.objs = {}
        self.rets = {}  # op id -> raw result
        self.lists = {}  # argument lists the program keeps
        self.figs = []  # figures the program holds
        self.args = None  # arguments of the calls, and what they were before
        self.lost = []  # arrays the program gave up, except for results that are views of them
        self.tmp = None

    def build_objs(self):
        for name, d in self.scn.get("objs", {}).items():
            self.objs[name] = make(self, d)


def make(env, d):
    dt = env.data[d["data"]]
    if d["cls"] == "Series":
        return TB.Series(dt["time"], dt["xTime"])
    if d["cls"] == "WaveHeights":
        return TB.WaveHeights(dt["hwave"], dt["twave"])
    if d["cls"] == "Gauge":
        return TB.Series(dt["t"], dt["X"][:, d["col"]])
    if "D" in dt:
        return TB.Spectrum(dt["f"], dt["S"], dt["D"])
    return TB.Spectrum(dt["f"], dt["S"])


def resolve(env, v):
    if isinstance(v, str):
        if v == "inf":
            return np.inf
        if v.startswith("@"):
            d, k = v[1:].split(".")
            return env.data[d][k]
        if v.startswith("$"):
            return env.objs[v[1:]]
        if v.startswith("%"):
            return env.tmp + "/" + v[1:]
        return v
    if isinstance(v, dict):
        if "gser" in v:
            return gauge_series(env, v["gser"], v.get("how"))
        if "of" in v:
            return getattr(env.objs[v["of"]], v["at"])
        if "ret" in v:
            r = env.rets[v["ret"]]
            return getattr(r, v["at"]) if "at" in v else r if "i" not in v else r[v["i"]]
        if "bins" in v:
            # a frequency, in bins of the record of an object
            o = env.objs[v["bins"]]
            b = v["b"] if not v.get("last") else len(o.time) // 2 - v["b"]
            return b / (len(o.time) * (o.time[-1] - o.time[0]) / (len(o.time) - 1))
        if "per" in v:
            # so many samples of the record of an object, as a frequency
            return 1.0 / (env.objs[v["per"]].dt * v["k"])
        if "count" in v:
            # the number of samples of the record of an object
            return len(env.objs[v["count"]].time)
        if "cut" in v:
            return channel(resolve(env, v["cut"]), **{k: x for k, x in v.items() if k != "cut"})
        if "gcols" in v:
            return gauge_array(env, **v)
        if "objs" in v:
            k = "/".join(v["objs"])
            if k not in env.lists:
                env.lists[k] = [env.objs[n] for n in v["objs"]]
            return env.lists[k]
        if "path" in v:
            return pathlib.Path(env.tmp) / v["path"]
        if "np" in v:
            return getattr(np, v["np"])(v["v"])
        if "arr" in v:
            return np.array(v["arr"], dtype=v.get("dt", float))
    if isinstance(v, list):
        return [resolve(env, x) for x in v]
    return v


def gauge_series(env, name, how=None):
    """the records of the gauges, as the instruments delivered them"""
    d = env.data[name]
    recs = [(d["t"], d["X"][:, j]) for j in range(d["X"].shape[1])]
    for h in how or []:
        recs = gauge_fault(recs, h)
    return [TB.Series(t, x) for t, x in recs]


def gauge_fault(recs, h):
    recs = list(recs)
    n = len(recs)
    j = h.get("j", 0) % n
    t, x = recs[j]
    dt = t[1] - t[0]
    k, v = h["k"], h.get("v", 1)
    if k == "drop":
        del recs[j]
    elif k == "extra":
        recs.insert(h.get("at", n), (t, x))
    elif k == "trunc":
        recs[j] = (t[:-v], x[:-v])
    elif k == "ftrunc":
        recs[j] = (t[v:], x[v:])
    elif k == "slip":
        # this one lost its first samples, the others their last ones
        recs = [(a[v:], b[v:]) if i == j else (a[:-v], b[:-v]) for i, (a, b) in enumerate(recs)]
    elif k == "shift":
        recs[j] = (t + v * dt, x)
    elif k == "drift":
        m = len(t)
        recs[j] = (t[0] + np.arange(m) * dt * (1 + v / (m - 1)), x)
    elif k == "rate":
        recs[j] = (t[0] + np.arange(len(t)) * dt * v, x)
    elif k == "gap":
        # samples lost inside the record, so that the rest is no evenly sampled record
        recs[j] = (np.delete(t, np.s_[v : v + h.get("m", 1)]), np.delete(x, np.s_[v : v + h.get("m", 1)]))
    elif k == "gapfill":
        # as many samples recorded longer
        m = h.get("m", 1)
        t2 = np.append(t, t[-1] + dt * np.arange(1, m + 1))
        x2 = np.append(x, x[:m])
        recs[j] = (np.delete(t2, np.s_[v : v + m]), np.delete(x2, np.s_[v : v + m]))
    elif k == "jitter":
        rs = np.random.RandomState(h.get("seed", 1))
        recs[j] = (t + 1e-11 * dt * rs.uniform(-1, 1, len(t)), x)
    else:
        raise ValueError(k)
    return recs


def channel(x, k, v=1, at=1, i=0, j=1):
    """one channel, as a logger delivers it that loses or adds samples"""
    lst = isinstance(x, list)
    x = np.array(x)
    if k == "tail":
        x = x[:-v]
    elif k == "head":
        x = x[v:]
    elif k == "in":
        x = np.delete(x, np.s_[at : at + v], axis=0)
    elif k == "more":
        x = np.append(x, [x[-1] + (x[-1] - x[-2]) * (q + 1) for q in range(v)], axis=0)
    elif k == "one":
        x = x[:1]
    elif k == "none":
        x = x[:0]
    elif k == "twice":
        x = np.append(x, x, axis=0)
    elif k == "stack":
        x = np.column_stack([x.reshape(-1), x.reshape(-1)])
    elif k == "T":
        x = x.T.copy()
    elif k == "swap":
        x[[i, j]] = x[[j, i]]
    elif k == "rev":
        x = x[::-1].copy()
    else:
        raise ValueError(k)
    return x.tolist() if lst else x


def gauge_array(env, gcols, cols):
    return np.ascontiguousarray(env.data[gcols]["X"][:, cols])


def run_op(env, op):
    """Carry out one operation; returns the raw result (exceptions propagate)."""
    k = op["op"]
    if k == "call":
        o = env.objs[op["obj"]]
        a = {n: resolve(env, v) for n, v in op.get("a", {}).items()}
        if env.args is not None:
            env.args[id(op)] = (a, {n: copy.deepcopy(v) for n, v in a.items() if isinstance(v, (list, np.ndarray))})
        return getattr(o, op["m"])(**a)
    if k == "fn":
        mod, fn = op["f"].split(".")
        a = {n: resolve(env, v) for n, v in op.get("a", {}).items()}
        if env.args is not None:
            env.args[id(op)] = (a, {n: copy.deepcopy(v) for n, v in a.items() if isinstance(v, np.ndarray) or (isinstance(v, list) and not any(hasattr(x, "xTime") for x in v))})
        return getattr(getattr(TB, mod), fn)(**a)
    if k == "new":
        o = make(env, op)
        env.objs[op["obj"]] = o
        return o
    if k == "attrs":
        return env.objs[op["obj"]]
    if k == "attr":
        return getattr(env.objs[op["obj"]], op["m"])
    if k == "str":
        o = env.objs[op["obj"]]
        return [str(o), repr(o)]
    return run_driver(env, op)


SETTING = None  # set by the property that simulates programs with settings of their own


def run_driver(env, op):
    """what the program around the toolbox does"""
    import matplotlib.pyplot as plt

    k = op["op"]
    if k == "npseed":
        np.random.seed(op["v"])
        return None
    if k == "npdraw":
        return np.random.rand(op["n"])
    if k == "refill":
        refill(env, op["data"], op.get("seed"), op.get("edit"), op.get("fresh"), op.get("axis"))
        return None
    if k == "scribble":
        for v in env.data[op["data"]].values():
            scribble(v, op["how"])
        return None
    if k == "scribble_ret":
        # the caller overwrites what it was given, not its own inputs (a result may be
        # a view of an argument: a vector converted to a vector)
        scribble(env.rets.get(op["of"]), op["how"], inputs_of(env))
        return None
    if k == "specset":
        o = env.objs[op["obj"]]
        if op["how"] == "scale":
            o.sVarDens *= op["v"]
        elif op["how"] == "assign":
            o.sVarDens = o.sVarDens * op["v"]
        elif op["how"] == "bin":
            o.sVarDens[len(o.sVarDens) // 2] *= op["v"]
        elif op["how"] == "swap":
            i, j = len(o.sVarDens) // 3, 2 * len(o.sVarDens) // 3
            o.sVarDens[[i, j]] = o.sVarDens[[j, i]]
        elif op["how"] == "roll":
            o.sVarDens[...] = np.roll(o.sVarDens, 1)
        elif op["how"] == "rev":
            o.sVarDens = o.sVarDens[::-1].copy()
        elif op["how"] == "tail":
            o.sVarDens = o.sVarDens * np.linspace(1.0, op["v"], len(o.sVarDens))
        return None
    if k == "cutobj":
        # an object that loses samples of one of its channels
        o = env.objs[op["obj"]]
        x = np.array(getattr(o, op["at"]))
        setattr(o, op["at"], x[: -op["v"]] if op["side"] == "tail" else x[op["v"] :])
        return None
    if k == "setting":
        SETTING(op["w"])
        return None
    if k == "clock":
        seams.CLOCK.advance(op["v"])
        seams.CLOCK.jumps += 1
        return None
    if k == "take":
        # a realisation or an analysed record or spectrum is given a name
        r = env.rets.get(op["of"])
        env.objs.pop(op["to"], None)
        if isinstance(r, tuple):
            r = r[op["i"]] if "i" in op else TB.Series(*r)
        if r is not None:
            env.objs[op["to"]] = r
        return None
    if k == "derive":
        # another record made from a record: by a filter, a second gauge, a bad sensor
        o = env.objs[op["of"]]
        x = np.array(o.xTime, dtype=float)
        for e in op.get("how", []):
            if e["k"] == "roll":
                x = np.roll(x, int(e["m"]))
            else:
                x = D.sensor(x, e, len(x))
        if "plus" in op and op["plus"] in env.objs and len(env.objs[op["plus"]].xTime) == len(x):
            x = x + op.get("v", 1.0) * env.objs[op["plus"]].xTime
        env.objs[op["to"]] = TB.Series(o.time, x)
        return None
    if k == "pickle":
        b = pickle.dumps(env.objs[op["obj"]], protocol=op.get("proto", 4))
        env.objs[op.get("to", op["obj"])] = pickle.loads(b)
        return None
    if k == "deepcopy":
        env.objs[op.get("to", op["obj"])] = copy.deepcopy(env.objs[op["obj"]])
        return None
    if k == "copy":
        env.objs[op.get("to", op["obj"])] = copy.copy(env.objs[op["obj"]])
        return None
    if k == "plt":
        w = op["w"]
        if w == "figure":
            f = plt.figure()
            plt.plot([0, 1, 2], [op.get("v", 1), 0, 2], label="mine")
            plt.title("user figure %s" % op.get("v", 1))
            env.figs.append(f)
        elif w == "select" and env.figs:
            plt.figure(env.figs[op.get("v", 0) % len(env.figs)].number)
        elif w == "close_current":
            plt.close()
        elif w == "annotate" and env.figs:
            f = env.figs[op.get("v", 0) % len(env.figs)]
            f.axes[0].plot([0, 1], [3, 3], label="more")
        return None
    raise ValueError(k)


def refill(env, name, seed=None, edit=None, fresh=False, axis=None):
    """the caller reuses its buffers for other content of the same shape, or gives them
    up and has new ones (most likely at the same addresses)"""
    d = dict(env.defs[name])
    if seed is not None:
        d["seed"] = seed
    if edit is not None:
        d["edits"] = d.get("edits", []) + [edit]
    if axis is not None:
        d["axis"] = axis
    env.defs[name] = d
    if fresh:
        # an array that a result is a view of lives on as the caller's
        old = [a for a in env.data[name].values() if isinstance(a, np.ndarray)]
        res = list(arrays_of(list(env.rets.values())))
        env.lost += [a for a in old if any(np.may_share_memory(a, r) for r in res)]
        del old, res
        env.data[name] = None
        env.data[name] = D.build(d)
        return
    new = D.build(d)
    old = env.data[name]
    for k, v in new.items():
        o = old.get(k)
        if isinstance(o, np.ndarray) and o.flags.writeable and o.shape == np.shape(v) and o.dtype == v.dtype:
            o[...] = v
        elif isinstance(o, list) and isinstance(v, list):
            o[:] = v
        else:
            old[k] = v


def arrays_of(x, depth=0):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)) and depth < 4:
        for v in x:
            yield from arrays_of(v, depth + 1)
    elif hasattr(x, "__dict__") and depth < 3:
        for v in vars(x).values():
            yield from arrays_of(v, depth + 1)


def inputs_of(env):
    """every array the caller owns"""
    return [a for d in env.data.values() for a in d.values() if isinstance(a, np.ndarray)] + env.lost


def gen_refill(rng, name, d, fresh=0.0, op=None):
    """another content for data set name (of what operation op uses)"""
    used = re.findall(r"@%s\.(\w+)" % name, json.dumps(op)) if op else None
    op = {"op": "refill", "data": name}
    e = D.gen_edit(rng, d, used) if rng.random() < (0.85 if used else 0.6) else None
    if e is None:
        op["seed"] = rng.randrange(1 << 30)
    else:
        op["edit"] = e
    if rng.random() < fresh:
        op["fresh"] = True
    return op


def scribble(v, how, own=()):
    if isinstance(v, np.ndarray):
        if not v.flags.writeable or v.size == 0:
            return
        if any(np.shares_memory(v, a) for a in own if np.may_share_memory(v, a)):
            return
        if how == "zero":
            v[...] = 0
        elif how == "nan":
            v[...] = np.nan if v.dtype.kind in "fc" else 0
        elif how == "reverse":
            v[...] = v[::-1].copy()
        elif how == "scale":
            v[...] = v * 3
        else:
            v[...] = -77
    elif isinstance(v, list):
        if v and isinstance(v[0], (int, float)):
            v[:] = [0.0] * len(v)
        else:
            for x in v:
                scribble(x, how, own)
    elif isinstance(v, tuple):
        for x in v:
            scribble(x, how, own)
    elif isinstance(v, TB.Series):
        for k in ("time", "xTime", "hwave", "twave", "tCross"):
            scribble(getattr(v, k), how, own)
    elif isinstance(v, TB.WaveHeights):
        for k in ("hwave", "twave"):
            scribble(getattr(v, k), how, own)
    elif isinstance(v, TB.Spectrum):
        for k in ("f", "sVarDens"):
            scribble(getattr(v, k), how, own)


def outcome(env, op):
    """("ok", canonical result) or ("err", exception type name)"""
    try:
        r = run_op(env, op)
    except Exception as e:
        return ["err", type(e).__name__], None
    return ["ok", canon(r)], r


# ---------------------------------------------------------------------------
# made-up operations
def _call(obj, m, **a):
    return {"op": "call", "obj": obj, "m": m, "a": a}


def _lims(rng, d):
    """frequency limits for a spectrum definition"""
    f0, df, nf = d.get("f0", 0.0), d["df"], d["nf"]
    f1 = f0 + (nf - 1) * df
    c = rng.random()
    if c < 0.35:
        return {}
    lo = f0 + rng.random() * 0.6 * (f1 - f0)
    hi = lo + (0.25 + 0.75 * rng.random()) * (f1 - lo)
    if c < 0.45:
        lo, hi = f0 + round((lo - f0) / df) * df, f0 + round((hi - f0) / df) * df
    if c < 0.55:
        return {"fmin": round(lo, 6)}
    if c < 0.65:
        return {"fmax": round(hi, 6)}
    if c < 0.72:
        hi = f1 * (1 + rng.random())
    return {"fmin": round(lo, 6), "fmax": round(hi, 6)}


SPEC_GETTERS = [
    "get_Hm0",
    "get_Hm0_HF",
    "get_Hm0_LF",
    "get_Tps",
    "get_Tp",
    "get_Tmm10",
    "get_Tmm10_HF",
    "get_Tmm10_LF",
    "get_Tm01",
    "get_Tm02",
    "get_s0p",
    "get_smm10",
    "get_smm10_HF",
]


def spec_query(rng, obj, d):
    m = rng.choice(SPEC_GETTERS)
    a = _lims(rng, d)
    if m in ("get_s0p", "get_smm10", "get_smm10_HF") and rng.random() < 0.2:
        a["g"] = rng.choice([9.81, 9.8, 1.62])
    return _call(obj, m, **a)


def waves_query(rng, obj, bad=False):
    c = rng.random()
    if c < 0.1:
        return _call(obj, "get_Hrms")
    if c < 0.2:
        return _call(obj, "get_Hmax")
    if c < 0.35:
        return _call(obj, "get_Hs")
    if c < 0.5:
        return _call(obj, "get_H2p_Rayleigh")
    if c < 0.68:
        p = rng.choice([0, 1, 2, 5, 10, 33.3, 50, 99, 100, round(100 * rng.random(), 3)])
        if bad and rng.random() < 0.4:
            p = rng.choice([-1, 101, 150.0])
        return _call(obj, "get_exceedance_waveheight", excPerc=p)
    if c < 0.9:
        p = rng.choice([0, 0.1, 1 / 3, 0.5, 1.0, 0.02, round(rng.random(), 4)])
        if bad and rng.random() < 0.4:
            p = rng.choice([-0.5, 1.5])
        return _call(obj, "highest_waves", fracP=p)
    if c < 0.97:
        return {"op": "attrs", "obj": obj}
    return {"op": "str", "obj": obj}


def series_query(rng, obj, d, heavy=True):
    c = rng.random()
    fn = 0.5 / d["dt"]
    if c < 0.35:
        return waves_query(rng, obj)
    if c < 0.47:
        return _call(obj, "get_crossing", **rng.choice([{}, {"typeCross": "up"}, {"typeCross": "down"}, {"typeCross": "UP"}]))
    if c < 0.53:
        return _call(obj, "get_skewness")
    if c < 0.59:
        return _call(obj, "get_asymmetry")
    if c < 0.68:
        if rng.random() < 0.5:
            return _call(obj, "get_spectrum", dfDesired=rng.choice([0.02, 0.05, 0.1, 0.2]) * fn)
        return _call(
            obj,
            "get_spectrum",
            use_dfDesired=False,
            nperseg=rng.choice([8, 16, 32]),
            noverlap=rng.choice([0, 4]),
            nfft=rng.choice([0, 64]),
            windows_type=rng.choice(["hann", "boxcar", "hamming"]),
        )
    if c < 0.77:
        return _call(obj, "get_spectrum_raw", dfDesired=rng.choice([0.0, 0.01, 0.05, 0.1]) * 2 * fn)
    if c < 0.85:
        return _call(obj, rng.choice(["max", "min", "mean", "var"]))
    if c < 0.93:
        lo = round(fn * rng.uniform(0, 0.4), 4)
        return _call(obj, "get_bandpassfilter", fmin=lo, fmax=round(lo + fn * rng.uniform(0.2, 0.6), 4))
    return _call(obj, "get_fourier_comp")


def query(rng, obj, cls, d):
    if cls == "Series":
        return series_query(rng, obj, d)
    if cls == "WaveHeights":
        return waves_query(rng, obj)
    return spec_query(rng, obj, d)


def plot_op(rng, obj, cls, d, bad=False):
    """a plot without savepath"""
    if cls == "Spectrum":
        a = {}
        if rng.random() < 0.3:
            a["plot_periods"] = rng.random() < 0.5
        if rng.random() < 0.3:
            a["xlim"] = [0.0, round(0.4 * (d["nf"] * d["df"]), 4)]
        if rng.random() < 0.2:
            a["xlabel"] = "freq"
            a["ylabel"] = "dens"
        return _call(obj, "plot", **a)
    c = rng.random()
    if cls == "Series" and c < 0.45:
        return _call(obj, "plot", **rng.choice([{}, {"plot_crossing": True}, {"plot_crossing": False}]))
    if c < 0.65:
        return _call(obj, "plot_exceedance_waveheight")
    if c < 0.85:
        a = {}
        if rng.random() < 0.4:
            a["normalize"] = True
        if rng.random() < 0.3:
            a.update(plot_BG=True, hm0=rng.choice([1.5, 1.5, 0.6, 2.0]), water_depth=rng.choice([3.0, 3.0, 2.0, 6.0, 15.0]))
            if rng.random() < 0.8:
                a["cota_slope"] = rng.choice([100.0, 250.0, 30.0])
        return _call(obj, "plot_exceedance_waveheight_Rayleigh", **a)
    return _call(obj, "plot_hist_waveheight")


def fn_query(rng, name, d):
    """a call of a core function on dataset name"""
    A = "@" + name + "."
    t = d["type"]

    def fn(f, /, **a):
        return {"op": "fn", "f": f, "a": a}

    if t == "series":
        nyq = 0.5 / d["dt"]
        lo = round(nyq * rng.uniform(0, 0.5), 4)
        return rng.choice(
            [
                lambda: fn("core_spectral.time2freq", t=A + "time", xTime=A + "xTime"),
                lambda: fn("core_spectral.time2freq_nyquist", t=A + "time", xTime=A + "xTime"),
                lambda: fn(
                    "core_spectral.compute_spectrum_time_series",
                    t=A + "time",
                    xTime=A + "xTime",
                    dfDesired=rng.choice([0.0, 0.02, 0.05, 0.1]) * nyq,
                ),
                lambda: fn(
                    "core_spectral.compute_spectrum_welch_wrapper",
                    xTime=A + "xTime",
                    dt=d["dt"],
                    nperseg=rng.choice([8, 16, 24, 0]),
                    noverlap=rng.choice([0, 4]),
                    window_type=rng.choice(["hann", "boxcar"]),
                ),
                lambda: fn(
                    "core_spectral.bandpassfilter",
                    t=A + "time",
                    xTime=A + "xTime",
                    flow=lo,
                    fhigh=round(lo + nyq * rng.uniform(0.1, 0.5), 4),
                ),
                lambda: fn(
                    "core_time.determine_zero_crossing",
                    t=A + "time",
                    xTime=A + "xTime",
                    typeCross=rng.choice(["up", "down"]),
                ),
                lambda: fn(
                    "core_time.determine_params_individual_waves",
                    tCross={
                        "arr": [
                            round(d.get("t0", 0.0) + x * d["n"] * d["dt"], 6)
                            for x in (0.11, 0.23, 0.31, 0.52, 0.74, 0.93)
                        ]
                    },
                    t=A + "time",
                    xTime=A + "xTime",
                ),
                lambda: fn("core_engine.monotonic_increasing_constant_step", x=A + "time"),
                lambda: fn("core_engine.approx_array_index", array=A + "time", user_value=d.get("t0", 0) + rng.random() * d["n"] * d["dt"]),
                lambda: fn("core_engine.convert_to_vector", x=A + "xTime"),
            ]
        )()
    if t == "waves":
        o = [lambda: fn("core_time.sort_wave_params", hWave=A + "hwave", tWave=A + "twave")]
        if d["kind"] == "desc":
            o += [
                lambda: fn("core_time.highest_waves_params", hWaveSorted=A + "hwave", tWaveSorted=A + "twave", fracP=rng.choice([0.1, 1 / 3, 0.5, 1.0])),
                lambda: fn("core_time.exceedance_wave_height", hWaveSorted=A + "hwave", excPerc=rng.choice([2, 10, 33, 50, 100])),
            ]
        return rng.choice(o)()
    if t == "spec":
        lims = _lims(rng, d)
        return rng.choice(
            [
                lambda: fn("core_wavefunctions.compute_spectrum_params", f=A + "f", sVarDens=A + "S", **lims),
                lambda: fn("core_wavefunctions.compute_moment", f=A + "f", sVarDens=A + "S", m=rng.choice([-2, -1, 0, 1, 2, 4]), **lims),
                lambda: fn("core_wavefunctions.compute_moment", f=A + "f", sVarDens=A + "S", m=rng.choice([-1, 0, 1, 2])),
                lambda: fn("core_wavefunctions.tpd", f=A + "f", sVarDens=A + "S"),
                lambda: fn("core_wavefunctions.compute_tps", f=A + "f", sVarDens=A + "S"),
                lambda: fn("core_spectral.frequency_averaging", f=A + "f", sVarDens=A + "S", dfDesired=rng.choice([0.0, 2, 3, 5]) * d["df"]),
                lambda: synth_op(rng, name, d),
                lambda: fn("core_engine.monotonic_increasing_constant_step", x=A + "f"),
            ]
        )()
    if t == "freq":
        fm = d["nf"] * d["df"]
        lo = round(rng.uniform(0, 0.5) * fm, 4)
        return rng.choice(
            [
                lambda: fn("core_spectral.unfold_spectrum", f=A + "f", xFreq=A + "x1", isOdd=bool(d.get("odd"))),
                lambda: fn("core_spectral.coherence", f=A + "f", xFreq1=A + "x1", xFreq2=A + "x2", dfDesired=rng.choice([0, 2, 3, 4]) * d["df"]),
                lambda: fn("core_spectral.freq2time", xFreq=A + "full"),
                lambda: fn("core_spectral.compute_spectrum_freq_series", f=A + "f", xFreq=A + "x1", Ntime=2 * d["nf"] - 2 + bool(d.get("odd")), dfDesired=rng.choice([0, 2, 3]) * d["df"]),
                lambda: fn("core_spectral.applybandfilter", f=A + "f", xFreq=A + "x1", flow=lo, fhigh=round(lo + 0.4 * fm, 4)),
                lambda: fn("core_dispersion.disper", w=A + "w", h=rng.choice([0.5, 2.0, 20.0, 500.0])),
                lambda: fn("core_spectral.frequency_averaging", f=A + "f", sVarDens=A + "S1", dfDesired=rng.choice([0, 2, 3]) * d["df"]),
            ]
        )()
    if t == "fgrid":
        f = rng.choice(
            [
                "create_spectrum_jonswap",
                "create_spectrum_object_jonswap",
                "create_spectrum_piersonmoskowitz",
                "create_spectrum_object_piersonmoskowitz",
            ]
        )
        a = dict(f=A + "f", fp=round((0.15 + 0.5 * rng.random()) * d["nf"] * d["df"], 4), hm0=rng.choice([0.5, 1.0, 2.5]))
        if rng.random() < 0.4:
            a["gammaPeak"] = rng.choice([1.0, 2.0, 3.3, 7.0])
        if rng.random() < 0.4:
            a["l_fmax"] = rng.choice([0, 1])
        return fn("core_wavefunctions." + f, **a)
    if t == "gauges":
        if rng.random() < 0.5:
            return fn("core_wave_decomposition.decompose_linear_ZS", t=A + "t", xTime=A + "X", h=d["h"], x_loc=A + "x_loc", w_loc=A + "w_loc")
        return fn("core_wave_decomposition.decompose_linear_ZS_series", Series_objects={"gser": name}, h=d["h"], x_loc=A + "x_loc", w_loc=A + "w_loc")
    raise ValueError(t)


def bg_op(rng):
    return {
        "op": "fn",
        "f": "core_wavefunctions.compute_BattjesGroenendijk_wave_height_distribution",
        "a": {
            "hm0": rng.choice([0.8, 1.2, 1.5, 2.0]),
            "nwave": rng.choice([100, 500, 1000]),
            "water_depth": rng.choice([2.0, 3.0, 4.0]),
            "cota_slope": rng.choice([30.0, 100.0, 250.0]),
        },
    }


def synth_op(rng, name, d, seed=None, seeded=True, n=None):
    """a synthesis from spectrum dataset name"""
    fmax = d.get("f0", 0.0) + (d["nf"] - 1) * d["df"]
    dt = rng.choice([0.5 / fmax, 0.4 / fmax, 0.25 / fmax, 0.6 / fmax])
    dt = round(dt, 3) or 0.01
    if n is None:
        n = rng.choice([15, 16, 31, 32, 40, 64, 65, 96])
        if rng.random() < 0.01:
            n = rng.choice([500, 1000, 2049, 4096, 5000, 7777, 10000, 18000])
    t0 = rng.choice([0.0, 0.0, 0.0, 10.0, -2.0, 3.5])
    a = {
        "f": "@%s.f" % name,
        "sVarDens": "@%s.S" % name,
        "tInit": t0,
        "tEnd": round(t0 + (n - 1) * dt, 9),
        "dt": dt,
    }
    if seeded:
        a["seed"] = seed if seed is not None else gen_seed(rng)
    f = rng.choice(["spectrum2timeseries", "spectrum2timeseries_object"])
    return {"op": "fn", "f": "core_spectral." + f, "a": a}


def gen_seed(rng):
    c = rng.random()
    if c < 0.5:
        return rng.choice([0, 1, 2, 3, 7, 42, 255, 256, 1000])
    if c < 0.6:
        return rng.choice([2**31 - 1, 2**31, 2**32 - 1, 65536, 65537, 2**24 + 1])
    if c < 0.7:
        return {"np": rng.choice(["int64", "int32", "uint32"]), "v": rng.randrange(0, 1 << 30)}
    return rng.randrange(0, 1 << 32)
