"""Datasets: small dicts of arrays built from a JSON definition, nothing else."""
import numpy as np

FORMS = ("1d", "1d", "1d", "col", "list", "ro", "strided", "fortran2")


def _form(a, form):
    """The same numbers in another container a caller might have them in."""
    if form == "col":
        return np.ascontiguousarray(a.reshape(-1, 1))
    if form == "list":
        return [x.item() for x in a]
    if form == "ro":
        b = a.copy()
        b.flags.writeable = False
        return b
    if form == "strided":
        b = np.full(2 * len(a), 7.25, dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if form == "fortran2":
        b = np.full((len(a), 3), -3.5, dtype=a.dtype)
        b[:, 1] = a
        return b[:, 1]
    return a


def _series(d):
    n, dt, t0 = d["n"], d["dt"], d.get("t0", 0.0)
    rs = np.random.RandomState(d["seed"])
    t = t0 + np.arange(n) * dt
    tt = np.arange(n) * dt
    if d.get("stamp"):
        # time stamps in the units of the logger
        t = np.round(t / (0.97 * d["stamp"] * dt)) * (0.97 * d["stamp"] * dt)
    kind = d.get("kind", "sum")
    if kind == "sum":
        x = np.zeros(n)
        for _ in range(6):
            k = 1 + rs.randint(0, max(1, n // 3))
            a = rs.uniform(0.1, 1.0)
            ph = rs.uniform(0, 2 * np.pi)
            x += a * np.cos(2 * np.pi * k * np.arange(n) / n + ph)
    elif kind == "noise":
        x = rs.normal(size=n)
    elif kind == "narrow":
        T = rs.uniform(4, 9) * dt
        x = np.cos(2 * np.pi * tt / T + rs.uniform(0, 6.28)) * (
            1 + 0.5 * np.cos(2 * np.pi * tt / (9.3 * T))
        )
    elif kind == "pos":
        x = 3.0 + rs.uniform(0, 1, n)
    elif kind == "int":
        x = rs.randint(-3, 4, n)
    elif kind == "ties":
        x = np.resize(np.array([1.0, 0.0, -1.0, -0.5, 0.5, 1.0, -1.0, 0.0]), n)
        x = x * (1 + (np.arange(n) // 16) % 2)
    else:
        raise ValueError(kind)
    if kind != "int":
        x = x * d.get("amp", 1.0) + d.get("mean", 0.0)
    if d.get("f32"):
        x = x.astype(np.float32)
    return {"time": t, "xTime": x}


def _waves(d):
    n = d["n"]
    rs = np.random.RandomState(d["seed"])
    kind = d.get("kind", "rayleigh")
    if kind == "rayleigh":
        h = rs.rayleigh(1.0, n) + 1e-3
        p = 3 + rs.rand(n) * 4
    elif kind == "ties":
        h = rs.randint(1, 4, n).astype(float)
        p = 3 + rs.rand(n) * 4
    elif kind == "asc":
        h = np.sort(rs.rayleigh(1.0, n) + 1e-3)
        p = 3 + rs.rand(n) * 4
    elif kind == "desc":
        h = np.sort(rs.rayleigh(1.0, n) + 1e-3)[::-1].copy()
        p = 3 + rs.rand(n) * 4
    elif kind == "const":
        h = np.full(n, 1.5)
        p = 3 + rs.rand(n) * 4
    elif kind == "int":
        h = rs.randint(1, 9, n)
        p = rs.randint(3, 9, n)
    else:
        raise ValueError(kind)
    return {"hwave": h, "twave": p}


def jonswap(f, fp, hm0, gamma=3.3):
    """independent of the toolbox; rectangle rule scaling is good enough here"""
    S = np.zeros(len(f))
    for i, x in enumerate(f):
        if x <= 0:
            continue
        nu = x / fp
        sig = 0.07 if nu < 1 else 0.09
        S[i] = x**-5 * np.exp(-1.25 * nu**-4) * gamma ** np.exp(
            -((nu - 1) ** 2) / (2 * sig**2)
        )
    m0 = S.sum() * (f[1] - f[0]) if len(f) > 1 else 1.0
    if m0 > 0:
        S = S * (hm0 / 4) ** 2 / m0
    return S


def _spec(d):
    nf, df, f0 = d["nf"], d["df"], d.get("f0", 0.0)
    rs = np.random.RandomState(d["seed"])
    f = f0 + np.arange(nf) * df
    kind = d.get("kind", "jonswap")
    fm = f[-1] if nf > 1 else 1.0
    if kind == "jonswap":
        S = jonswap(f, max(fm * rs.uniform(0.15, 0.5), df), rs.uniform(0.5, 3))
    elif kind == "two":
        S = jonswap(f, max(fm * 0.15, df), 1.0) + jonswap(
            f, max(fm * rs.uniform(0.4, 0.6), df), rs.uniform(0.5, 2)
        )
    elif kind == "flat":
        S = np.full(nf, rs.uniform(0.2, 2))
    elif kind == "rand":
        S = rs.rand(nf)
    elif kind == "ties":
        S = rs.randint(0, 4, nf).astype(float)
        S[nf // 2] = 3.0
        S[nf // 3] = 3.0
    elif kind == "zero":
        S = np.zeros(nf)
    elif kind == "spike":
        S = np.zeros(nf)
        S[rs.randint(0, nf)] = 2.0
    elif kind == "int":
        S = rs.randint(0, 9, nf)
        S[nf // 2] = 11
    else:
        raise ValueError(kind)
    out = {"f": f, "S": S * d["amp"] if "amp" in d else S}
    if d.get("twoD"):
        out["D"] = np.linspace(0, 350, 36)
    if d.get("f32"):
        out["S"] = out["S"].astype(np.float32)
    return out


def _freq(d):
    nf, df = d["nf"], d["df"]
    rs = np.random.RandomState(d["seed"])
    f = np.arange(nf) * df
    x1 = rs.normal(size=nf) + 1j * rs.normal(size=nf)
    x2 = rs.normal(size=nf) + 1j * rs.normal(size=nf)
    if d.get("odd"):
        pass
    else:
        x1[-1] = x1[-1].real
    x1[0] = x1[0].real
    if d.get("small"):
        x1[: nf // 2] *= 1e-7
        x2[nf // 3 :] *= 1e-7
    full = np.concatenate([x1, np.conj(x1[1:][::-1])])
    return {
        "f": f,
        "x1": x1,
        "x2": x2,
        "S1": np.abs(x1) ** 2,
        "full": full,
        "w": 2 * np.pi * f,
    }


def _gauges(d):
    """incident and reflected wave components on FFT bins, seen by gauges"""
    n, dt, h = d["n"], d["dt"], d["h"]
    x = np.array(d["x"], dtype=float)
    rs = np.random.RandomState(d["seed"])
    t = d.get("t0", 0.0) + np.arange(n) * dt
    X = np.zeros((n, len(x)))
    comps, incs, refs = [], [], []
    for k in d["bins"]:
        w = 2 * np.pi * k / (n * dt)
        kk = wavenumber(w, h)
        a = rs.uniform(0.2, 1.0)
        r = a * rs.uniform(0.0, 0.6)
        p1, p2 = rs.uniform(0, 2 * np.pi, 2)
        if k in d.get("nodes", {}).get("bins", ()):
            # fully reflected, with a node of the standing wave at one of the gauges
            r = a
            p2 = p1 + np.pi - 2 * kk * (x[d["nodes"]["j"]] - x[0])
        tau = np.arange(n) * dt
        for j, xj in enumerate(x):
            s = xj - x[0]
            X[:, j] += a * np.cos(w * tau - kk * s + p1)
            X[:, j] += r * np.cos(w * tau + kk * s + p2)
        incs.append(a * np.cos(w * tau + p1))
        refs.append(r * np.cos(w * tau + p2))
        comps.append([w, kk, a, r])
    return {
        "t": t,
        "X": X,
        "x_loc": x,
        "w_loc": np.array(d["w"], dtype=float),
        "incs": tuple(incs),
        "refs": tuple(refs),
        "comps": tuple(map(tuple, comps)),
    }


def wavenumber(w, h, g=9.81):
    k = max(w * w / g, w / np.sqrt(g * h))
    for _ in range(200):
        th = np.tanh(k * h)
        F = g * k * th - w * w
        dF = g * th + g * k * h * (1 - th * th)
        kn = k - F / dF
        if abs(kn - k) < 1e-14 * k:
            return kn
        k = kn
    return k


def _fgrid(d):
    return {"f": d.get("f0", 0.0) + np.arange(d["nf"]) * d["df"]}


BUILD = {
    "series": _series,
    "waves": _waves,
    "spec": _spec,
    "freq": _freq,
    "gauges": _gauges,
    "fgrid": _fgrid,
}


# what may be edited in a data set without making it another kind of thing
EDITABLE = {
    "series": ["xTime"],
    "waves": ["hwave", "twave"],
    "spec": ["S"],
    "freq": ["x1", "x2", "S1", "full", "w"],
    "gauges": ["X"],
    "fgrid": [],
}
AXES = {"series": "time", "spec": "f", "freq": "f", "fgrid": "f", "gauges": "t"}
SPECIAL = {
    "nan": np.nan,
    "inf": np.inf,
    "-inf": -np.inf,
    "-0": -0.0,
    "0": 0.0,
    "huge": 1e300,
    "tiny": 1e-300,
    "big": 1e6,
    "neg": -0.7,
}


def edit(a, e):
    """the array with one edit made (a copy)"""
    a = np.array(a)
    kind = a.dtype
    how = e["how"]
    x = a.reshape(-1).astype(complex if kind.kind == "c" else float)
    n = len(x)
    if n == 0:
        return a
    i = int(e.get("p", 0.0) * (n - 1) + 0.5)
    j = int(e.get("q", 1.0) * (n - 1) + 0.5)
    v = e.get("v", 1.5)
    if how == "at":
        x[i] = x[i] * v + 1
    elif how == "swap":
        x[i], x[j] = x[j], x[i]
    elif how == "neg":
        x = -x
    elif how == "rev":
        x = x[::-1].copy()
    elif how == "roll":
        x = np.roll(x, 1 + i)
    elif how == "mid":
        x[1:-1] = x[1:-1] * v + 1
    elif how == "dent":
        # largest and smallest stay
        k = np.argsort(np.abs(x), kind="stable")[(n - 1) // 2]
        x[k] = 0.75 * x[k] + 0.25 * x[np.argmin(np.abs(x))]
    elif how == "balance":
        x[i] += 1
        x[j] -= 1
    elif how == "add":
        x = x + v
    elif how == "mul":
        x = x * v
    elif how == "set":
        if kind.kind in "iu":
            return a
        x[i] = SPECIAL[e["v"]]
    else:
        raise ValueError(how)
    with np.errstate(all="ignore"):
        if kind.kind in "iu":
            x = np.round(x)
            if kind.itemsize < 8:
                x = np.clip(x, np.iinfo(kind).min, np.iinfo(kind).max)
        return x.astype(kind).reshape(a.shape)


def gen_edit(rng, d, used=None):
    """a small change of a data set (of the arrays in used), or None"""
    keys = EDITABLE[d["type"]]
    ax = AXES.get(d["type"])
    if used:
        keys = [k for k in keys if k in used]
        ax = ax if ax in used else None
    if any(c["k"] == ax for c in d.get("cast", [])):
        ax = None  # no half seconds there
    if not keys or (ax and rng.random() < 0.12):
        if ax is None:
            return None
        if ax == "f" or rng.random() < 0.5:
            return {"k": ax, "how": "mul", "v": rng.choice([2.0, 0.5, 1.25])}
        return {"k": ax, "how": "add", "v": rng.choice([1.0, 100.0, -2.5])}
    k = rng.choice(keys)
    pos = d["type"] in ("waves", "spec") or k == "w"
    how = rng.choice(["at", "at", "at", "dent", "dent", "swap", "rev", "roll", "mid", "mid", "mul"] + ([] if pos else ["neg", "balance", "add"]))
    e = {"k": k, "how": how, "p": rng.choice([0.0, 1.0, 0.5, round(rng.random(), 3)]), "v": rng.choice([1.5, 2.0, 4.0])}
    if how in ("swap", "balance"):
        e["q"] = round(rng.random(), 3)
    return e


def gen_special(rng, d, nan=True):
    """a value no ordinary record contains"""
    keys = [k for k in EDITABLE[d["type"]] if k not in ("full", "w")]
    if not keys or d["type"] == "gauges":
        return None
    vs = ["0", "tiny", "big", "-0"]
    if d["type"] not in ("waves",):
        vs.append("neg")
    if nan:
        vs += ["nan", "nan", "inf", "-inf", "huge"]
    return {"k": rng.choice(keys), "how": "set", "p": rng.choice([0.0, 1.0, 0.5, round(rng.random(), 3)]), "v": rng.choice(vs)}


def add_special(rng, d, p=0.1, nan=True):
    """now and then, one to three of them"""
    if rng.random() < p:
        es = [gen_special(rng, d, nan) for _ in range(rng.choice([1, 1, 2, 3]))]
        es = [e for e in es if e]
        if es:
            d["edits"] = d.get("edits", []) + es
    return d


def sensor(x, e, n):
    """what a faulty sensor or logger makes of the signal (values only)"""
    x = np.array(x, dtype=float)
    k = e["k"]
    i = min(int(e.get("p", 0.0) * n), n - 1)
    j = min(i + int(e.get("m", 1)), n)
    v = e.get("v", 1.0)
    s = np.max(np.abs(x)) or 1.0
    if k == "quantised":
        x = np.round(x / (v * s)) * (v * s)
    elif k == "clipped":
        x = np.clip(x, -v * s, v * s)
    elif k == "rectified":
        x = np.maximum(x, 0.0)
    elif k == "stuck":
        x[i:j] = x[i]
    elif k == "lost":
        x[i:j] = 0.0
    elif k == "spike":
        x[i:j] = v * s
    elif k == "offset":
        x = x + v * s
    elif k == "drift":
        x = x + v * s * np.arange(n) / n
    elif k == "dead":
        x[...] = v * s
    elif k == "flipped":
        x = -x
    elif k == "gain":
        x = x * v
    elif k == "swapped":
        x[i:j] = x[i:j][::-1].copy()
    elif k == "hold":
        # every second (third, ...) sample is a repetition
        h = int(e.get("m", 2))
        x = x[(np.arange(n) // h) * h]
    elif k == "zeroed":
        x[np.abs(x) < v * s] = 0.0
    elif k == "noise":
        x = x + v * s * np.random.RandomState(e.get("seed", 1)).uniform(-1, 1, n)
    else:
        raise ValueError(k)
    return x


def gen_sensor(rng):
    k = rng.choice(["quantised", "clipped", "stuck", "lost", "spike", "offset", "drift", "flipped", "hold", "zeroed", "noise", "swapped", "rectified", "dead"])
    if k in ("rectified", "dead") and rng.random() < 0.6:
        k = "lost"
    e = {"k": k}
    if k in ("stuck", "lost", "spike", "swapped"):
        e["p"] = rng.choice([0.0, round(rng.random(), 3), round(rng.random(), 3), 1.0])
        e["m"] = rng.choice([1, 1, 2, 3, 10, 40, 100, 400])
    if k == "hold":
        e["m"] = rng.choice([2, 2, 3, 5])
    e["v"] = {
        "quantised": lambda: rng.choice([0.5, 0.25, 0.1, 0.34]),
        "clipped": lambda: rng.choice([0.2, 0.5, 0.8]),
        "spike": lambda: rng.choice([5.0, -5.0, 50.0]),
        "offset": lambda: rng.choice([0.1, -0.1, 0.5, -0.7, 1.5]),
        "drift": lambda: rng.choice([0.3, -0.5, 1.5]),
        "zeroed": lambda: rng.choice([0.05, 0.2, 0.5]),
        "noise": lambda: rng.choice([0.01, 0.1, 0.5]),
        "dead": lambda: rng.choice([0.0, 1.0, -1.0]),
    }.get(k, lambda: 1.0)()
    if k == "noise":
        e["seed"] = rng.randrange(1 << 20)
    return e


def axis(t, e):
    """the sample numbers and times a damaged logger delivers: (index of each delivered
    sample, its time stamp)"""
    n = len(t)
    dt = (t[-1] - t[0]) / (n - 1)
    i = np.arange(n)
    t = np.array(t, dtype=float)
    k = e["k"]
    p = min(max(int(e.get("p", 0.5) * n), 1), n - 2)
    m = int(e.get("m", 1))
    v = e.get("v", 1.0)
    if k == "lost":
        keep = np.ones(n, dtype=bool)
        keep[p : p + m] = False
        if keep[-1] == 0:
            keep[-1] = True
        return i[keep], t[keep]
    if k == "repeated":
        j = np.insert(i, p, [p] * m)
        return j, t[j]
    if k == "swapped":
        j = i.copy()
        q = min(p + m, n - 1)
        j[p], j[q] = j[q], j[p]
        return j, t[j]
    if k == "step":
        # the clock is set forward, or back, while recording
        t[p:] += v * dt
        return i, t
    if k == "late":
        # one sample is stamped late or early
        t[p] += v * dt
        return i, t
    if k == "rate":
        # the logger changes its rate while recording
        p = max(p, 3)
        t[p:] = t[p - 1] + np.arange(1, n - p + 1) * dt * v
        return i, t
    if k == "reversed":
        return i[::-1].copy(), t[::-1].copy()
    if k == "stopped":
        # the clock stands still
        t[p : p + m + 1] = t[p]
        return i, t
    if k == "blocks":
        # two blocks of the record are delivered in the wrong order
        j = np.concatenate([i[p:], i[:p]])
        return j, t[j]
    raise ValueError(k)


def gen_axis(rng):
    k = rng.choice(["lost", "lost", "lost", "repeated", "repeated", "swapped", "step", "step", "late", "rate", "reversed", "stopped", "blocks"])
    e = {"k": k, "p": rng.choice([0.0, 1.0, 0.5, round(rng.random(), 3), round(rng.random(), 3)]), "m": rng.choice([1, 1, 1, 2, 5])}
    if k == "step":
        e["v"] = rng.choice([1, 2, 10, -1, -2, -1.5, 1.5])
    elif k == "late":
        e["v"] = rng.choice([1, -1, 2, -2, 1.5])
    elif k == "rate":
        e["v"] = rng.choice([2.0, 3.0, 0.3, 0.2])
    return e


def build(d):
    out = BUILD[d["type"]](d)
    for e in d.get("sensor", []):
        k = "xTime" if d["type"] == "series" else "S"
        out[k] = sensor(out[k], e, len(out[k]))
    for e in d.get("axis", []):
        a = AXES[d["type"]]
        j, t = axis(out[a], e)
        for k, v in out.items():
            if isinstance(v, np.ndarray) and len(v) == len(out[a]) and k != a:
                out[k] = v[j]
        out[a] = t
    for e in d.get("cast", []):
        out[e["k"]] = counts(out[e["k"]], e)
    for e in d.get("edits", []):
        out[e["k"]] = edit(out[e["k"]], e)
    form = d.get("form")
    if form:
        only = d.get("formkeys")
        for k, v in out.items():
            if (
                isinstance(v, np.ndarray)
                and v.ndim == 1
                and k != "D"
                and (only is None or k in only)
            ):
                out[k] = _form(v, form)
    return out


def counts(a, e):
    """what a converter makes of the signal: whole numbers of a given type"""
    t = np.dtype(e["t"])
    if "top" in e:
        a = np.asarray(a, dtype=float)
        if t.kind == "u":
            a = a - min(a.min(), 0.0)
        a = a / (np.max(np.abs(a)) or 1.0) * min(e["top"], np.iinfo(t).max)
    if t.itemsize < 8:
        a = np.clip(a, np.iinfo(t).min, np.iinfo(t).max)
    return np.round(a).astype(t)


def gen_cast(rng, d, p=0.1):
    """a record of whole numbers, of whole seconds or of whole frequencies"""
    if rng.random() >= p or d.get("f32"):
        return d
    small = ["int8", "int16", "int16", "int32", "int64", "uint8", "uint16"]
    top = lambda: rng.choice([7, 100, 250, 30000, 32767, 2**31])
    c = []
    if d["type"] == "waves":
        c.append({"k": "hwave", "t": rng.choice(small), "top": top()})
        if rng.random() < 0.6:
            c.append({"k": "twave", "t": rng.choice(small)})
    else:
        ax = AXES[d["type"]]
        which = rng.choice([1, 1, 2, 3])
        if which & 1:
            c.append({"k": "xTime" if ax == "time" else "S", "t": rng.choice(small), "top": top()})
        if which & 2:
            if ax == "time":
                d["dt"], d["t0"] = rng.choice([1.0, 1.0, 2.0]), float(int(d.get("t0", 0.0)))
                d.pop("stamp", None)
                last = d["t0"] + d["n"] * d["dt"]
            else:
                d["df"] = rng.choice([1.0, 1.0, 2.0])
                d["f0"] = rng.choice([0.0, 0.0, 1.0, 3.0])
                last = d["f0"] + d["nf"] * d["df"]
            c.append({"k": ax, "t": rng.choice([t for t in small if last < np.iinfo(t).max and (t[0] != "u" or d.get("t0", 0.0) >= 0)])})
    d["cast"] = c
    return d


# ---------------------------------------------------------------------------
# generators (rng: random.Random)
def gen_series(rng, small=True, big=False):
    if big:
        n = rng.choice([999, 1000, 1024, 2000, 1500, 4096, 3000, 6000, 8192, 10001, 20000])
    elif small:
        n = rng.choice([24, 31, 40, 48, 63, 64, 81, 100])
    else:
        n = rng.choice([12, 40, 64, 65, 100, 128, 201, 256, 257, 400, 512])
    d = {
        "type": "series",
        "n": n,
        "dt": rng.choice([0.1, 0.25, 0.5, 1.0, 0.2]),
        "t0": rng.choice([0.0, 0.0, 5.0, -3.0, 100.0]),
        "seed": rng.randrange(1 << 30),
        "kind": rng.choice(
            ["sum", "sum", "noise", "narrow", "narrow", "ties", "int", "pos"]
            if rng.random() < 0.5
            else ["sum", "noise", "narrow"]
        ),
    }
    if rng.random() < 0.3:
        d["mean"] = rng.choice([0.1, -0.2, 0.5])
    if rng.random() < 0.3:
        d["amp"] = rng.choice([0.05, 2.0, 10.0])
    if rng.random() < 0.08:
        d["f32"] = True
    return d


def gen_waves(rng, big=False):
    n = rng.choice([1000, 1001, 2048, 1500, 3000, 5000]) if big else rng.choice(
        [1, 2, 3, 4, 5, 7, 9, 12, 20, 33, 50, 100, 150]
    )
    return {
        "type": "waves",
        "n": n,
        "seed": rng.randrange(1 << 30),
        "kind": rng.choice(
            ["rayleigh", "rayleigh", "rayleigh", "ties", "asc", "desc", "const", "int"]
        ),
    }


def gen_spec(rng, big=False):
    nf = (
        rng.choice([500, 1000, 1025, 2000, 4097])
        if big
        else rng.choice([3, 4, 8, 16, 21, 33, 50, 64, 100, 101, 150])
    )
    df = rng.choice([0.01, 0.02, 0.005, 0.05])
    d = {
        "type": "spec",
        "nf": nf,
        "df": df,
        "f0": rng.choice([0.0, 0.0, df, 0.03, 5 * df]),
        "seed": rng.randrange(1 << 30),
        "kind": rng.choice(
            ["jonswap", "jonswap", "jonswap", "two", "rand", "flat", "ties", "spike", "int"]
        ),
    }
    if rng.random() < 0.1:
        d["twoD"] = True
    if rng.random() < 0.05:
        d["kind"] = "zero"
    return d


def gen_freq(rng, big=False):
    return {
        "type": "freq",
        "nf": rng.choice([600, 1025, 2048, 4001]) if big else rng.choice([5, 9, 16, 17, 33, 64, 65]),
        "df": rng.choice([0.01, 0.05, 0.1]),
        "seed": rng.randrange(1 << 30),
        "odd": rng.random() < 0.5,
        "small": rng.random() < 0.3,
    }


def gen_fgrid(rng):
    df = rng.choice([0.01, 0.02, 0.05])
    return {
        "type": "fgrid",
        "nf": rng.choice([10, 20, 33, 50, 80]),
        "df": df,
        "f0": rng.choice([0.0, df, 2 * df]),
    }


def gen_gauges(rng, nloc=None):
    n = rng.choice([32, 33, 40, 48, 61, 64])
    high = rng.random() < 0.15
    if rng.random() < 0.03:
        n = rng.choice([256, 601, 640])
        high = rng.random() < 0.6
    dt = rng.choice([0.1, 0.2, 0.25])
    h = rng.choice([0.4, 0.6, 1.0, 2.0])
    nloc = nloc or rng.choice([2, 3, 3, 4, 5])
    x = [rng.choice([0.0, 1.5, -2.0])]
    fine = rng.random() < 0.4
    for _ in range(nloc - 1):
        g = rng.choice([0.11, 0.17, 0.23, 0.29, 0.31, 0.4])
        if fine:
            # surveyed to the millimetre, or as far as it was drawn
            g = round(g * rng.uniform(0.9, 1.5), rng.choice([3, 3, 4, 9]))
        x.append(round(x[-1] + g, 9))
    lo, hi = 2, max(4, n // 5)
    if high:
        # short waves too, up to what the sampling can hold
        hi = (n - 1) // 2 + 1
        if rng.random() < 0.5:
            lo = hi - 4
    bins = sorted({rng.randrange(lo, hi) for _ in range(4)})
    w = [1.0] * nloc if rng.random() < 0.6 else [rng.choice([0.6, 0.8, 1.0]) for _ in x]
    if nloc > 2 and rng.random() < 0.12:
        # a gauge that does not count, and with small weights
        w[rng.randrange(nloc)] = rng.choice([0.0, 0.0, 0.05])
    nodes = {}
    if rng.random() < 0.15:
        nodes["nodes"] = {"bins": bins if rng.random() < 0.3 else [rng.choice(bins)], "j": rng.randrange(nloc)}
    return {
        **nodes,
        "type": "gauges",
        "n": n,
        "dt": dt,
        "h": h,
        "x": x,
        "w": w,
        "bins": bins,
        "t0": rng.choice([0.0, 0.0, 10.0, 1.0e4, 2.0e6]),
        "seed": rng.randrange(1 << 30),
    }


def gen_form(rng, d, p=0.4):
    if rng.random() < p:
        d = dict(d)
        d["form"] = rng.choice(FORMS)
    return d
