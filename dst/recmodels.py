"""Executable reference model of the analysis of one record or spectrum, written down
from the definitions and independent of the toolbox."""
import numpy as np


def vec(a):
    return np.array(a, dtype=float).reshape(-1)


# -- frequency domain ---------------------------------------------------------
def fourier(x):
    x = vec(x)
    N = len(x)
    return np.fft.fft(x)[: N // 2 + 1]


def density(X, N, df):
    return 2 * np.abs(X) ** 2 / (df * N * N)


def band_average(f, S, dfd):
    m = 1
    if dfd != 0.0 and len(f) > 1:
        m = max(1, int(np.round(dfd / (f[1] - f[0]))))
    n = len(f) // m
    f, S = np.asarray(f)[: n * m].reshape(n, m), np.asarray(S)[: n * m].reshape(n, m)
    return f.mean(axis=1), S.mean(axis=1)


def raw_spectrum(x, dt, dfd=0.0):
    X = fourier(x)
    N = np.size(x)
    df = 1.0 / (N * dt)
    return band_average(np.arange(len(X)) * df, density(X, N, df), dfd)


def keep(f, lo, hi):
    """bins of a band: from lo up to hi, the last one belongs to the highest band"""
    k = (f >= lo) & (f < hi)
    if hi >= f[-1]:
        k = f >= lo
    if lo >= f[-1] or hi <= f[0]:
        k = np.zeros(len(f), dtype=bool)
    return k


def band(x, dt, lo, hi):
    x = vec(x)
    N = len(x)
    X = fourier(x)
    f = np.arange(len(X)) / (N * dt)
    X = np.where(keep(f, lo, hi), X, 0)
    return np.fft.irfft(X, N) if N > 1 else X.real


def window(name, n):
    a = 2 * np.pi * np.arange(n) / n
    if name == "hann":
        return 0.5 - 0.5 * np.cos(a)
    if name == "hamming":
        return 0.54 - 0.46 * np.cos(a)
    if name == "boxcar":
        return np.ones(n)
    raise ValueError(name)


def welch(x, dt, nperseg, noverlap, nfft, name):
    """None where the call cannot be answered"""
    x = vec(x)
    n = len(x)
    nperseg = min(nperseg or 256, n)
    noverlap = nperseg // 2 if noverlap in (0, None) else noverlap
    nfft = nfft or nperseg
    if noverlap >= nperseg or nfft < nperseg:
        return None
    w = window(name, nperseg)
    step = nperseg - noverlap
    P = []
    for a in range(0, n - nperseg + 1, step):
        seg = x[a : a + nperseg]
        Y = np.fft.rfft((seg - seg.mean()) * w, nfft)
        p = np.abs(Y) ** 2 * dt / np.sum(w * w)
        if nfft % 2:
            p[1:] *= 2
        else:
            p[1:-1] *= 2
        P.append(p)
    return np.arange(nfft // 2 + 1) / (nfft * dt), np.mean(P, axis=0)


def hilbert_imag(x):
    x = vec(x)
    N = len(x)
    X = np.fft.fft(x)
    h = np.zeros(N)
    h[0] = 1
    if N % 2 == 0:
        h[N // 2] = 1
        h[1 : N // 2] = 2
    else:
        h[1 : (N + 1) // 2] = 2
    return np.fft.ifft(X * h).imag


def skewness(x):
    y = vec(x) - np.mean(vec(x))
    return np.mean(y**3) / np.mean(y**2) ** 1.5


def asymmetry(x):
    y = vec(x) - np.mean(vec(x))
    return np.mean(hilbert_imag(x) ** 3) / np.mean(y**2) ** 1.5


# -- individual waves ---------------------------------------------------------
def crossings(t, x, kind):
    """list of (sample before the crossing, time of the crossing)"""
    t, x = vec(t), vec(x)
    s = 1.0 if kind == "up" else -1.0
    out = []
    dt = (t[-1] - t[0]) / (len(t) - 1)
    for i in range(len(x) - 1):
        a, b = s * x[i], s * x[i + 1]
        if a <= 0 and b > 0:
            out.append((i, t[i] + dt * (a / (a - b))))
    return out


def waves(t, x, cr):
    """height, period, crest, trough and the samples of crest and trough (None where
    several samples qualify and the first of them sits on the crossing)"""
    t, x = vec(t), vec(x)
    out = []
    for (a, ta), (b, tb) in zip(cr[:-1], cr[1:]):
        seg = x[a + 1 : b + 1]
        hi, lo = seg.max(), seg.min()
        ihi, ilo = a + 1 + int(np.argmax(seg)), a + 1 + int(np.argmin(seg))
        if x[a] >= hi or abs(t[a] - ta) < 1e-9 * (tb - ta) and x[a] == hi:
            ihi = None
        if x[a] <= lo or abs(t[a] - ta) < 1e-9 * (tb - ta) and x[a] == lo:
            ilo = None
        out.append((hi - lo, tb - ta, hi, lo, ihi, ilo))
    return out


def on_the_edge(t, x, cr):
    """whether rounding of a crossing decides if the only crest (or trough) of a wave, a
    sample next to nothing, is in that wave or before it"""
    t, x = vec(t), vec(x)
    near = 8 * np.spacing(np.abs(t).max())
    for (a, ta), (b, _) in zip(cr[:-1], cr[1:]):
        seg = x[a + 1 : b + 1]
        if t[a + 1] - ta <= near and len(seg) > 1 and not (seg[1:].max() >= seg[0] >= seg[1:].min()):
            return True
    return False


def highest(h, T, frac):
    """mean height and (range of) mean period of the highest waves"""
    h, T = vec(h), vec(T)
    n = int(np.floor(len(h) * frac)) if len(h) else 0
    if n == 0:
        return 0.0, 0.0, 0.0
    k = np.argsort(-h, kind="stable")
    hs = h[k]
    c = hs[n - 1]
    sure = T[h > c]
    tied = np.sort(T[h == c])
    q = n - len(sure)
    return hs[:n].mean(), (sure.sum() + tied[:q].sum()) / n, (sure.sum() + tied[len(tied) - q :].sum()) / n


def exceeded(h, perc):
    """values the exceeded height may have: the number of waves above it is rounded"""
    h = np.sort(vec(h))[::-1]
    if float(perc).is_integer() and len(h):
        i = len(h) * int(perc) // 100 - 1
        return [h[i] if i >= 0 else 0.0]
    n = len(h) * perc / 100.0
    out = []
    for v in (n - 1e-9, n + 1e-9):
        i = int(np.floor(v)) - 1
        out.append(h[min(i, len(h) - 1)] if len(h) and i >= 0 else 0.0)
    return out


RAYLEIGH2P = np.sqrt(-np.log(0.02)) / np.sqrt(2)


# -- spectral parameters ------------------------------------------------------
def moment(f, S, m, lo, hi):
    from scipy.integrate import simpson

    f, S = vec(f), vec(S)
    if m < 0 and f[0] == 0:
        f, S = f[1:], S[1:]
        if lo == 0:
            lo = f[0]
    y = f**m * S
    top = min(hi, f[-1])
    a = int(np.argmin(np.abs(f - lo)))
    b = int(np.argmin(np.abs(f - top))) + 1
    if a >= b:
        return np.nan
    out = simpson(y[a:b], x=f[a:b])
    if hi > f[-1]:
        # tail with the power -5
        q = m - 4
        c = S[-1] * f[-1] ** 5
        out += c / q * ((0.0 if np.isinf(hi) else hi**q) - f[-1] ** q)
    return float(out)


def ambiguous(f, v):
    """a limit half way between two bins belongs to either"""
    f = vec(f)
    d = np.sort(np.abs(f - v))
    return len(d) > 1 and d[1] - d[0] < 1e-6 * (f[1] - f[0])


def part(f, S, lo, hi):
    f, S = vec(f), vec(S)
    k = (f >= lo) & (f <= hi)
    return f[k], S[k]


def peak(f, S):
    i = np.where(S == S.max())[0][-1]
    return f[i]


def params(f, S, lo, hi):
    """Hm0, Tp, Tmm10, Tm01, Tm02 and the densities between the limits"""
    m = {k: moment(f, S, k, lo, hi) for k in (-1, 0, 1, 2)}
    with np.errstate(all="ignore"):
        fp, Sp = part(f, S, lo, hi)
        return {
            "Hm0": 4 * np.sqrt(m[0]),
            "Tmm10": np.divide(m[-1], m[0]),
            "Tm01": np.divide(m[0], m[1]),
            "Tm02": np.sqrt(np.divide(m[0], m[2])),
            "Tp": np.divide(1.0, peak(fp, Sp)) if len(fp) else np.nan,
            "m": m,
        }


def tps(f, S):
    """values the smoothed peak period may have: parabola through the highest bin and its
    neighbours; where that says nothing, a bin of the maximum"""
    f, S = vec(f), vec(S)
    top = S.max()
    i = np.where(S == top)[0]
    if top < 1e-10:
        return None
    with np.errstate(all="ignore"):
        own = list(1.0 / f[i])
    if len(f) < 3 or len(i) > 2 or (len(i) == 2 and i[1] - i[0] != 1):
        return own + ([2 / (f[0] + f[1])] if len(f) == 2 else [])
    j = min(max(int(i[0]), 1), len(f) - 2)
    h = f[1] - f[0]
    y0, y1, y2 = S[j - 1 : j + 2]
    curv = y0 - 2 * y1 + y2
    if curv >= -1e-9 * top:
        return own if curv > 1e-9 * top else None
    return [1.0 / (f[j] + 0.5 * h * (y0 - y2) / curv)]


def tpd(f, S):
    """limits of the energetic band, and its mean period m0/m1 (TpD)"""
    f, S = vec(f), vec(S)
    top = S.max()
    if not top > 0:
        return None
    lim = 0.8 * 0.8 * top
    k = np.where(S >= lim)[0]
    near = np.abs(S - lim) < 1e-9 * top
    if near.any():
        return None
    lo, hi = f[k[0]], f[k[-1]]
    m1 = moment(f, S, 1, lo, hi)
    if not m1 > 0:
        return None
    return lo, hi, moment(f, S, 0, lo, hi) / m1


def jonswap(f, fp, hm0, gamma, tail):
    f = vec(f)
    with np.errstate(all="ignore"):
        nu = f / fp
        S = f**-5 * np.exp(-1.25 * nu**-4) * gamma ** np.exp(-((nu - 1) ** 2) / (2 * np.where(f < fp, 0.07, 0.09) ** 2))
    S = np.where(f > 1e-12, S, 0.0)
    m0 = moment(f, S, 0, f[0], np.inf if tail else f[-1])
    return S * (hm0 / 4) ** 2 / m0
