"""Small independent models the recorded histories are checked against."""
import numpy as np


def axis_error(t, tInit, tEnd, dt):
    """what is wrong with the time axis of a realisation, or None"""
    t = np.asarray(t, dtype=float)
    if t.ndim != 1 or t.size == 0:
        return "time axis has shape %r" % (t.shape,)
    tol = 1e-6 * dt + 1e-12 * max(abs(tInit), abs(tEnd))
    if abs(t[0] - tInit) > tol:
        return "time axis starts at %r instead of %r" % (t[0], tInit)
    if t.size > 1 and np.max(np.abs(np.diff(t) - dt)) > tol:
        return "time step is not %r" % dt
    if t[-1] < tEnd - tol or t[-1] > tEnd + 0.999 * dt + tol:
        return "time axis ends at %r for a requested end %r, step %r" % (t[-1], tEnd, dt)
    return None


def periodic(x):
    """one even period of a realisation: of an odd number of samples the missing last
    one follows from the zero mean over the period"""
    x = np.asarray(x, dtype=float)
    if x.size % 2:
        x = np.append(x, -np.sum(x))
    return x


def components(x, dt):
    """frequencies, amplitudes and phases of the bins below Nyquist"""
    p = periodic(x)
    N = p.size
    X = np.fft.fft(p) / N
    k = np.arange(1, N // 2)
    return k / (N * dt), 2 * np.abs(X[k]), np.angle(X[k]), np.abs(X[0])


def target_amplitudes(fk, f, S, N, dt):
    f = np.asarray(f, dtype=float).ravel()
    S = np.asarray(S, dtype=float).ravel()
    df = 1.0 / (N * dt)
    out = np.zeros(len(fk))
    for i, q in enumerate(fk):
        eps = 1e-9 * df
        if q < f[0] - eps or q > f[-1] + eps:
            continue
        j = int(np.searchsorted(f, q, side="right")) - 1
        j = min(max(j, 0), len(f) - 1)
        if j == len(f) - 1:
            v = S[-1]
        else:
            u = (q - f[j]) / (f[j + 1] - f[j])
            v = S[j] + u * (S[j + 1] - S[j])
        out[i] = np.sqrt(max(0.0, 2 * v * df))
    return out


def edge_bins(fk, f, df):
    """bins that sit on the edge of the spectrum to within rounding: either side is right"""
    f = np.asarray(f, dtype=float).ravel()
    return (np.abs(fk - f[0]) < 1e-6 * df) | (np.abs(fk - f[-1]) < 1e-6 * df)


def realisation_error(t, x, f, S, tInit, tEnd, dt):
    e = axis_error(t, tInit, tEnd, dt)
    if e:
        return e
    x = np.asarray(x)
    if x.dtype.kind != "f":
        return "values are not real floating point (%s)" % x.dtype
    if x.shape != np.asarray(t).shape:
        return "%r values for %r times" % (x.shape, np.asarray(t).shape)
    if not np.all(np.isfinite(x)):
        return "values are not finite"
    if x.size < 4:
        return None
    fk, a, _, x0 = components(x, dt)
    N = x.size + x.size % 2
    want = target_amplitudes(fk, f, S, N, dt)
    # scale including the Nyquist bin, whose share is free
    fn = 1 / (2 * dt)
    scale = max(
        want.max() if want.size else 0.0,
        float(np.sqrt(2 * np.max(np.asarray(S, dtype=float)) / (N * dt))),
        1e-12,
    )
    skip = edge_bins(fk, f, 1.0 / (N * dt))
    bad = (np.abs(a - want) > 1e-6 * scale) & ~skip
    if bad.any():
        i = int(np.argmax(bad))
        return (
            "%d of %d frequencies carry another amplitude than the spectrum: "
            "%.6g instead of %.6g at f = %.6g (Nyquist %.6g)"
            % (int(bad.sum()), len(fk), a[i], want[i], fk[i], fn)
        )
    if x.size % 2 == 0 and x0 > 1e-6 * scale:
        return "mean over the period is %.3g" % x0
    return None


def phases(x, dt):
    """phases of the bins that carry energy, nan elsewhere"""
    fk, a, ph, _ = components(x, dt)
    ok = a > 1e-4 * (a.max() if a.size else 1.0)
    out = np.where(ok, np.mod(ph, 2 * np.pi), np.nan)
    return out


def shared_phases(p, q, tol=1e-10):
    n = min(len(p), len(q))
    if n == 0:
        return 0
    d = np.abs(np.angle(np.exp(1j * (p[:n] - q[:n]))))
    return int(np.sum(d[np.isfinite(d)] < tol))


def anywhere_shared(p, q, tol=1e-10):
    """values of p that occur in q at any place"""
    p = np.sort(p[np.isfinite(p)])
    q = np.sort(q[np.isfinite(q)])
    if not len(p) or not len(q):
        return 0
    i = np.searchsorted(q, p)
    lo = q[np.clip(i - 1, 0, len(q) - 1)]
    hi = q[np.clip(i, 0, len(q) - 1)]
    return int(np.sum(np.minimum(np.abs(p - lo), np.abs(p - hi)) < tol))


def repeated_within(p, tol=1e-10):
    s = np.sort(p[np.isfinite(p)])
    return int(np.sum(np.diff(s) < tol))
