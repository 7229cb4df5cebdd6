"""Results in a form that can be piped, compared and shown."""
import numbers

import numpy as np

RTOL = 1e-8


def canon(x, depth=0):
    from dst.world import TB

    if x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, numbers.Integral):
        return ["i", int(x)]
    if isinstance(x, numbers.Real):
        return ["f", float(x)]
    if isinstance(x, numbers.Complex):
        return ["c", complex(x)]
    if isinstance(x, np.ndarray):
        a = np.array(x)
        if a.dtype.kind == "O":
            return ["O", [canon(v, depth + 1) for v in a.ravel().tolist()]]
        return ["a", a.dtype.kind, a.shape, a]
    if isinstance(x, (list, tuple)):
        return ["l", [canon(v, depth + 1) for v in x]]
    if isinstance(x, dict):
        return ["d", sorted((str(k), canon(v, depth + 1)) for k, v in x.items())]
    if isinstance(x, TB.Series):
        return [
            "Series",
            [
                canon(getattr(x, k), depth + 1)
                for k in ("nt", "dt", "time", "xTime", "nwave", "hwave", "twave", "tCross")
            ],
        ]
    if isinstance(x, TB.WaveHeights):
        return ["WaveHeights", [canon(getattr(x, k)) for k in ("nwave", "hwave", "twave")]]
    if isinstance(x, TB.Spectrum):
        return ["Spectrum", [canon(getattr(x, k)) for k in ("nf", "spec", "f", "sVarDens", "D")]]
    import matplotlib.figure

    if isinstance(x, matplotlib.figure.Figure):
        return canon_fig(x)
    return ["?", type(x).__name__]


def canon_fig(fig):
    axs = []
    for ax in fig.axes:
        lines = [
            [
                "l",
                [
                    str(ln.get_label()),
                    canon(np.asarray(ln.get_xdata(), dtype=float)),
                    canon(np.asarray(ln.get_ydata(), dtype=float)),
                    str(ln.get_color()),
                    str(ln.get_linestyle()),
                    str(ln.get_marker()),
                ],
            ]
            for ln in ax.get_lines()
        ]
        patches = [
            [
                "l",
                [
                    type(p).__name__,
                    canon(np.asarray(p.get_path().vertices)),
                    canon(np.asarray(p.get_patch_transform().transform(p.get_path().vertices))),
                ],
            ]
            for p in ax.patches
        ]
        leg = ax.get_legend()
        axs.append(
            [
                "l",
                [
                    ["l", lines],
                    ["l", patches],
                    ["i", len(ax.collections)],
                    ["i", len(ax.images)],
                    ["l", [t.get_text() for t in ax.texts]],
                    ax.get_title(),
                    ax.get_xlabel(),
                    ax.get_ylabel(),
                    ax.get_xscale(),
                    ax.get_yscale(),
                    canon(list(ax.get_xlim())),
                    canon(list(ax.get_ylim())),
                    None if leg is None else ["l", [t.get_text() for t in leg.get_texts()]],
                    # a missing grid is visible, its state is part of what is shown
                    bool(
                        ax.xaxis.get_gridlines()
                        and ax.xaxis.get_gridlines()[0].get_visible()
                    ),
                ],
            ]
        )
    return [
        "figure",
        [canon(np.asarray(fig.get_size_inches())), ["i", len(fig.texts)], ["l", axs]],
    ]


def same(a, b, path="result"):
    """None when equal up to rounding, otherwise a short text where they differ"""
    if type(a) is not type(b):
        return "%s: %s instead of %s" % (path, show(a), show(b))
    if isinstance(a, (str, bool)) or a is None:
        return None if a == b else "%s: %r instead of %r" % (path, a, b)
    if isinstance(a, (list, tuple)):
        if a and isinstance(a[0], str) and a[0] in ("i", "f", "c", "a", "l", "figure"):
            k = a[0]
            if not b or b[0] != k:
                return "%s: %s instead of %s" % (path, show(a), show(b))
            if k == "i":
                return None if a[1] == b[1] else "%s: %r instead of %r" % (path, a[1], b[1])
            if k in ("f", "c"):
                if close(np.asarray(a[1]), np.asarray(b[1])):
                    return None
                return "%s: %r instead of %r" % (path, a[1], b[1])
            if k == "a":
                if a[2] != b[2]:
                    return "%s: shape %r instead of %r" % (path, a[2], b[2])
                if a[1] != b[1]:
                    return "%s: dtype kind %r instead of %r" % (path, a[1], b[1])
                if close(a[3], b[3]):
                    return None
                return "%s: %s" % (path, first_diff(a[3], b[3]))
        if len(a) != len(b):
            return "%s: %d items instead of %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    return None if a == b else "%s: %r instead of %r" % (path, a, b)


def close(x, y):
    if x.dtype.kind not in "fciub" or y.dtype.kind not in "fciub":
        return bool(np.array_equal(x, y))
    if x.size == 0:
        return True
    if x.dtype.kind in "iub" and y.dtype.kind in "iub":
        return bool(np.array_equal(x, y))
    fin = np.abs(y[np.isfinite(y)]) if y.ndim else np.abs(y.ravel()[np.isfinite(y.ravel())])
    scale = float(fin.max()) if fin.size else 0.0
    atol = 1e-11 + (1e-9 * scale if y.ndim else 0.0)
    with np.errstate(all="ignore"):
        return bool(np.allclose(x, y, rtol=RTOL, atol=atol, equal_nan=True))


def first_diff(x, y):
    with np.errstate(all="ignore"):
        bad = ~np.isclose(x, y, rtol=RTOL, atol=1e-11, equal_nan=True)
    idx = np.argwhere(bad)
    if not len(idx):
        return "differs"
    i = tuple(int(v) for v in idx[0])
    return "%d of %d values differ, first at %s: %r instead of %r" % (
        len(idx),
        x.size,
        i,
        x[i].item(),
        y[i].item(),
    )


def show(c, n=120):
    s = repr(c).replace("\n", " ")
    return s if len(s) <= n else s[:n] + "..."


def strip(c):
    """for logs: rounded, printable, independent of memory layout"""
    if isinstance(c, (list, tuple)):
        return [strip(v) for v in c]
    if isinstance(c, np.ndarray):
        a = c.ravel()
        if a.dtype.kind in "fc":
            with np.errstate(all="ignore"):
                v = [_r(z) for z in a[:40].tolist()] + [_r(complex(np.nansum(a)))]
            return v
        return a[:40].tolist()
    if isinstance(c, float):
        return _r(c)
    if isinstance(c, complex):
        return _r(c)
    return c


def _r(z):
    return "%.6e" % z if isinstance(z, float) else "%.6e%+.6ej" % (z.real, z.imag)
