"""C12, C13, C15: figures and files."""
import io
import os
import warnings

import numpy as np

from dst import data as D
from dst import engine as E
from dst import ops as O
from dst import seams, world
from dst.canon import canon, close, same
from dst.props_fault import gen_disk
from dst.props_state import waves_or_series
from dst.world import TB


def plot_objs(rng, scn, k=None):
    for j in range(k or rng.choice([1, 1, 2, 2])):
        n = "o%d" % j
        if j and rng.random() < 0.5:
            # much like the first one: one value edited, or more of them
            d = dict(scn["data"]["d0"])
            e = [D.gen_edit(rng, d) for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < 0.35:
                e = [{"k": {"waves": "hwave", "spec": "S", "series": "xTime"}[d["type"]], "how": "dent"}]
            if all(e):
                d["edits"] = d.get("edits", []) + e
                scn["data"]["d%d" % j] = d
                scn["objs"][n] = {"cls": scn["objs"]["o0"]["cls"], "data": "d%d" % j}
                continue
        if rng.random() < 0.4:
            scn["data"]["d%d" % j] = D.gen_form(rng, D.gen_spec(rng), 0.2)
            scn["objs"][n] = {"cls": "Spectrum", "data": "d%d" % j}
        else:
            waves_or_series(rng, n, scn)
    return list(scn["objs"])


def user_plt(rng):
    c = rng.random()
    if c < 0.45:
        return {"op": "plt", "w": "figure", "v": rng.randrange(1, 9)}
    if c < 0.75:
        return {"op": "plt", "w": "select", "v": rng.randrange(4)}
    if c < 0.9:
        return {"op": "plt", "w": "annotate", "v": rng.randrange(4)}
    return {"op": "plt", "w": "hold"}


def is_plot(op):
    return op["op"] == "call" and op["m"].startswith("plot")


def shows(fig, op, o, h0):
    """does the figure show the object's own data? h0: heights when it was made"""
    ax = fig.axes
    if len(ax) != 1:
        return "%d axes" % len(ax)
    ax = ax[0]
    ln = ax.get_lines()

    def xy(l):
        return np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)

    def find(x, y):
        for l in ln:
            a, b = xy(l)
            if a.shape == np.shape(x) and b.shape == np.shape(y) and close(a, np.asarray(x, dtype=float)) and close(b, np.asarray(y, dtype=float)):
                return True
        return False

    m = op["m"]
    if m == "plot" and hasattr(o, "xTime"):
        if not find(o.time, o.xTime):
            return "no line with the series"
        if op["a"].get("plot_crossing") and not find(o.tCross, np.zeros(len(o.tCross))):
            return "no crossings"
    elif m == "plot":
        if not find(o.f, o.sVarDens):
            return "no line with the spectrum"
        return periods_shown(op, o, ln)
    elif m == "plot_hist_waveheight":
        n = sum(p.get_height() for p in ax.patches)
        if abs(n - len(h0)) > 1e-6:
            return "histogram of %g waves instead of %d" % (n, len(h0))
        if len(h0):
            eps = 1e-9 * max(1.0, np.max(h0))
            for p in ax.patches:
                lo, hi = p.get_x(), p.get_x() + p.get_width()
                if not np.sum((h0 > lo + eps) & (h0 < hi - eps)) <= p.get_height() <= np.sum((h0 >= lo - eps) & (h0 <= hi + eps)):
                    return "%g waves between %g and %g" % (p.get_height(), lo, hi)
    elif m == "plot_exceedance_waveheight":
        if len(h0) and not ln:
            return "no line"
        if not len(h0):
            return None
        x, y = xy(ln[0])
        if not close(np.sort(x), np.sort(h0.astype(float))):
            return "not the wave heights"
        if np.any(np.diff(x) > 0):
            return "wave heights not in descending order"
        k = np.arange(1, len(h0) + 1)
        if y.shape != k.shape or np.any(y < (k - 1) / len(h0) - 1e-9) or np.any(y > k / len(h0) + 1e-9):
            return "wave heights not at the fraction of the waves that are as high"
    elif m == "plot_exceedance_waveheight_Rayleigh":
        hs = np.sort(h0.astype(float))[::-1]
        n = len(hs)
        Hs = np.mean(hs[: n // 3]) if n >= 3 else 0.0
        unit = Hs if op["a"].get("normalize") else 1.0
        if not n or not unit > 0:
            return None
        k = np.arange(1, n + 1)
        x = np.sqrt(-np.log(k / n))
        if not find(x, hs / unit):
            return "no line with the descending wave heights at their exceedance"
        # the Rayleigh distribution of this significant height, n or n + 1 waves
        lo, hi = (Hs / np.sqrt(2) * np.sqrt(-np.log(k / m)) / unit for m in (n, n + 1))
        eps = 1e-6 * Hs / unit
        ok = [l for l in ln if xy(l)[1].shape == lo.shape and close(xy(l)[0], x) and np.all(xy(l)[1] >= lo - eps) and np.all(xy(l)[1] <= hi + eps)]
        if Hs > 0 and not ok:
            return "no line with the Rayleigh distribution of Hs %g" % Hs
        for v, t in zip(ax.get_xticks(), ax.get_xticklabels()):
            try:
                p = float(t.get_text())
            except ValueError:
                continue
            if 0 < p <= 100 and abs(v - np.sqrt(-np.log(p / 100))) > 1e-6:
                return "exceedance of %g percent marked at %g" % (p, v)
        a = op["a"]
        if a.get("plot_BG"):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                h, pr = TB.core_wavefunctions.compute_BattjesGroenendijk_wave_height_distribution(
                    a["hm0"], n, a["water_depth"], cota_slope=a.get("cota_slope", 250.0)
                )
            if h.size and not find(np.sqrt(-np.log(pr)), h / unit):
                return "no line with the Battjes-Groenendijk distribution"
        elif len(ln) > 2:
            return "%d lines" % len(ln)
    return None


def periods_shown(op, o, ln):
    """the periods asked for before, marked at their frequency; no others"""
    top = float(np.max(o.sVarDens)) if len(o.sVarDens) else 0.0
    for T in ("Tps", "Tmm10", "Tm02"):
        l = [q for q in ln if q.get_label() == T]
        if not op["a"].get("plot_periods", True) or not hasattr(o, T):
            if l:
                return "%s marked" % T
            continue
        if len(l) != 1:
            return "%s not marked" % T
        v = np.asarray(l[0].get_xdata(), dtype=float)
        with np.errstate(all="ignore"):
            f = 1 / np.float64(getattr(o, T))
        if not close(v, np.full(v.shape, f)) or not close(np.max(np.asarray(l[0].get_ydata(), dtype=float)), np.float64(top)):
            return "%s of %g s marked at %s Hz" % (T, getattr(o, T), v)
    return None


# ---------------------------------------------------------------------------
class C12:
    id = "C12"
    rule = (
        "plots of Series, WaveHeights and Spectrum objects in histories with the program's "
        "own figures opened, selected and drawn on, queries, sort() and failing plots in "
        "between, or by interleaved clients; every returned figure against the object's data "
        "and a pristine process, checked again at the end of the run, with the program's own "
        "figures compared before and after; non-trivial when at least two figures were open"
    )
    quick, thorough = 1100, 12000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        names = plot_objs(rng, scn)
        multi = rng.random() < 0.4
        saves = [0]

        last = []

        def plot():
            o = rng.choice(names)
            op = O.plot_op(rng, o, scn["objs"][o]["cls"], scn["data"]["d" + o[1:]])
            if last and rng.random() < 0.3:
                # the same picture of the other one
                cls, q = rng.choice(last)
                if cls == scn["objs"][o]["cls"]:
                    op = {**q, "obj": o, "a": {k: v for k, v in q["a"].items() if k != "savepath"}}
            last.append((scn["objs"][o]["cls"], op))
            if rng.random() < 0.12 and not multi:
                saves[0] += 1
                op["a"]["savepath"] = "%%p%d.png" % saves[0]
            return op

        def getter(o):
            return {"op": "call", "obj": o, "m": rng.choice(["get_Tps", "get_Tmm10", "get_Tm02"]), "a": {}, "eff": True}

        scn["setup"] = []
        for o in names:
            if scn["objs"][o]["cls"] == "Spectrum":
                scn["setup"] += [getter(o) for _ in range(rng.randrange(3))]
        if multi:
            scn["setup"] += [user_plt(rng) for _ in range(rng.randrange(3))]
            scn["clients"] = [[plot() for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([2, 2, 3]))]
            if rng.random() < 0.4:
                o = rng.choice(names)
                if scn["objs"][o]["cls"] != "Spectrum":
                    scn["clients"].append([O.query(rng, o, scn["objs"][o]["cls"], scn["data"]["d" + o[1:]]) for _ in range(2)])
            scn["sched"] = E.gen_sched(rng, 2)
        else:
            lst = []
            for _ in range(rng.randrange(3, 9)):
                c = rng.random()
                o = rng.choice(names)
                cls = scn["objs"][o]["cls"]
                if c < 0.22:
                    lst.append(user_plt(rng))
                elif c < 0.28 and cls != "Spectrum":
                    lst.append({"op": "call", "obj": o, "m": "plot_exceedance_waveheight_Rayleigh", "a": {"plot_BG": True}})
                elif c < 0.34 and cls != "Spectrum":
                    lst.append({"op": "call", "obj": o, "m": "sort", "a": {}, "eff": True})
                elif c < 0.42:
                    lst.append(getter(o) if cls == "Spectrum" else O.waves_query(rng, o))
                else:
                    lst.append(plot())
            if len(names) == 2 and scn["objs"]["o0"]["cls"] == scn["objs"]["o1"]["cls"] and rng.random() < 0.4:
                # the same picture of both
                op = O.plot_op(rng, "o0", scn["objs"]["o0"]["cls"], scn["data"]["d0"])
                if scn["objs"]["o0"]["cls"] != "Spectrum" and rng.random() < 0.4:
                    op = {"op": "call", "obj": "o0", "m": "plot_exceedance_waveheight_Rayleigh", "a": {"normalize": True}}
                lst += [op, {**op, "obj": "o1"}]
            if rng.random() < 0.05:
                # a program that keeps many figures
                lst[:0] = [{"op": "plt", "w": "figure", "v": 20 + k} for k in range(rng.choice([10, 20, 24]))]
            scn["clients"] = [lst]
        return scn

    @staticmethod
    def run(scn):
        import matplotlib.pyplot as plt

        s2 = scn
        refs, table = E.prepare(s2)
        out = []
        mine = {}  # figure of the program -> what it shows
        got = []  # (record, figure, what it showed when it was returned)
        heights = {}

        def recheck(run):
            for rec, fig, c in got:
                d = same(canon(fig), c)
                if d:
                    out.append(E.viol("figure-changed", "a figure returned earlier shows something else at the end: %s" % d, rec))
                    return
                if fig.number not in plt.get_fignums() or plt.figure(fig.number) is not fig:
                    out.append(E.viol("figure-lost", "a figure returned earlier is not open any more", rec))
                    return

        class R(E.Run):
            def _go(self, *a):
                super()._go(*a)
                if not self.abort and not out:
                    recheck(self)
                    known = {f.number for _, f, _ in got} | {f.number for f in self.env.figs}
                    if set(plt.get_fignums()) - known:
                        out.append(E.viol("stray-figure", "figures %s are open that nobody was given" % sorted(set(plt.get_fignums()) - known)))

            def do_op(self, c, i, op):
                env = self.env
                for n, o in env.objs.items():
                    if n not in heights and hasattr(o, "hwave"):
                        heights[n] = np.array(o.hwave)
                single = c == -1 or len(self.scn["clients"]) == 1
                before = list(plt.get_fignums())
                seen = [(f, canon(f)) for f in env.figs] if is_plot(op) else []
                rec = super().do_op(c, i, op)
                if not is_plot(op):
                    return rec
                for f, was in seen:
                    d = same(canon(f), was)
                    if d and single:
                        out.append(E.viol("drawn-elsewhere", "the program's own figure changed: %s" % d, rec))
                if rec.out[0] != "ok":
                    return rec
                fig = rec.raw
                if not hasattr(fig, "axes"):
                    out.append(E.viol("no-figure", "returns %r" % (type(fig).__name__,), rec))
                    return rec
                if any(fig is f for _, f, _ in got) or any(fig is f for f in env.figs):
                    out.append(E.viol("shared-figure", "returns a figure that belongs to another call", rec))
                    return rec
                if fig.number not in plt.get_fignums():
                    out.append(E.viol("figure-lost", "the returned figure is not open", rec))
                    return rec
                if single:
                    new = [n for n in plt.get_fignums() if n not in before]
                    if new != [fig.number]:
                        out.append(E.viol("stray-figure", "figures %s opened, %s returned" % (new, fig.number), rec))
                    elif plt.gcf() is not fig:
                        out.append(E.viol("not-current", "the returned figure is not the current one", rec))
                    gone = [n for n in before if not plt.fignum_exists(n)]
                    if gone:
                        out.append(E.viol("figure-lost", "figures %s of the program are not open any more" % gone, rec))
                d = shows(fig, op, env.objs[op["obj"]], heights.get(op["obj"], np.zeros(0)))
                if d:
                    out.append(E.viol("wrong-figure", d, rec))
                got.append((rec, fig, rec.out[1]))
                return rec

        run = R(scn, keep=True).go()
        out = E.judge(run, table) + out
        return run, out, len(got) >= 2, refs


# ---------------------------------------------------------------------------
def look_at(path):
    """what is in a picture file, in a form that can be compared; None: not a picture"""
    import PIL.Image

    try:
        with open(path, "rb") as f:
            b = f.read()
    except FileNotFoundError:
        return "no file"
    except OSError as e:
        return "unreadable: %s" % type(e).__name__
    ext = path.rsplit(".", 1)[-1]
    try:
        if ext in ("png", "jpg"):
            im = PIL.Image.open(io.BytesIO(b))
            im.load()
            if ext == "png" and not b.rstrip(b"\0").endswith(b"IEND\xaeB`\x82"):
                return "truncated picture of %d bytes" % len(b)
            return ["pixels", im.format, im.size, world.digest(np.asarray(im.convert("RGBA")).tobytes())]
    except Exception as e:
        return "damaged picture of %d bytes: %s" % (len(b), type(e).__name__)
    if ext == "pdf":
        if b.startswith(b"%PDF") and b.rstrip().endswith(b"%%EOF"):
            return ["pdf", "complete"]
        return "damaged document of %d bytes" % len(b)
    if ext == "svg":
        if b"<svg" in b and b.rstrip().endswith(b"</svg>"):
            return ["svg", "complete"]
        return "damaged document of %d bytes" % len(b)
    return ["bytes", len(b)]


class C13:
    id = "C13"
    rule = (
        "plots saved to files on a simulated disk that refuses to open, is full after some "
        "bytes, fails, is interrupted or writes short, or fails when closing, onto new names, "
        "existing files and impossible paths, in histories with retries and by interleaved "
        "clients (switches at file operations too); after every normal return the file has "
        "the pixels of the figure returned in a pristine process, other files keep their bytes; "
        "non-trivial when a disk fault struck, a path was impossible or clients overlapped"
    )
    quick, thorough = 600, 8000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        names = plot_objs(rng, scn)
        multi = rng.random() < 0.3
        k = [0]
        used = []
        scn["files"] = ["keep.txt", "old.png"]
        scn["setup"] = []
        for o in names:
            if scn["objs"][o]["cls"] == "Spectrum" and rng.random() < 0.5:
                scn["setup"].append({"op": "call", "obj": o, "m": "get_Tps", "a": {}, "eff": True})

        def save():
            o = rng.choice(names)
            op = O.plot_op(rng, o, scn["objs"][o]["cls"], scn["data"]["d" + o[1:]])
            c = rng.random()
            if multi or c < 0.6 or not used:
                k[0] += 1
                p = "f%d.png" % k[0]
                if not multi:
                    c2 = rng.random()
                    p = p if c2 < 0.85 else p[:-3] + rng.choice(["pdf", "svg", "jpg"])
                    if c2 < 0.03:
                        p = "old.png"
                    elif c2 < 0.4:
                        # names people give
                        p = rng.choice(["p%d", "p%d", "q%d", "run %d.png", "Hm0=1.5 %d.png", "h\u00f6he%d.png", "v1.%d.png", "sub.dir/p%d", "sub.dir/p%d.png", "./r%d.png", "adir/../s%d.png", "_%d.jpg", "#%d%%.png"]) % k[0]
            elif c < 0.85:
                p = rng.choice(used)
            else:
                p = rng.choice(["nodir/p.png", "adir", "adir.png", "p.nosuch"])
            used.append(p)
            op["a"]["savepath"] = "%" + p
            if (p.endswith(".png") or "." not in p) and rng.random() < 0.1:
                op["a"]["savepath"] = {"path": p}
            return op

        lists = []
        for _ in range(2 if multi else 1):
            lst = []
            for _ in range(rng.randrange(1, 3) if multi else rng.randrange(2, 5)):
                op = save()
                if rng.random() < 0.5:
                    op["fault"] = {"kind": "disk", "plan": gen_disk(rng)}
                    lst.append(op)
                    if rng.random() < 0.5:
                        lst.append({x: v for x, v in op.items() if x != "fault"})
                else:
                    lst.append(op)
                if rng.random() < 0.15 and not multi:
                    lst.append(user_plt(rng))
            lists.append(lst)
        scn["clients"] = lists
        if multi:
            scn["sched"] = E.gen_sched(rng, 2)
        return scn

    @staticmethod
    def reference(scn, refs, c, i, op):
        """the picture in a pristine process, and what the call does"""
        eff = E.involved(E.effects_before(scn, c, i), op)
        key = refs.key(eff, op) + "/file"
        if key not in refs.cache:

            def go():
                E.set_env(E.REF_ENV)
                import tempfile

                e = O.Env(scn)
                with tempfile.TemporaryDirectory(prefix="dst-ref-") as tmp:
                    e.tmp = tmp
                    prepare_dir(tmp)
                    E.build_objs(e, E.names_in([eff, op]))
                    for x in eff:
                        try:
                            O.run_op(e, E.clean(x))
                        except Exception:
                            pass
                    r, fig = O.outcome(e, E.clean(op))
                    p = path_of(op, tmp)
                    saved, own = look_at(p), None
                    if r[0] == "ok" and p.endswith(".png") and hasattr(fig, "savefig"):
                        p = os.path.join(tmp, "own.png")
                        fig.savefig(p)
                        own = look_at(p)
                    return r, saved, own

            refs.runs += 1
            refs.cache[key] = world.fork_call(go)
        return refs.cache[key]

    @staticmethod
    def run(scn):
        refs = E.Refs(scn)
        scn["budget"] = 20_000_000
        if scn.get("sched", {}).get("mode") == "pct":
            scn["sched"].setdefault("total", 4000)
        out = []
        ref = {}
        for c, i, op in E.all_ops(scn):
            if is_plot(op):
                ref[(c, i)] = C13.reference(scn, refs, c, i, op)
        faulty = []

        class R(E.Run):
            def _go(self, *a):
                prepare_dir(self.env.tmp)
                super()._go(*a)
                if self.abort:
                    out.append(E.viol(self.abort, "operations do not finish"))
                elif not out and len(self.scn["clients"]) > 1:
                    self.files(None, None)
                    # the last successful save of each path decides what is there
                    last = {}
                    for r in self.hist:
                        if is_plot(r.op):
                            last[path_of(r.op, "")] = r
                    for p, r in last.items():
                        if r.out[0] == "ok":
                            self.compare(r)

            def compare(self, rec):
                w = ref[(rec.c, rec.i)]
                now = look_at(path_of(rec.op, self.env.tmp))
                if w[0][0] != "ok":
                    return
                if w[2] is not None and w[1] != w[2]:
                    out.append(E.viol("wrong-file", "the file shows something else than the figure returned", rec))
                elif now != w[1]:
                    out.append(E.viol("wrong-file", "returned normally, but the file is %s instead of %s" % (now, w[1]), rec))

            def files(self, rec, before):
                now = tree(self.env.tmp)
                if before is None:
                    before = self.first
                mine = set()
                for r in self.hist if rec is None else [rec]:
                    if is_plot(r.op):
                        p = path_of(r.op, self.env.tmp)
                        mine |= {os.path.relpath(p, self.env.tmp)}
                for k in sorted(set(before) | set(now)):
                    if k not in mine and before.get(k) != now.get(k):
                        out.append(E.viol("other-file", "file %s %s" % (k, "changed" if k in before and k in now else "appeared" if k in now else "disappeared"), rec))
                        return

            def do_op(self, c, i, op):
                multi = len(self.scn["clients"]) > 1
                if not hasattr(self, "first"):
                    self.first = tree(self.env.tmp)
                before = None if multi else tree(self.env.tmp)
                rec = super().do_op(c, i, op)
                if not is_plot(op):
                    return rec
                w = ref[(c, i)]
                if rec.fired or w[0][0] != "ok":
                    faulty.append(1)
                if w[0][0] != "ok":
                    if rec.out[0] == "ok":
                        out.append(E.viol("wrong-file", "returns normally where %s is due" % w[0][1], rec))
                elif rec.out[0] == "ok":
                    d = same(rec.out[1], w[0][1])
                    if d:
                        out.append(E.viol("wrong-figure", d, rec))
                elif not rec.fired:
                    out.append(E.viol("failed", "raises %s without a fault: %s" % (rec.out[1], rec.extra), rec))
                if not multi:
                    if rec.out[0] == "ok":
                        self.compare(rec)
                    self.files(rec, before)
                return rec

        run = R(scn, keep=True).go()
        return run, out, bool(faulty) or len(scn["clients"]) > 1, refs


def prepare_dir(tmp):
    real = seams.REAL["open"]
    with real(os.path.join(tmp, "keep.txt"), "w") as f:
        f.write("not yours\n")
    with real(os.path.join(tmp, "old.png"), "wb") as f:
        f.write(b"an older picture" * 400)
    os.mkdir(os.path.join(tmp, "adir"))
    os.mkdir(os.path.join(tmp, "adir.png"))
    os.mkdir(os.path.join(tmp, "sub.dir"))


def path_of(op, tmp):
    p = op["a"]["savepath"]
    p = p["path"] if isinstance(p, dict) else p[1:]
    if "." not in p.rsplit("/", 1)[-1]:
        p += ".png"
    return os.path.join(tmp, p)


def tree(tmp):
    out = {}
    for d, ds, fs in os.walk(tmp):
        for f in fs:
            p = os.path.join(d, f)
            with seams.REAL["open"](p, "rb") as g:
                out[os.path.relpath(p, tmp)] = world.digest(g.read())
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), tmp) + "/"] = "dir"
    return out


# ---------------------------------------------------------------------------
class C15:
    id = "C15"
    rule = (
        "plots that fail (impossible path, failing disk, bad limits, missing arguments, "
        "failing allocation at any call) next to good ones and the program's own figures, in "
        "sequence and by interleaved clients; the open figures and the current one after each "
        "failure against those before, and at the end nothing open but figures somebody was "
        "given; non-trivial when a plot failed"
    )
    quick, thorough = 1300, 14000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        names = plot_objs(rng, scn)
        multi = rng.random() < 0.3
        k = [0]

        def one():
            o = rng.choice(names)
            cls = scn["objs"][o]["cls"]
            d = scn["data"]["d" + o[1:]]
            op = O.plot_op(rng, o, cls, d)
            c = rng.random()
            if c < 0.42:
                op["fault"] = {"kind": "oom", "frac": round(rng.random(), 4)}
                if rng.random() < 0.3:
                    op["fault"]["sub"] = rng.choice([0, 0, 1, 2, 4])
                if rng.random() < 0.3:
                    k[0] += 1
                    op["a"]["savepath"] = "%%f%d.png" % k[0]
            elif c < 0.54:
                op["a"]["savepath"] = rng.choice(["%nodir/p.png", "%adir.nosuch", "%p.nosuch"])
            elif c < 0.72 and not multi:
                k[0] += 1
                op["a"]["savepath"] = "%%f%d.png" % k[0]
                op["fault"] = {"kind": "disk", "plan": gen_disk(rng)}
            elif c < 0.86:
                if cls == "Spectrum":
                    op["a"]["xlim"] = {"arr": [0.0, 1.0, 2.0]} if rng.random() < 0.5 else "wide"
                elif rng.random() < 0.6:
                    op = {"op": "call", "obj": o, "m": "plot_exceedance_waveheight_Rayleigh", "a": {"plot_BG": True}}
                else:
                    op = {"op": "call", "obj": o, "m": "plot_exceedance_waveheight_Rayleigh", "a": {"plot_BG": True, "hm0": 1.0, "water_depth": {"arr": [1.0, 2.0, 3.0]}}}
            return op

        if multi:
            scn["setup"] = [user_plt(rng) for _ in range(rng.randrange(3))]
            scn["clients"] = [[one() for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([2, 2, 3]))]
            scn["sched"] = E.gen_sched(rng, 2)
        else:
            lst = []
            for _ in range(rng.randrange(3, 9)):
                lst.append(user_plt(rng) if rng.random() < 0.3 else one())
            scn["clients"] = [lst]
        return scn

    @staticmethod
    def run(scn):
        import matplotlib.pyplot as plt

        scn["budget"] = 20_000_000
        refs = E.Refs(scn)
        for c, i, op in E.all_ops(scn):
            f = op.get("fault")
            if is_plot(op) and f and f["kind"] == "oom":
                f["total"] = refs.get([], op)["calls"]
        if scn.get("sched", {}).get("mode") == "pct":
            scn["sched"].setdefault("total", 3000)
        out = []
        given = []
        failed = []

        def now():
            n = plt.get_fignums()
            return n, (plt.gcf().number if n else None)

        class R(E.Run):
            def _go(self, *a):
                super()._go(*a)
                if self.abort:
                    out.append(E.viol(self.abort, "operations do not finish"))
                    return
                known = {f.number for f in given} | {f.number for f in self.env.figs}
                if set(plt.get_fignums()) - known and not out:
                    out.append(E.viol("figure-left", "figures %s are open that nobody was given" % sorted(set(plt.get_fignums()) - known)))
                gone = [f.number for f in given + self.env.figs if f.number not in plt.get_fignums()]
                if gone and not out:
                    out.append(E.viol("figure-closed", "figures %s were closed by somebody else's failure" % gone))

            def do_op(self, c, i, op):
                single = c == -1 or len(self.scn["clients"]) == 1
                before = now() if single else None
                seen = [(f, canon(f)) for f in given + self.env.figs] if is_plot(op) and single else []
                rec = super().do_op(c, i, op)
                if not is_plot(op):
                    return rec
                if rec.out[0] == "ok":
                    if hasattr(rec.raw, "axes"):
                        given.append(rec.raw)
                    return rec
                failed.append(rec)
                if single and now() != before:
                    out.append(E.viol("figure-left", "open figures and current one %s before, %s after the failure (%s)" % (before, now(), rec.out[1]), rec))
                    return rec
                for f, was in seen:
                    d = same(canon(f), was)
                    if d:
                        out.append(E.viol("drawn-elsewhere", "another figure changed while a plot failed: %s" % d, rec))
                        break
                return rec

        run = R(scn, keep=True).go()
        return run, out, bool(failed), refs
