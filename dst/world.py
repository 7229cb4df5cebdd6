"""Boot of the simulated process and forking helpers."""
import gc
import hashlib
import os
import pickle
import select
import signal
import struct
import sys
import traceback
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("DST_REPO", "/repo"))
PKG = os.path.join(REPO, "deltares_wave_toolbox") + os.sep

TB = types.SimpleNamespace()  # the toolbox's modules
_booted = False


class HarnessError(Exception):
    """The machinery failed: neither a pass nor a violation."""


def boot():
    """Import the libraries, install the seams, import the toolbox from REPO."""
    global _booted
    if _booted:
        return
    _booted = True
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ["MPLBACKEND"] = "Agg"
    import random  # noqa
    import secrets  # noqa
    import tempfile  # noqa
    import threading  # noqa
    import time  # noqa
    import uuid  # noqa

    import numpy as np  # noqa
    import scipy.fft  # noqa
    import scipy.integrate  # noqa
    import scipy.interpolate  # noqa
    import scipy.signal  # noqa
    import scipy.special  # noqa
    import scipy.stats  # noqa
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.backends.backend_agg  # noqa
    import matplotlib.backends.backend_pdf  # noqa
    import matplotlib.backends.backend_svg  # noqa
    import PIL.JpegImagePlugin  # noqa
    import matplotlib.pyplot as plt  # noqa
    import PIL.Image  # noqa
    import PIL.PngImagePlugin  # noqa

    import dst.seams as seams

    # let matplotlib load what it loads lazily (fonts, png plugin)
    import io

    fig, ax = plt.subplots()
    ax.plot([0, 1], label="a")
    ax.legend()
    fig.savefig(io.BytesIO(), format="png")
    plt.close(fig)

    seams.install(PKG)
    sys.path.insert(0, REPO)
    # compile the tree under test from its source, never from a cached file
    sys.dont_write_bytecode = True
    keep, sys.pycache_prefix = sys.pycache_prefix, "/nonexistent/dst"
    import deltares_wave_toolbox as pkg
    import deltares_wave_toolbox.cores.core_dispersion as core_dispersion
    import deltares_wave_toolbox.cores.core_engine as core_engine
    import deltares_wave_toolbox.cores.core_spectral as core_spectral
    import deltares_wave_toolbox.cores.core_time as core_time
    import deltares_wave_toolbox.cores.core_wave_decomposition as core_wave_decomposition
    import deltares_wave_toolbox.cores.core_wavefunctions as core_wavefunctions
    import deltares_wave_toolbox.series as series
    import deltares_wave_toolbox.spectrum as spectrum

    sys.pycache_prefix = keep
    if not os.path.realpath(pkg.__file__).startswith(PKG):
        raise HarnessError("imported %s instead of %s" % (pkg.__file__, PKG))
    TB.pkg = pkg
    TB.core_dispersion = core_dispersion
    TB.core_engine = core_engine
    TB.core_spectral = core_spectral
    TB.core_time = core_time
    TB.core_wave_decomposition = core_wave_decomposition
    TB.core_wavefunctions = core_wavefunctions
    TB.series = series
    TB.spectrum = spectrum
    TB.Series = series.Series
    TB.WaveHeights = series.WaveHeights
    TB.Spectrum = spectrum.Spectrum
    TB.codes = toolbox_codes()
    gc.collect()
    gc.freeze()


def toolbox_codes():
    """Every code object of the toolbox that is loaded."""
    seen = {}

    def add(c):
        if id(c) in seen or not c.co_filename.startswith(PKG):
            return
        seen[id(c)] = c
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                add(k)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            add(o.__code__)
    out = list(seen.values())
    out.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    return out


# ---------------------------------------------------------------------------
def fork_call(fn, timeout=120.0):
    """Run fn() in a forked copy of this process; return its (picklable) result.
    Raises HarnessError on an exception in fn, on a crash or on a timeout."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", fn()), protocol=4)
            except BaseException:
                data = pickle.dumps(("exc", traceback.format_exc()), protocol=4)
            view = memoryview(data)
            os.write(w, struct.pack("<Q", len(data)))
            while view:
                n = os.write(w, view[:1048576])
                view = view[n:]
            os.close(w)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    end = _clock() + timeout
    try:
        while True:
            left = end - _clock()
            if left <= 0:
                raise HarnessError("simulated process timed out after %.0f s" % timeout)
            rl, _, _ = select.select([r], [], [], min(left, 5.0))
            if rl:
                b = os.read(r, 1048576)
                if not b:
                    break
                buf += b
    except HarnessError:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(r)
        try:
            _, st = os.waitpid(pid, 0)
        except ChildProcessError:
            st = 0
    if len(buf) < 8 or len(buf) - 8 != struct.unpack("<Q", bytes(buf[:8]))[0]:
        raise HarnessError("simulated process died (wait status %d)" % st)
    kind, val = pickle.loads(bytes(buf[8:]))
    if kind == "exc":
        raise HarnessError(val)
    return val


def _clock():
    from dst import seams

    return seams.REAL["monotonic"]()


def digest(obj):
    return hashlib.sha256(repr(obj).encode()).hexdigest()[:16]
