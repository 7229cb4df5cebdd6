"""Command line: check a property, replay a file, self-test the determinism.

  main.py check ID            tier from VERIF_TIER, seed from VERIF_SEED
  main.py replay FILE
  main.py selftest            every property: same seeds, twice, other worker counts
"""
import hashlib
import json
import os
import pickle
import random
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from dst import world
from dst.world import HarnessError

T0 = time.time()


def registry():
    from dst import props_conc, props_fault, props_plot, props_random, props_rec, props_iter, props_coh, props_sync, props_state, props_shape, props_long

    out = {}
    for m in (props_random, props_state, props_conc, props_fault, props_plot, props_rec, props_iter, props_coh, props_sync, props_shape, props_long):
        for v in vars(m).values():
            if isinstance(v, type) and hasattr(v, "id") and hasattr(v, "gen"):
                out[v.id] = v
    return dict(sorted(out.items()))


def scenario(prop, seed, i, tier):
    rng = random.Random("%s/%d/%d" % (prop.id, seed, i))
    scn = prop.gen(rng, i, tier)
    scn["prop"] = prop.id
    scn["origin"] = {"seed": seed, "index": i, "tier": tier}
    return scn


def execute(prop, scn, want_explicit=False):
    """Run one scenario in a forked child."""

    def go():
        try:
            run, out, nt, refs = prop.run(scn)
        except (HarnessError, MemoryError, OSError):
            raise
        except Exception as e:
            # what the toolbox made has no form in which it could be judged
            at = [(os.path.basename(f.filename), f.name) for f in traceback.extract_tb(e.__traceback__)]
            text = "%s: %s in %s" % (type(e).__name__, str(e)[:200], at[-1][1])
            return {
                "viol": [{"class": "unusable", "detail": text}],
                "nt": True,
                "trace": world.digest([type(e).__name__, at]),
                "inter": "",
                "stats": {"steps": 0, "switches": 0, "vtime": 0.0, "clock_jumps": 0, "clock_reads": 0, "entropy_reads": 0, "ops": 0, "faults": {}},
                "refs": 0,
                "switches": [],
                "hist": [],
            }
        res = {
            "viol": out,
            "nt": bool(nt),
            "trace": run.trace(),
            "inter": run.interleaving(),
            "stats": run.stats(),
            "refs": refs.runs,
        }
        if want_explicit or out:
            res["switches"] = run.sim.switches
            res["hist"] = [r.brief() for r in run.hist]
        return res

    # prop.run fills in fault totals: keep ours unchanged for the replay file
    return world.fork_call(go, timeout=150)


# ---------------------------------------------------------------------------
def worker(prop, seed, tier, idx, nw, total, wfd, deadline, stop_first):
    def send(msg):
        b = pickle.dumps(msg, protocol=4)
        b = struct.pack("<I", len(b)) + b
        while b:
            n = os.write(wfd, b)
            b = b[n:]

    try:
        for i in range(idx, total, nw):
            if clock() > deadline:
                send(("late", i))
                break
            scn = scenario(prop, seed, i, tier)
            r = execute(prop, scn)
            send(("run", i, r, scn if (r["viol"] or i < 3) else None))
            if r["viol"] and stop_first:
                break
        send(("end", idx))
    except HarnessError as e:
        send(("harness", idx, str(e)))
    except BaseException:
        send(("harness", idx, traceback.format_exc()))
    os._exit(0)


def clock():
    from dst import seams

    return seams.REAL["monotonic"]()


def batch(prop, seed, tier, total, nw, wall, stop_first=True):
    """Run scenarios 0..total-1 on nw workers. Yields messages."""
    deadline = clock() + wall
    pids, fds = {}, {}
    for w in range(nw):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for f in fds:
                os.close(f)
            worker(prop, seed, tier, w, nw, total, wfd, deadline, stop_first)
        os.close(wfd)
        fds[r] = [w, bytearray()]
        pids[w] = pid
    first_bad = None
    nxt = {w: w for w in range(nw)}
    try:
        while fds:
            rl, _, _ = select.select(list(fds), [], [], 5.0)
            if not rl and clock() > deadline + 170:
                raise HarnessError("workers do not answer")
            for r in rl:
                b = os.read(r, 1 << 20)
                w, buf = fds[r]
                if not b:
                    os.close(r)
                    del fds[r]
                    continue
                buf += b
                while len(buf) >= 4:
                    (n,) = struct.unpack("<I", buf[:4])
                    if len(buf) < 4 + n:
                        break
                    msg = pickle.loads(bytes(buf[4 : 4 + n]))
                    del buf[: 4 + n]
                    if msg[0] == "run":
                        nxt[w] = msg[1] + nw
                        if msg[2]["viol"] and stop_first:
                            first_bad = msg[1] if first_bad is None else min(first_bad, msg[1])
                    yield msg
            if first_bad is not None:
                # others only matter while they may find an earlier one
                for r in list(fds):
                    w = fds[r][0]
                    if nxt[w] > first_bad:
                        os.kill(pids[w], signal.SIGKILL)
                        os.close(r)
                        del fds[r]
    finally:
        for w, p in pids.items():
            try:
                os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(p, 0)


# ---------------------------------------------------------------------------
def violates(prop, scn, cls):
    try:
        r = execute(prop, json.loads(json.dumps(scn)), True)
    except HarnessError:
        return None
    for v in r["viol"]:
        if v["class"] == cls:
            return r
    return None


def minimise(prop, scn, cls, wall=25.0):
    """Drop operations, clients, faults and switches while the violation class stays."""
    end = clock() + wall
    best = json.loads(json.dumps(scn))
    tries = 0

    def attempt(cand):
        nonlocal best, tries
        if clock() > end:
            return False
        tries += 1
        try:
            ok = violates(prop, cand, cls)
        except Exception:
            ok = None
        if ok is None:
            return False
        best = cand
        return True

    def variants(s):
        # whole clients
        cl = s.get("clients", [])
        if len(cl) > 2:
            for i in range(len(cl)):
                c = json.loads(json.dumps(s))
                del c["clients"][i]
                yield c
        for i, lst in enumerate(cl):
            if len(lst) > 1:
                for a, b in ((0, len(lst) // 2), (len(lst) // 2, len(lst))):
                    c = json.loads(json.dumps(s))
                    del c["clients"][i][a:b]
                    if c["clients"][i] or len(cl) == 1:
                        yield c
        for k in ("setup", "finish"):
            for i in range(len(s.get(k, []))):
                c = json.loads(json.dumps(s))
                del c[k][i]
                yield c
        for i, lst in enumerate(cl):
            for j in range(len(lst)):
                if len(lst) > 1:
                    c = json.loads(json.dumps(s))
                    del c["clients"][i][j]
                    yield c
        for i, lst in enumerate(cl):
            for j, op in enumerate(lst):
                if "fault" in op and not getattr(prop, "keep_faults", False):
                    c = json.loads(json.dumps(s))
                    del c["clients"][i][j]["fault"]
                    yield c
        if s.get("jumps"):
            c = json.loads(json.dumps(s))
            c["jumps"] = []
            yield c
        # data and objects nobody names any more
        text = json.dumps([s.get(k) for k in ("setup", "clients", "finish")])
        for o in list(s.get("objs", {})):
            if '"%s"' % o not in text and '"$%s"' % o not in text:
                c = json.loads(json.dumps(s))
                del c["objs"][o]
                yield c
        text += json.dumps(s.get("objs", {}))
        for d in list(s.get("data", {})):
            if "@%s." % d not in text and '"%s"' % d not in text:
                c = json.loads(json.dumps(s))
                del c["data"][d]
                yield c
        for d, v in s.get("data", {}).items():
            for k in ("n", "nf"):
                if isinstance(v.get(k), int) and v[k] > 16 and v["type"] in ("series", "waves", "spec"):
                    c = json.loads(json.dumps(s))
                    c["data"][d][k] = max(12, v[k] // 2)
                    yield c

    if not getattr(prop, "no_shrink", False):
        progress = True
        while progress and clock() < end:
            progress = False
            for c in variants(best):
                if attempt(c):
                    progress = True
                    break
    # the schedule, as an explicit list of switches
    r = violates(prop, best, cls)
    if r is not None and len(best.get("clients", [])) > 1:
        c = json.loads(json.dumps(best))
        c["sched"] = {"mode": "explicit", "switches": r["switches"]}
        if violates(prop, c, cls) is not None:
            best = c
            sw = list(r["switches"])
            n = 2
            while len(sw) > 1 and clock() < end:
                chunk = max(1, (len(sw) - 1 + n - 1) // n)
                done = False
                i = 1
                while i < len(sw) and clock() < end:
                    cand = sw[:i] + sw[i + chunk :]
                    c = json.loads(json.dumps(best))
                    c["sched"]["switches"] = cand
                    if attempt(c):
                        sw = cand
                        done = True
                    else:
                        i += chunk
                if not done:
                    if chunk == 1:
                        break
                    n = min(len(sw), n * 2)
    return best, tries


def write_replay(prop, scn, res, cls, tries, orig):
    os.makedirs(os.path.join(world.VERIF, "replays"), exist_ok=True)
    v = [x for x in res["viol"] if x["class"] == cls] or res["viol"]
    body = {
        "property": prop.id,
        "violation": v[0],
        "all_violations": res["viol"][:5],
        "scenario": scn,
        "trace": res["trace"],
        "history": res.get("hist"),
        "minimisation": {"runs": tries, "operations_before": n_ops(orig), "operations": n_ops(scn), "switches": len(res.get("switches", []))},
        "how": "bash /verif/check.sh replay <this file>",
    }
    name = "%s-%d-%d.json" % (prop.id, scn["origin"]["seed"], scn["origin"]["index"])
    path = os.path.join(world.VERIF, "replays", name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1, default=str)
    return path


def n_ops(s):
    return sum(len(s.get(k, [])) for k in ("setup", "finish")) + sum(len(c) for c in s.get("clients", []))


# ---------------------------------------------------------------------------
def check(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    nw = int(os.environ.get("DST_WORKERS", str(min(8, os.cpu_count() or 1))))
    print("seed %d tier %s workers %d repo %s" % (seed, tier, nw, world.REPO), flush=True)
    world.boot()
    prop = registry()[pid]
    total = prop.quick if tier == "quick" else prop.thorough
    total = int(os.environ.get("DST_RUNS", total))
    wall = float(os.environ.get("DST_WALL", 420 if tier == "quick" else 3000))
    t_start = clock()
    agg = {
        "runs": 0,
        "nt": 0,
        "ops": 0,
        "steps": 0,
        "switches": 0,
        "vtime": 0.0,
        "jumps": 0,
        "clock_reads": 0,
        "entropy_reads": 0,
        "refs": 0,
    }
    faults = {}
    traces, inter, scns = set(), set(), set()
    samples = []
    bad = []
    late = False
    alld = hashlib.sha256()
    per_index = {}
    for m in batch(prop, seed, tier, total, nw, wall):
        if m[0] == "harness":
            raise HarnessError(m[2])
        if m[0] == "late":
            late = True
        if m[0] != "run":
            continue
        _, i, r, scn = m
        agg["runs"] += 1
        per_index[i] = r["trace"]
        s = r["stats"]
        for k in ("ops", "steps", "switches", "clock_reads", "entropy_reads"):
            agg[k] += s[k]
        agg["vtime"] += max(0.0, s["vtime"])
        agg["jumps"] += s["clock_jumps"]
        agg["refs"] += r["refs"]
        for k, v in s["faults"].items():
            faults[k] = faults.get(k, 0) + v
        inter.add(r["inter"])
        if r["nt"] and r["trace"] not in traces:
            agg["nt"] += 1
        traces.add(r["trace"])
        if scn is not None and len(samples) < 2 and not r["viol"]:
            samples.append(scn)
        if r["viol"]:
            bad.append((i, scn, r))
    wall_s = clock() - t_start
    for i in sorted(per_index):
        alld.update(per_index[i].encode())
    print(
        "%d runs in %.1f s, %d ops, %d steps, %d switches, faults %s, digest %s"
        % (agg["runs"], wall_s, agg["ops"], agg["steps"], agg["switches"], json.dumps(faults, sort_keys=True), alld.hexdigest()[:16]),
        flush=True,
    )
    if late and not bad and agg["runs"] < min(total, 100):
        raise HarnessError("only %d of %d runs fitted in the time" % (agg["runs"], total))
    code = 0
    nviol = 0
    if bad:
        bad.sort(key=lambda x: x[0])
        i, scn, r = bad[0]
        cls = r["viol"][0]["class"]
        print("run %d violates: %s" % (i, json.dumps(r["viol"][0], default=str)[:600]), flush=True)
        small, tries = minimise(prop, scn, cls, 25.0 if tier == "quick" else 120.0)
        res = violates(prop, small, cls)
        if res is None:
            small, tries = scn, 0
            res = violates(prop, small, cls) or r
        path = write_replay(prop, small, res, cls, tries, scn)
        ok = subprocess.run(
            [sys.executable, "-c", "from dst import main; main.cli()", "replay", path],
            cwd=world.VERIF,
            env={**os.environ, "PYTHONPATH": world.VERIF},
            capture_output=True,
            text=True,
        )
        print("replay in a fresh process: %s" % ("reproduced" if ok.returncode == 1 else "NOT reproduced (exit %d)" % ok.returncode))
        v = [x for x in res["viol"] if x["class"] == cls][0] if res["viol"] else {}
        print("minimised to %d operations: %s: %s" % (n_ops(small), cls, json.dumps(v.get("detail"), default=str)[:500]))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        code = 1
        nviol = len(bad)
    evidence(prop, tier, seed, nw, agg, faults, inter, traces, samples, wall_s, total, nviol, alld.hexdigest()[:16])
    return code


def evidence(prop, tier, seed, nw, agg, faults, inter, traces, samples, wall_s, total, nviol, digest):
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": agg["nt"],
        "rule": prop.rule + "; distinct by the digest of switches and recorded history",
        "samples": samples[:2] or ["no run without a violation"],
        "planned_runs": total,
        "runs_and_seeds_per_hour": round(3600 * agg["runs"] / max(wall_s, 1e-9)),
        "reference_runs": agg["refs"],
        "operations": agg["ops"],
        "simulated_steps": agg["steps"],
        "simulated_seconds": round(agg["vtime"], 3),
        "clock_jumps": agg["jumps"],
        "clock_reads_by_code": agg["clock_reads"],
        "entropy_reads_by_code": agg["entropy_reads"],
        "thread_switches": agg["switches"],
        "faults_fired": dict(sorted(faults.items())),
        "distinct_interleavings": len(inter),
        "interleaving_measure": "digest of (client, function, bytecode offset) at every switch and the order in which operations ended",
        "distinct_histories": len(traces),
        "history_digest": digest,
        "workers": nw,
        "real_components": "the toolbox (every module, from /repo's working tree), numpy, scipy, matplotlib (Agg), Pillow, CPython threads",
        "stub_components": "thread scheduling (baton), clock, entropy source, disk below the run's scratch directory (faulting raw file), locks created by the toolbox",
    }
    ev = {
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "code outside the toolbox (numpy, scipy, matplotlib) is not preempted and not interrupted, except at file operations",
            "references come from the same tree in pristine processes; what a call computes on its own is only judged where an independent model is named",
        ],
        "wall_s": round(wall_s, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(world.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(world.VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    world.boot()
    with open(path) as f:
        body = json.load(f)
    prop = registry()[body["property"]]
    r = execute(prop, body["scenario"], True)
    same_trace = r["trace"] == body["trace"]
    hit = [v for v in r["viol"] if v["class"] == body["violation"]["class"]]
    print("trace %s (%s)" % (r["trace"], "identical" if same_trace else "recorded: " + body["trace"]))
    if not hit:
        print("does not reproduce")
        return 0
    print(json.dumps(hit[0], default=str)[:800])
    print("VIOLATION property=%s replay=%s" % (prop.id, path))
    return 1


def selftest(n=120, props=None):
    """same seeds twice, at other worker counts: the histories must be identical"""
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    world.boot()
    bad = 0
    for pid, prop in registry().items():
        if props and pid not in props:
            continue
        digs = []
        for nw in (8, 3):
            d = {}
            for m in batch(prop, seed, "quick", n, nw, 900, stop_first=False):
                if m[0] == "harness":
                    raise HarnessError(m[2])
                if m[0] == "run":
                    d[m[1]] = m[2]["trace"]
            digs.append(d)
        diff = [i for i in digs[0] if digs[0][i] != digs[1].get(i)]
        h = hashlib.sha256("".join(digs[0][i] for i in sorted(digs[0])).encode()).hexdigest()[:16]
        print(pid, len(digs[0]), "runs", h, "DIFFERENT: %s" % diff[:5] if diff else "identical", flush=True)
        bad += bool(diff)
    return 1 if bad else 0


def cli():
    a = sys.argv[1:]
    try:
        if a[:1] == ["check"]:
            code = check(a[1])
        elif a[:1] == ["replay"]:
            code = replay(a[1])
        elif a[:1] == ["selftest"]:
            code = selftest(int(a[1]) if len(a) > 1 else 120, a[2:])
        elif a[:1] == ["list"]:
            world.boot()
            for pid, prop in registry().items():
                print(pid, prop.quick, prop.thorough)
            code = 0
        else:
            print(__doc__)
            code = 2
    except HarnessError as e:
        print("HARNESS ERROR\n%s" % e, flush=True)
        code = 2
    except BaseException:
        print("HARNESS ERROR\n%s" % traceback.format_exc(), flush=True)
        code = 2
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    cli()
