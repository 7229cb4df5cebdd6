"""C07, C08: shared objects queried by interleaved clients."""
from dst import data as D
from dst import engine as E
from dst import ops as O
from dst.props_state import waves_or_series


def other(rng, scn):
    """sometimes: a second object of the same size with other data, queried next to the first"""
    if rng.random() < 0.25:
        d = dict(scn["data"]["d0"])
        e = D.gen_edit(rng, d) if rng.random() < 0.3 else None
        if e:
            d["edits"] = d.get("edits", []) + [e]
        else:
            d["seed"] = rng.randrange(1 << 30)
        scn["data"]["d9"] = d
        scn["objs"]["o9"] = {**scn["objs"]["o0"], "data": "d9"}


def also(scn, pool):
    """the same questions to the other object"""
    if "o9" not in scn["objs"]:
        return []
    return [{**q, "obj": {"o0": "o9", "o9": "o0"}[q["obj"]]} for q in pool if q.get("obj") in ("o0", "o9")]


class C07:
    id = "C07"
    rule = (
        "2-4 interleaved clients query one or two shared Series or WaveHeights objects, under "
        "seeded uniform, shared-access-biased and priority schedules that preempt at any "
        "bytecode instruction; non-trivial when at least two clients were active alternately"
    )
    quick, thorough = 2500, 30000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        for j in range(rng.choice([1, 1, 1, 1, 2])):
            waves_or_series(rng, "o%d" % j, scn, pos=False, big=rng.random() < 0.01)
        other(rng, scn)
        names = list(scn["objs"])
        hot = rng.random() < 0.5
        pool = None
        if hot:
            # the same few queries with other arguments from every client
            o = rng.choice(names)
            pool = [O.query(rng, o, scn["objs"][o]["cls"], scn["data"]["d" + o[1:]]) for _ in range(rng.choice([1, 2, 3]))]
            pool += also(scn, pool)

        def q():
            if pool and rng.random() < 0.75:
                return dict(rng.choice(pool))
            o = rng.choice(names)
            return O.query(rng, o, scn["objs"][o]["cls"], scn["data"]["d" + o[1:]])

        if rng.random() < 0.3:
            scn["setup"] = []
            for o in names:
                if rng.random() < 0.6:
                    scn["setup"].append({"op": "call", "obj": o, "m": "sort", "a": {}, "eff": True})
                else:
                    scn["setup"].append(q())
        scn["clients"] = [[q() for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([2, 2, 3, 4]))]
        scn["finish"] = [{"op": "attrs", "obj": o} for o in names] + [q()]
        scn["sched"] = E.gen_sched(rng, len(scn["clients"]))
        scn["jumps"] = E.gen_jumps(rng)
        return scn

    @staticmethod
    def run(scn):
        refs, table = E.prepare(scn)
        run = E.Run(scn).go()
        return run, E.judge(run, table), len(run.sim.switches) > len(scn["clients"]), refs


class C08:
    id = "C08"
    rule = (
        "2-4 interleaved clients query the parameters of one or two shared Spectrum objects "
        "with other limits each, or make seeded realisations of them, under seeded schedules that preempt at any bytecode "
        "instruction; non-trivial when at least two clients were active alternately"
    )
    quick, thorough = 2500, 30000

    @staticmethod
    def gen(rng, i, tier):
        scn = {"data": {}, "objs": {}, "env": E.gen_env(rng)}
        for j in range(rng.choice([1, 1, 1, 2])):
            scn["data"]["d%d" % j] = D.gen_form(rng, D.gen_spec(rng), 0.2)
            scn["objs"]["o%d" % j] = {"cls": "Spectrum", "data": "d%d" % j}
        other(rng, scn)
        names = list(scn["objs"])
        m = rng.choice(O.SPEC_GETTERS) if rng.random() < 0.5 else None
        seeds = [O.gen_seed(rng) for _ in range(2)]

        def q():
            o = rng.choice(names)
            d = scn["data"]["d" + o[1:]]
            c = rng.random()
            if c < 0.05:
                return {"op": "attrs", "obj": o}
            if c < 0.08:
                return {"op": "str", "obj": o}
            if c < 0.2:
                # a seeded realisation of the shared spectrum, from its own arrays
                op = O.synth_op(rng, "d" + o[1:], d, seed=rng.choice(seeds))
                if rng.random() < 0.7:
                    op["a"]["f"], op["a"]["sVarDens"] = {"of": o, "at": "f"}, {"of": o, "at": "sVarDens"}
                return op
            op = O.spec_query(rng, o, d)
            if m and rng.random() < 0.6:
                op["m"] = m
                op["a"].pop("g", None)
            return op

        if rng.random() < 0.3:
            scn["setup"] = [q() for _ in range(rng.randrange(1, 3))]
        scn["clients"] = [[q() for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([2, 2, 3, 4]))]
        scn["finish"] = [{"op": "attrs", "obj": o} for o in names] + [q()]
        scn["sched"] = E.gen_sched(rng, len(scn["clients"]))
        scn["jumps"] = E.gen_jumps(rng)
        return scn

    @staticmethod
    def run(scn):
        refs, table = E.prepare(scn)
        run = E.Run(scn).go()
        return run, E.judge(run, table), len(run.sim.switches) > len(scn["clients"]), refs
