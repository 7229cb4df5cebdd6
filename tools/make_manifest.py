"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
NOTE = {
    "C01": "Bit-exact comparison of every seeded realisation in a random history with the same call alone in a pristine process. Trusts numpy's generators.",
    "C02": "State and draws of both global generators against a program without the seeded calls, for every cut point and interleaving drawn.",
    "C03": "Phases recovered from returned values: never shared, never repeated, roughly uniform (6 sigma), repeatable under the global generator alone.",
    "C04": "Independent discrete Fourier model of what a realisation must contain, under random and adversarial draws.",
    "C05": "Every answer against a pristine process, object data against a pairs-in-order model after every operation.",
    "C06": "Every answer against the same call on a fresh object in a pristine process; attribute against returned value.",
    "C07": "Every answer under a seeded line-level interleaving against the same call alone. Preemption is at bytecode-line and call granularity, not inside native code.",
    "C08": "As C07, for spectra.",
    "C09": "Later operations of a history with failing operations against the history without them.",
    "C10": "Digest of every argument at every scheduling point and at the end; failures at any point; read-only inputs against writable ones.",
    "C11": "Answers after the program overwrote sources and results against an object in a process that never did.",
    "C12": "Content of every open figure (artists, data, limits, texts) before and after every operation, against data of the object.",
    "C13": "Simulated disk behind open/os calls with seeded faults; bytes read back, decoded and compared with a rendering of the returned figure.",
    "C14": "Snapshot of 25 groups of process-wide settings around every operation.",
    "C15": "pyplot's figures, their content and the current figure around every failing plot.",
    "C16": "Every result on shared, refilled buffers against the same call alone in a pristine process.",
    "C17": "Simulated wave tank and loggers with seeded damage; answers against the waves that were simulated.",
    "C19": "Chains of synthesis, filtering, transforms and analysis, every answer against an independent discrete Fourier model of the record and of the spectrum it was made from.",
    "C20": "Simulated sensors with seeded faults; every crossing, wave and statistic against an independent model of the waves between zero crossings.",
    "C21": "Simulated loggers with seeded axis faults; refusal required of uneven axes, model answers of complete ones. compute_tps is left out: pinned by the stable tests on uneven axes.",
    "C22": "Every parameter of simulated measured or theoretical spectra against independent moments; answers that hang on rounding (limits midway between bins) are not judged.",
    "C23": "Wave numbers against bisection, distributions against quadrature and root finding; termination as a bound on simulated steps.",
    "C24": "Pairs of simulated records whose relation is known, every coherence against the complex average of an independent Fourier model; records of an odd number of points are not judged as unrelated, because leakage relates them.",
    "C25": "Refusal required of what the simulated loggers spoiled, answers of a pristine process of the rest. Not claimed where no check exists: WaveHeights' constructor, lengths in frequency_averaging, unfold_spectrum and applybandfilter.",
    "C26": "Every moment of simulated damaged, filtered or derived records against moments of the samples the caller handed over.",
    "C27": "What can be reached from the toolbox's modules and kept objects, survivors among given up data, files, threads and figures, after each window of rounds; answers and steps of the last round against the first. A store of limited size (up to about a thousand entries) raises no alarm. Interrupts inside plots are left out: one may come just as the figure is handed over.",
    "C18": "Restored objects in new interpreters against the uninterrupted history.",
}
TECH = {
    "C04": "deterministic simulation: injected random draws and seeded schedules, history checked against an executable Fourier model",
    "C05": "deterministic simulation: seeded histories with refused calls, refinement against an executable model and pristine runs",
    "C06": "deterministic simulation: seeded histories with refused calls, differential against pristine runs",
    "C07": "deterministic simulation: seeded random and PCT thread schedules, linearizability against sequential runs",
    "C08": "deterministic simulation: seeded random and PCT thread schedules, linearizability against sequential runs",
    "C13": "deterministic simulation: simulated disk with seeded faults, history checked against the returned figure",
    "C17": "deterministic simulation: simulated wave tank with seeded gauge faults, answers checked against the simulated waves",
    "C19": "deterministic simulation: seeded histories and schedules with injected draws and failures, refinement against an executable model of the measurement chain",
    "C20": "deterministic simulation: simulated sensors with seeded faults, refinement against an executable model of the waves",
    "C21": "deterministic simulation: simulated loggers with seeded axis faults, histories checked against an executable model",
    "C22": "deterministic simulation: seeded histories on disturbed spectra, refinement against an executable model of the moments",
    "C23": "deterministic simulation: seeded histories and faults, bounded-step liveness and solutions checked against independent solvers",
    "C24": "deterministic simulation: seeded histories and schedules with injected draws and sensor faults, refinement against an executable model and known relations",
    "C25": "deterministic simulation: simulated loggers with seeded losses in one channel, refusals and answers of histories checked against pristine runs",
    "C26": "deterministic simulation: simulated sensors with seeded faults, histories and schedules checked against moments of the samples",
    "C27": "deterministic simulation: seeded long histories of rounds with faults and schedules, growth and bounded-step invariants checked between rounds",
    "C18": "deterministic simulation: seeded crash and restart in a new process, refinement against the uninterrupted history",
}
PURE = (
    "A pure, deterministic function of its arguments: no schedule, clock, randomness, I/O, failure or earlier call "
    "takes part in it, so there is nothing for a simulator to decide; generating inputs for it would be property-based testing under another name. "
    "That such functions stay functions (of values, not of history, threads, failures or settings) is what C09, C10, C14 and C16 check."
)
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo are needed: numpy.random, open/os, time, threads and allocation are replaced from outside. fix: commits are listed in KNOWN_FINDINGS.txt.",
}
for p in props:
    i = p["id"]
    if i.startswith("C"):
        m["checks"].append(
            {
                "property": i,
                "quick_cmd": "bash check.sh check %s" % i,
                "thorough_cmd": "bash check.sh check %s" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": TECH.get(i, "deterministic simulation: seeded histories, schedules and faults, differential against pristine runs"),
                "level": "exploration",
                "level_note": NOTE[i] + " Sampled, not exhaustive.",
            }
        )
    else:
        m["not_applicable"].append({"property": i, "reason": PURE})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
