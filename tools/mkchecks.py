#!/usr/bin/env python3
"""Writes tools/checks.json, the table check.py works from."""
import json, os
R = os.path.dirname(os.path.abspath(__file__))
T = "deterministic simulation with fault injection: seeded search"
REAL_CORE = ["kofft (unmodified, every basic block instrumented as a preemption point)", "std, alloc, rayon and its thread pool (real, scheduled by the simulator)"]
STUB_SYS = ["kernel scheduler, futex and sleep (simulated)", "clock_gettime (simulated clock)", "getrandom (seeded)", "sched_getaffinity and cgroup limits (simulated CPU count)", "heap (real, with junk in fresh memory, least alignment, guards and poisoning)"]
RULE = "One run = one forked process executing a workload whose operations, arguments, faults and schedule are drawn from the run's seed (derived from VERIF_SEED, property, scenario and index). Non-trivial: "
checks = {}


def add(pid, variants, technique, rule, note, real=None, stub=None, assumptions=None, **kw):
    checks[pid] = dict(
        variants={v: dict(runs=r, share=s, **({"determinism": d[0]} if d else {})) for v, r, s, *d in variants},
        technique=T + " over " + technique, rule=RULE + rule, level_note=note,
        real=real or REAL_CORE, stub=stub or STUB_SYS, assumptions=assumptions or [], **kw)


FLOAT = "numeric tolerance 2e-5+1e-6 n (f32) and 1e-12+2e-15 n (f64) relative to the largest component, calibrated on the unchanged tree to at least twice the observed error"

add("C01", [("par", 20000, 1), ("ser", 12000, 1), ("bare", 8000, 0.5), ("avx", 6000, 0.5), ("fine", 4000, 0.3)], "histories of transforms on shared FFT objects, with hand-over between threads",
    "at least two checked transforms on one object after another request of a different length, direction or form.",
    "Sampled histories (2 to 40 operations, lengths 1 to a few thousand, one run in 50 up to 72 000) against a double-precision DFT written from the definition; " + FLOAT)
add("C02", [("par", 9000, 1), ("ser", 6000, 1), ("bare", 6000, 0.5)], "refused calls and calls abandoned at the k-th arithmetic operation",
    "a call was abandoned half way or a refusal was followed by a checked transform.",
    "Abandonment is modelled by an arithmetic type (the public Float trait) that unwinds at a drawn operation; buffers compared bit for bit after refusals; later transforms compared with the definition; " + FLOAT)
add("C03", [("par", 18000, 1), ("ser", 12000, 1), ("bare", 8000, 0.5), ("avx", 5000, 0.5)], "shared real-transform planners with a failing engine",
    "an engine failure was injected and later transforms were checked, or one planner served several lengths.",
    "Engine failures are injected through the public FftImpl trait (before, after or while destroying the buffer); results against the definition; " + FLOAT,
    stub=STUB_SYS + ["complex engine wrapped by one that fails at drawn calls (the engine inside is real)"])
add("C04", [("par", 20000, 1), ("ser", 16000, 1), ("bare", 8000, 0.5)], "request histories on shared DCT and DST planners",
    "plans of different lengths interleaved, or a refused run followed by a checked one.",
    "Definition oracles for DCT-II and the sine tables; " + FLOAT)
add("C05", [("par", 25000, 1), ("ser", 25000, 1), ("bare", 8000, 0.5)], "interleaved forward STFT streams on one failing engine",
    "a pull failed and was retried, or several streams interleaved.",
    "Reference frames computed from the definition in double precision and compared with both the stream and the one-shot STFT; " + FLOAT,
    stub=STUB_SYS + ["engine wrapper that fails at drawn calls"])
add("C06", [("par", 20000, 1), ("ser", 25000, 1), ("bare", 8000, 0.5)], "interleaved inverse STFT streams on one failing engine",
    "a push failed and was retried, or several streams interleaved.",
    "Reference overlap-add computed from the definition in double precision; samples whose window energy lies at the implementation's cut-off are compared only up to the un-normalised sum; " + FLOAT,
    stub=STUB_SYS + ["engine wrapper that fails at drawn calls"])
add("C07", [("par", 25000, 1), ("ser", 25000, 1), ("bare", 8000, 0.5), ("avx", 5000, 0.5)], "analysis and synthesis pipelines with queueing, failures and retries",
    "a step failed and was retried, or frames were queued.",
    "The restored signal is compared with the original where the overlapped window energy is at least 1e-6; " + FLOAT,
    stub=STUB_SYS + ["engine wrapper that fails at drawn calls"])

exec(open(os.path.join(R, "mkchecks_more.py")).read()) if os.path.exists(os.path.join(R, "mkchecks_more.py")) else None

json.dump({
    "quick_secs": 90, "thorough_secs": 900, "thorough_factor": 60,
    "assumptions": [
        "a clean batch is evidence, not proof: schedules, faults and inputs are sampled",
        "preemption happens at basic-block boundaries of the instrumented crates (in the fine builds of C01, C08, C09, C10, C11 and C15 also before every load and store) and at intercepted system calls; weak-memory reorderings are not simulated",
    ],
    "variants": {
        "par": {"package": "core_checks", "features": "par"},
        "ser": {"package": "core_checks", "features": "ser"},
        "bare": {"package": "core_checks", "features": "bare"},
        "avx": {"package": "core_checks", "features": "ser", "rustflags": "-C target-feature=+avx,+avx2,+fma", "cpu": ["avx", "avx2", "fma"]},
        "fine": {"package": "core_checks", "features": "par", "rustflags": "--cfg sim_fine"},
        "media": {"package": "media_checks", "features": "default"},
        "node": {"kind": "node", "script": "web/run.mjs"},
    },
    "checks": checks,
}, open(R + "/checks.json", "w"), indent=1)
