#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E, F = "exploration", "fault_enumeration"
CHECKS = {
    "C01": (E, "online accuracy monitor: every recorded state compared with the exact flow map of closed-form problems", "random closed-form problems, tolerances and options; bounds calibrated over millions of runs"),
    "C02": (E, "online accuracy and work monitor against exact flow maps, stiff and non-stiff", "random closed-form problems with decay rates up to 1e10; work compared along stiffness series"),
    "C03": (E, "step-by-step replay of every attempt in an independent reference implementation", "every attempt of random runs rebuilt from the logged evaluations"),
    "C04": (E, "step-by-step residual monitor of the collocation equations from logged evaluations", "every accepted implicit step of random runs; nonlinear problems judged statistically on the Newton heuristic"),
    "C05": (F, "termination and return-code monitor under injected faults, with event budget and CPU watchdog", "non-finite values at random evaluations, models that blow up or are undefined"),
    "C06": (E, "online log monitor: public state sampled around every step against the recorded solution", "random problems and options, both solvers"),
    "C07": (E, "paired runs of mirrored problems compared entry by entry", "random problems and options, both solvers"),
    "C11": (E, "callback interception: count, arguments and effect of every call, next step replayed in reference models", "random jumps, rescalings, parameter switches and stops"),
    "C12": (E, "differential runs over driving styles, interleavings and threads, compared bit by bit", "random problems, options and mixtures of driving styles"),
    "C13": (E, "residual monitor on factorizations and solves; exactly eliminable matrices with known outcome", "random matrices up to size 40, through the guarded hook"),
    "C14": (E, "residual monitor on banded and Hessenberg factorizations and solves; replay of stored reductions", "random matrices up to size 24, every bandwidth, through the guarded hook"),
    "C15": (E, "Jacobian monitor against analytic derivatives with every probe of the model logged; paired integrations", "random smooth functions and problems, through the guarded hook"),
    "C16": (E, "interpolant read back after every accepted step against recorded states, recomputed polynomial and exact flow", "random problems and options, through the guarded hook"),
    "C17": (E, "online invariant monitor on models with known invariants, equilibria and polynomial solutions", "random mass-action, compartment, equilibrium and polynomial models"),
    "C18": (E, "paired runs of permuted, replicated and rescaled problems", "random problems; where rounding may differ, a perturbed control decides"),
    "C20": (E, "configuration monitor: built integrator and intercepted arguments against the requested configuration", "random subsets and orders of setters"),
    "C22": (E, "overflow and debug assertions, AddressSanitizer and (thorough) Miri on wild workloads", "random models returning arbitrary values, extreme options"),
    "C08": (E, "online monitor of step sizes and evaluation times", "random problems and step options, both solvers"),
    "C09": (F, "fault injection of non-finite values at enumerated evaluations, finiteness and accuracy monitors", "one fault per run at each kind of stage; boundaries in time and state"),
    "C10": (E, "exact accounting of intercepted user-function calls against the statistics", "after every step of random runs"),
    "C19": (E, "differential runs with every kind of budget against the unlimited run", "budgets around and below what the run needs"),
    "C21": (E, "lockstep reference model of the step-size controller", "every proposal of random runs, error estimates recomputed from logged evaluations"),
    "C23": (E, "lockstep reference model of the implicit step-size controller", "every proposal, rejection, abandoned iteration and singular matrix of random runs, with interval bounds for rounding"),
    "C24": (E, "lockstep reference model of the Newton iteration and of Jacobian reuse", "every sweep of every attempt of random runs, with interval bounds for rounding"),
    "C26": (E, "differential runs over ways of posing the same problem, compared bit by bit; calls of functions without use counted", "random problems and options, five variants of each run"),
    "C25": (E, "reference models in lockstep with the settings in force; restarted runs compared bit by bit", "one to four changes of random settings per run, by callback or between steps"),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in log.splitlines() if "cfg(verif_hooks)" in l]
m = {
    "version": 1,
    "setup_cmd": "bash check.sh setup",
    "hooks": {
        "guard": "cfg(verif_hooks)",
        "enable": "RUSTFLAGS=\"--cfg verif_hooks\" (check.sh builds the harness so for C13-C16, in its own target directory)",
        "source_commits": hooks,
    },
    "checks": [],
    "not_applicable": [],
    "notes": "bash check.sh <id> [quick|thorough]; bash check.sh replay <file> runs one recorded case again. Findings: known-findings.txt.",
}
for p in props:
    i = p["id"]
    if i in CHECKS:
        level, tech, note = CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "runtime monitoring: " + tech,
            "level": level,
            "level_note": note,
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
