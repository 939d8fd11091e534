#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
note = ("Seeded sampling of simulated executions of the real code (reduced parameters for volume, full parameters for "
        "confirmation), one seed = one exactly repeatable execution; evidence, not proof. Trusts the simulator's "
        "seams and the independent oracle arithmetic in sim/src/oracle.rs. ")
extra = {
 "C01": "Oracle: the message the simulator sealed; ciphertexts also judged by pairing values computed independently.",
 "C02": "Oracle: bytes acknowledged by the simulated disk and the messages sealed to the key.",
 "C03": "Oracle: independent canonicity check of every byte string.",
 "C04": "Oracle: independent field, curve and pairing arithmetic over all key components, plus a round trip.",
 "C05": "Oracle: counters over many keys; false-alarm probability of the statistical part below 1e-9 per run.",
 "C06": "Oracle: as C04, plus termination within a work budget once the faulty burst ends.",
 "C07": "Oracle: each call alone in a pristine process. Threads are preempted at control-flow edges under sequential consistency.",
 "C08": "Oracle: the same call in a pristine process; also every sampled run executed twice and compared.",
 "C09": "Oracle: the same call in a pristine process.",
 "C10": "Termination is judged by executed control-flow edges (at least 20 times the slowest normal operation).",
 "C11": "Oracle: the sealed message must not come back.",
 "C12": "Oracle: independent arithmetic.",
 "C13": "Oracle: independent curve and pairing arithmetic.",
 "C14": "Oracle: keys and ciphertexts recorded from the original tree (golden/).",
 "C21": "Oracle: a counting allocator and the process's own table of threads and descriptors, over growing numbers of rounds; growth must continue over eight times the rounds before it is reported.",
 "C23": "Oracle: the optimised build running the same plan. The builds differ in debug assertions and overflow checks (library and dependencies), not in optimisation level.",
 "C22": "Oracle: interposed output, file, socket and process calls, descriptors 1 and 2, and panic messages compared with every secret of the run.",
}
na = {
 "C15": "A pure function of its operands: no schedule, time, fault or history for a simulator to control. (It runs as real code under every claimed property.)",
 "C16": "A pure function of points and scalars: nothing nondeterministic to simulate. (It runs as real code under every claimed property.)",
 "C17": "A pure function of points: nothing nondeterministic to simulate. (It runs as real code under C01, C04 and C13.)",
 "C18": "Pure functions: nothing nondeterministic to simulate. (They run as real code under C01 and C04.)",
 "C19": "Pure functions of kernel and point: nothing nondeterministic to simulate. (They run as real code under C01, C04 and C13.)",
 "C20": "A closed arithmetic fact about constants: there is no execution to simulate.",
}
tech = "deterministic simulation with fault injection"
m = {
 "version": 1,
 "setup_cmd": "./check.py build",
 "hooks": {"guard": "--cfg festa_sim_toy", "enable": "sim/build.sh toy passes --cfg festa_sim_toy to rustc for festa_rs through RUSTC_WRAPPER (sim/rustc-wrap.sh); sim/build.sh real builds without it",
           "source_commits": ["87792f8"]},
 "checks": [{"property": k, "quick_cmd": f"./check.py {k} quick", "thorough_cmd": f"./check.py {k} thorough",
             "technique": tech, "level": "exploration", "level_note": note + v} for k, v in extra.items()],
 "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
 "notes": "Replay a reported violation with ./check.py replay <path>. See DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
