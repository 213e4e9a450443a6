#!/opt/venv/bin/python
"""Write MANIFEST.json from the checks (run after adding or changing one)."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from dst.props import CHECKS  # noqa: E402

NA = {
    "P01": "pure function of its arguments (polynomial values, index arithmetic): no schedule, "
           "time, I/O, fault or history can influence it, so a simulator would only be an input "
           "generator under another name",
    "P02": "pure numerics: support and energy of an OTF are fixed by the parameters alone; the "
           "history- and fault-dependent part (which parameters are in force) is C01/C02",
    "P03": "numerical convergence of a deterministic algorithm on given data; nothing for a "
           "scheduler or fault to decide. Its reproducibility under faults and threads is C13",
    "P04": "linear algebra on given inputs; no schedule, fault or history is involved",
    "P05": "stateless array arithmetic; no schedule, fault or history is involved",
    "P06": "a statement about the optical formulae, decided by inputs only; that microscopes keep "
           "answering by those formulae through histories and faults is C02",
    "P07": "a fixed mapping from names to modes, decided by inputs only; independence of the "
           "derived model from its source is C04",
    "P08": "input validation of constructors: one call, one input, no state before it. Rejection "
           "of assignments on live objects, which is stateful, is part of C01/C02/C05",
}
COMMON = (" Sampling, not proof: it holds on the seeded runs explored. Trusts the simulator (dst/), "
          "CPython, numpy, scipy, scikit-image and matplotlib.")
NOTES = {
    "C01": "Seeded histories of assignments, reads and failing computations on both PSF models, "
           "each output compared with an independent reference model of the optics and with a "
           "freshly built object in a pristine process.",
    "C02": "Seeded histories on all microscope types (incl. failing computations), compared with "
           "an independent reference model and with a freshly built microscope in a pristine "
           "process.",
    "C03": "Seeded histories around apply_pupil (reads, failures, rejected assignments, copies), "
           "outputs compared with the reference model of the pupil in force.",
    "C04": "Random interleaved operations on source and derived objects, each side compared with "
           "a pristine process in which the other side does not exist.",
    "C05": "One or several faults (n-th allocation fails, n-th kernel call raises, interrupt) "
           "inside seeded operations; state and outputs after the fault must equal the pristine "
           "before- or after-state, and a retry the fault-free result.",
    "C06": "Faults at seeded allocations and kernel calls; a call must raise or return the "
           "pristine fault-free value, also afterwards; interrupts must propagate.",
    "C07": "Seeded schedules of 2-4 threads on separate objects, with faults in some threads; "
           "every result compared with the same thread alone in a pristine process.",
    "C08": "Seeded schedules of 2-4 threads reading one shared object; every value compared with "
           "a single reader in a pristine process, and the object read again afterwards.",
    "C09": "Caller data are fingerprinted and compared at every simulated scheduling point inside "
           "the package and after every operation, with faults; also given read-only.",
    "C10": "Handed-out arrays are fingerprinted and compared after every later operation; handed-in "
           "data are overwritten by the simulated caller and outputs compared with a pristine "
           "process that was given an untouched copy.",
    "C11": "Ambient process state and pyplot state compared before and after every operation, "
           "with faults delivered inside it (not inside clean-up code of context managers).",
    "C12": "Version lookup and import against a simulated git repository with a failure or "
           "unusable output at every command, compared with the record the repository implies.",
    "C13": "The same retrieval under differing entropy, global random state, prior history, "
           "failures, threads and logging, compared bit for bit with a pristine process.",
    "C14": "Seeded sessions of LabVIEW-style calls with rejected, failing and interrupted ones, "
           "each result compared bit for bit with the pipeline in a pristine process.",
    "C15": "Histories with and without observations (repr, plots, logging through a breaking "
           "sink) run in separate processes and compared in state and outputs.",
    "C16": "Objects pickled or copied at seeded points, the process abandoned, restored in another "
           "one and driven on; compared with the uninterrupted original.",
    "C17": "Array memory counted exactly by the simulated allocator over repeated seeded workloads "
           "with failures; any steady growth or left-over after dropping the objects is reported.",
    "C18": "Seeded histories then plots; refusal compared with the current z spacing and images "
           "drawn compared with the outputs of a pristine process.",
    "C19": "Processes really forked from threads stopped at seeded points; every operation in the "
           "child must finish and equal a pristine process's, and the parent's results with it.",
    "C20": "Some thirty kinds of process-wide settings changed at seeded points, between operations "
           "and by another thread in the middle of them; results compared with a pristine process.",
}
checks = []
for pid in sorted(CHECKS):
    c = CHECKS[pid]()
    checks.append({
        "property": pid,
        "quick_cmd": f"/opt/venv/bin/python check.py {pid} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python check.py {pid} --tier thorough",
        "technique": c.technique,
        "level": c.level,
        "level_note": NOTES[pid] + COMMON,
    })
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m dst.alloc", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "No hooks in /repo: every seam (scheduler, allocator, kernel failures, interrupts, "
              "entropy, log sinks, git) is a runtime seam of CPython or numpy. Replays: "
              "/opt/venv/bin/python replay.py FILE."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
