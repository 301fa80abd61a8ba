"""Writes MANIFEST.json."""
import json
import os

TV = ("Every listed program is compiled by the real frontend, midend, code generator and backend of /repo and executed on symbolic element values; "
      "z3 shows for all values (within the listed extents) that every result element equals an independent pointful reference. Not a proof for unlisted programs or larger extents.")
T = "symbolic execution of the real code, z3 equivalence with a pointful reference"
CHECKS = {
    "C01": (T, TV), "C02": (T, TV), "C03": (T, TV), "C04": (T, TV), "C05": (T, TV),
    "C06": (T + " (PyTorch backend on symbolic tensors)", TV),
    "C07": (T + " (JAX backend; its jaxprs interpreted symbolically)", TV + " Inputs that determine sizes or offsets are enumerated within a range."),
    "C08": (T + " (naive interpreter)", TV),
    "C09": (T + "; symbolic run-time sizes", TV),
    "C11": ("symbolic execution of the real code; rank and kind compared on every feasible path", TV.replace("result element equals", "result has the rank and kind of")),
    "C10": ("symbolic execution of the real code; z3 equality of inputs before/after and of repeated evaluations", TV.replace("every result element equals an independent pointful reference", "inputs are left unmodified and a repeated evaluation gives the same result")),
    "C12": ("symbolic choice of operand types and constructs, real typing code executed on every feasible part, z3 decides the assertion against an independent typing table", "Bounded: all combinations of operand types within the listed families (type depth <= 2); the engine partitions the symbolic choices exhaustively."),
    "C13": ("symbolic optimisation flags and element values, z3 equivalence with the default configuration", TV.replace("an independent pointful reference", "the one of the default configuration, for every combination of the optimisation flags")),
    "C15": ("symbolic call histories (symbolic variant per call, symbolic values), z3 equality with a fresh evaluation", "Bounded: all histories of the listed functions up to three calls, all argument variants listed per function, all element values."),
    "C20": ("symbolic choice of escaping symbol, size expression and construct, real code executed on every feasible part", "Bounded: all choices within the listed families."),
    "C14": (T, TV), "C16": (T, TV), "C17": (T + ", external functions uninterpreted", TV), "C18": (T, TV), "C19": (T, TV),
}
LEVELS = {"C12": "other", "C15": "other", "C20": "other"}
NA = [
    {"property": "C21", "reason": "time and memory use of library kernels; no assertion over values for a solver to decide"},
    {"property": "C22", "reason": "depends on rounding inside NumPy/PyTorch/XLA binary kernels (summation order, transcendental functions), which cannot be encoded"},
]
claimed = set(CHECKS)
for i in range(1, 21):
    c = f"C{i:02}"
    if c not in claimed:
        NA.append({"property": c, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "./run.sh -c 'import ein.frontend.std, vlib.decide, vlib.dag; vlib.dag.z3mod()'",
    "checks": [
        {"property": p, "quick_cmd": f"./run.sh check.py {p} --tier quick", "thorough_cmd": f"./run.sh check.py {p} --tier thorough",
         "technique": t, "level": LEVELS.get(p, "translation_validation"), "level_note": n}
        for p, (t, n) in sorted(CHECKS.items())
    ],
    "not_applicable": sorted(NA, key=lambda x: x["property"]),
    "notes": "No hooks in /repo. known_findings.txt lists the defects repaired by fix: commits. ./run.sh replay.py evidence/replays/<id>.json re-runs the recorded counterexamples.",
}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
