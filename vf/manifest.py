#!/usr/bin/env python3
"""Writes MANIFEST.json: run after adding a check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
AI = "abstract interpretation of the LLVM IR (exact interval, residue and mixed-radix digit domain, path partitioning)"
NOTE = ("Every path class counted as decided is shown for all significands of its binary exponent; which exponents a run analysed, and the classes left undecided, are in the evidence. "
        "Trusted: clang's translation to IR, LLVM's IR reader, GMP, the engine in /verif/engine. An alarm is raised only for a class that contains a concrete violating input.")
TXT = AI + " of the text routines"
CT = "compile-time witnesses (accept/reject/link matrix over compilers, targets and language versions)"
CHECKS = {k: (AI, NOTE) for k in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C13", "C14", "C15", "C16", "C19")}
CHECKS["C10"] = ("effect analysis over the call graph of the LLVM IR (writes to shared objects, allocation, locks, exceptions, floating-point operations)", "Every instruction of every reachable function is judged; indirect calls and unknown outside functions, if there are any, are listed in the evidence and raise no alarm.")
CHECKS["C17"] = (CT, "Every program of the list must compile, or fail to compile, as stated; the matrix is in the evidence. Nothing is executed.")
CHECKS["C18"] = ("type-level witnesses (static_assert on the instantiated signatures) and " + AI, NOTE)
NA = {
 "C20": "Speed is a quantity of a run on a machine; nothing in the shape of the source bounds it relative to other printers.",
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    m = dict(version=1, setup_cmd="bash engine/build.sh", checks=[], not_applicable=[],
             notes="Static analysis only; see DESIGN.md. No hooks in /repo.")
    for i in ids:
        if i in CHECKS:
            t, n = CHECKS[i][:2]
            m["checks"].append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py " + i, technique=t, level=CHECKS[i][2] if len(CHECKS[i]) > 2 else "other", level_note=n))
        else:
            m["not_applicable"].append(dict(property=i, reason=NA.get(i, "No check has been built for this property yet.")))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
