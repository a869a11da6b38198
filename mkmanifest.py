#!/usr/bin/env python3
"""Writes MANIFEST.json (python3-vt mkmanifest.py)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "pv"))
import registry

NA = {
    "C20": "Every clause is a statement about sympy.solvers.solve (an external computer-algebra system); no contract on asta's code can express or decide it, asta only forwards the system. The contracts of C02/C03 take the solver's verdict as an uninterpreted predicate and list that as an assumption.",
    "C21": "A statement about interleavings of threads over shared mutable placeholders; the package has no locks or ownership discipline a sequential contract could attach to, and this family is silent on schedules.",
}
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    cs = sorted({c.qual or "lemma" for _, c in registry.contracts() if i in c.props})
    level = "proof" if cs else "exploration"
    if cs:
        note = ("Deductive: obligations generated from /repo's current source for " + ", ".join(cs) + ", for all inputs and iterations, discharged by z3 (z3-new and cvc5 on retry). "
                "The remaining functions of the property are covered only by a bounded run-time check of the same specification on the real code (labelled bounded in the evidence). "
                "Trusted: the verifier's Python semantics, the solvers, and the assumptions listed in the evidence.")
    else:
        note = "Bounded: the specification is executed against the real code on generated cases; no obligation is discharged for this property yet."
    checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i}", thorough_cmd=f"python3-vt check.py {i} --tier thorough", evidence_file=f"evidence/{i}.json",
                       technique="contract-based deductive verification of the real source (own VC generator, z3/cvc5)" + ("; bounded run-time contract check for the rest" if cs else ": not yet; bounded run-time contract check only"),
                       level=level, level_note=note))
man = dict(version=1, setup_cmd="python3-vt check.py --selftest", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
           notes="No hooks in /repo. The fix: commits in /repo are listed in known-findings.txt.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
