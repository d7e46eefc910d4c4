#!/usr/bin/env python3-vt
"""Writes MANIFEST.json: level 'proof' when functions of the property are under contract, 'other' when only the bounded stand-in decides it."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
sys.argv = ["x", "x"]
import importlib, glob
from contracts import base
for f in sorted(glob.glob(HERE + "/contracts/*.py")):
    m = os.path.basename(f)[:-3]
    if m not in ("__init__", "base"): importlib.import_module("contracts." + m)
NA = {
 "C21": "Reproducibility relates two runs of the whole sampler through std::mt19937 and the library distributions; a function contract speaks of one run, and the generators' state transitions are not specified to the verifier, so no contract within reach can express it.",
 "C22": "Detailed balance is a statement about the distribution of outcomes over all random streams; the deductive verifier has no measure-theoretic contracts, so the acceptance step's correctness cannot be stated as a postcondition. The pieces that can (likelihoods, posteriors, feasibility, minimum leaf size) are C13, C15, C20.",
 "C23": "The Python and R layers are outside the verifier's language (C++), and the glue code depends on pybind11/cpp11 objects the pinned build only partly links.",
}
checks = []
for l in open(HERE + "/properties.jsonl"):
    q = json.loads(l); i = q["id"]
    if i in NA: continue
    cs = [c for c in base.CONTRACTS if i in getattr(c, "props", ())]
    fns = sorted({c.name for c in cs if not getattr(c, "bounded", None) and not c.inline})
    if fns:
        tech = "contract-based deductive verification of the C++ sources (own VC generator over clang's AST; z3/cvc5), with an executable-contract bounded stand-in for the functions outside its reach"
        level = "proof"
        note = "Proved for all inputs, function by function: %s. Everything else the property mentions is decided by a bounded run of executable contracts on the real code (labelled bounded in the evidence, not counted as proved). Assumes mathematical integers, real arithmetic for doubles, termination, and the library contracts in vc/lib.py." % ", ".join(fns)
    else:
        tech = "executable contracts on the real code, bounded (stand-in for contract-based deductive verification)"
        level = "other"
        note = "Bounded stand-in only: pre/postconditions executed against the real code on generated inputs; nothing proved for all inputs yet."
    checks.append(dict(property=i, quick_cmd="python3-vt check.py %s quick" % i, thorough_cmd="python3-vt check.py %s thorough" % i, evidence_file="evidence/%s.json" % i, technique=tech, level=level, level_note=note))
man = dict(version=1, setup_cmd="python3-vt -c 'import z3, cvc5'", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(man, open(HERE + "/MANIFEST.json", "w"), indent=1); open(HERE + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", [(c["property"], c["level"]) for c in checks])
