#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                   "technique": p.get("technique", "bounded symbolic execution of the compiled code's LLVM IR, assertions decided by SMT (z3, cvc5) or term rewriting"),
                   "level": p.get("level", "model_checking"),
                   "level_note": p.get("note", "Holds for all inputs within the stated bounds: ") + "; ".join(sorted({e["bound"] for e in p["entries"]}))[:1500] + ". Trusted: rustc's LLVM IR, the symbolic executor (its witnesses are replayed natively on every run), the SMT solvers."})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet: its harness is not finished")} for i in ids if i not in PROPS]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup",
           "hooks": {"guard": "--cfg rcp_verif (rustc cfg, off by default)", "enable": "check.py builds the crates with RUSTFLAGS='--cfg rcp_verif' and RCP_VERIF_HARNESS=<harness source>", "source_commits": json.load(open(H + "/hooks.json"))},
           "checks": checks, "not_applicable": na,
           "notes": "check.py builds the engine, regenerates the LLVM IR from /repo's working tree and decides every entry of the property; build products go to /verif/.build (ignored)."}, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
