#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "driver"))
from props import PROPS                                                    # noqa: E402

HOOK = ["59d0c77611eb4e947271d3205eb21e015246f888", "1b5fc3b3c2800ef2658a629a048f8045764730db"]
FOUR = "of the real crate in four builds (both backends, debug and release)"
WHAT = {
    "trace": f"TLA+ spec (Machine, TLC): trace validation of executions {FOUR}; programs from edge values, TLC walks of the specification (Gen, Logs) and scouting",
    "threads": f"TLA+ spec (Machine, Threads; TLC): trace validation of executions in four threads at a time and under chosen schedules, {FOUR}",
    "pair": f"TLA+ spec (Observe, TLC): paired traces {FOUR} over the machine's calls",
    "group": f"TLA+ spec (Observe, TLC): groups of equal calls within traces {FOUR}",
    "leak": "TLA+ spec (Leak, LeakTrace; TLC): observations of instructions and addresses recorded from the compiled crate, both backends",
    "total": f"TLA+ spec (Observe, TLC): every call of the machine returns, on traces {FOUR}",
}
NOTE = ("Every event of every executed program was judged by TLC against the specification at the real "
        "parameters; {models}Executions are those of the generated programs (systematic edge values first, "
        "then seeded random ones, walks of the specification, and those in which millions of scouted instances showed something odd), so it is not a proof for all inputs. Trusts the TLA+ text of the RFCs, "
        "TLC with java.math.BigInteger integers, the harness that logs the calls and the hooks in src/verif.rs.")
LEAK = ("Digests of every edge, load, store and index of the compiled operations (LLVM coverage callbacks, opt-level 1) on many "
        "secrets were judged alike by TLC; the loops over secrets are checked exhaustively as small programs beside themselves (Leak), "
        "with eight leaky variants that the model has to reject. Not the timing of single instructions, nor what later stages of the "
        "compiler add; not a proof for all secrets.")
checks = []
for pid, p in sorted(PROPS.items()):
    m = p["models"]
    checks.append(dict(
        property=pid, quick_cmd=f"VERIF_TIER=quick python3 check.py {pid}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {pid}",
        evidence_file=f"evidence/{pid}.json",
        technique=WHAT["threads" if "threads" in p else p.get("mode", "trace")] + (f"; exhaustive TLC models of the theory ({', '.join(m)})" if m else ""),
        level="model_checking",
        level_note=LEAK if p.get("mode") == "leak" else NOTE.format(models=f"the theory behind it is checked exhaustively on small curves ({', '.join(m)}). " if m else "")))
man = dict(
    version=1, setup_cmd="python3 check.py --setup",
    hooks=dict(guard="cfg ed448_verif, cfg ed448_verif_affine", enable='RUSTFLAGS="--cfg ed448_verif --cfg ed448_verif_affine" (check.py sets it; where the hooks no longer compile it builds without)',
               source_commits=HOOK),
    checks=checks,
    not_applicable=[],
    notes="TLA+ checked with TLC. DESIGN.md has the method per property; known-findings.txt the defects found and repaired.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
