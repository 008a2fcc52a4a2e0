#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import checks

NOTE = ("Bounded: the verdict covers every value of the symbolic inputs within the shapes stated under bounds in the evidence; "
        "trusts rustc's IR (opt-level 1, overflow checks on), the executor in symx/ and Z3. Counterexamples are replayed natively before they are reported, and sampled paths must match native runs.")
ps = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "cargo build --release --offline --manifest-path symx/Cargo.toml",
    "checks": [
        {"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
         "evidence_file": f"evidence/{p['id']}.json",
         "technique": "symbolic execution of the compiled library (LLVM IR) with Z3 deciding branches and assertions" + checks.CHECKS[p["id"]].extra_technique,
         "level": "model_checking", "level_note": NOTE + checks.CHECKS[p["id"]].note}
        for p in ps if p["id"] in checks.CHECKS],
    "not_applicable": [{"property": p["id"], "reason": checks.NOT_APPLICABLE.get(p["id"], "not built yet")} for p in ps if p["id"] not in checks.CHECKS],
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
