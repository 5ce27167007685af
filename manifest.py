#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a harness."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
NOTE = ("Every path of the harness and of the dlhn, serde, std, num-bigint, bigdecimal and time code it reaches is "
        "executed symbolically on the LLVM IR rustc produces from /repo's current tree; every branch and assertion is "
        "decided by z3 over all inputs within the stated bounds. Counterexamples, and one solver model per sampled "
        "path, are replayed against a native build. Trusted: rustc's front end and IR optimizer, the executor's "
        "semantics of LLVM IR (cross-checked by the native replays), z3. Bounds: ")
def bounds(f):
    out, take = [], False
    for l in open(f):
        if not l.startswith('//!'):
            break
        l = l[3:].rstrip('\n')
        if l.startswith(' bound:') or l.startswith(' assume:'):
            out.append(l.split(':', 1)[1].strip()); take = True
        elif take and l.startswith('   '):
            out[-1] += ' ' + l.strip()
        else:
            take = False
    return ' | '.join(out)
checks, na = [], []
for l in open(ROOT + '/properties.jsonl'):
    pid = json.loads(l)['id']
    f = f'{ROOT}/harness/src/{pid.lower()}.rs'
    if os.path.exists(f):
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 check.py {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {pid}",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "symbolic execution of the compiled crate's LLVM IR, decided by z3 (bit-vectors)",
            "level": "model_checking",
            "level_note": NOTE + bounds(f) + ".",
        })
    else:
        na.append({"property": pid, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "cargo build --release --offline --manifest-path engine/Cargo.toml",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: the harness uses the public API only."},
          open(ROOT + '/MANIFEST.json', 'w'), indent=1)
