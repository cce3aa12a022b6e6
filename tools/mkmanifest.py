#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness files present."""
import json, glob, re, os
V = "/verif"; ps = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
 "C39": "The exchange code is Perl XS (lib/SPVM.xs) working on the Perl interpreter's own data structures: encoding it means encoding libperl (SV/AV/HV internals, magic, Perl call stack), which is not available as source here, so no solver query over the real code can be formed.",
 "C40": "The rebuild decision is Perl code (Builder/*.pm) over file timestamps and directory state; there is no symbolic executor for Perl in this sandbox, and the decision is not reachable from C.",
 "C41": "spvmcc is a Perl program that drives the C compiler and linker; the property compares processes produced by a toolchain, which cannot be encoded for a solver.",
}
NOTE = "Every feasible path of the real code (LLVM IR of /repo's current sources, plus the C code its own precompiler emits) is executed symbolically up to the stated bounds; every assertion, memory access and trap is a solver query over all input values of the path; path models are replayed natively. "
EXTRA = json.load(open(V + "/tools/notes.json")) if os.path.exists(V + "/tools/notes.json") else {}
checks, na = [], []
for p in ps:
    i = p["id"]; hs = sorted(glob.glob(f"{V}/harness/{i}*.c"))
    if hs:
        b = []
        for h in hs:
            m = re.search(r"/\*vp\s*(\{.*?\})\s*\*/", open(h).read(), re.S); b += json.loads(m.group(1)).get("bounds", []) if m else []
        checks.append({"property": i, "quick_cmd": f"python3 vp.py check {i}", "thorough_cmd": f"python3 vp.py check {i} thorough", "evidence_file": f"evidence/{i}.json", "technique": "symbolic execution of the real code's LLVM IR with SMT solving (z3, cvc5 fallback), counterexamples replayed natively", "level": "model_checking", "level_note": NOTE + "Bounds: " + "; ".join(b) + ("." if b else "") + (" " + EXTRA[i] if i in EXTRA else "")})
    else: na.append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 vp.py setup", "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. Harnesses: harness/<id>*.c; engine: engine/; runner: vp.py. No hooks in /repo."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", "not applicable:", [x["property"] for x in na])
