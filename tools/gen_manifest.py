#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties in CLAIMED (kept in step with props/)."""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C30": "Authentication/Poly1305 does not compile at this commit (undeclared identifiers, unfinished functions), so there is no implementation the compiler could hand to a symbolic executor.",
    "C31": "AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE does not compile at this commit (it calls an older encryptor interface), so there is no executable code to encode.",
}
REF = ("symbolic execution of the compiled code (LLVM IR) into bit-vector terms; equality with an independent reference decided by SMT "
       "(z3, SAT sweeping); native replay of counterexamples")
REL = "symbolic execution of the compiled code (LLVM IR) into bit-vector terms; relation between runs decided by SMT (z3); native replay of counterexamples"
MEM = "symbolic execution of the compiled code (LLVM IR) with checked accesses and tracked uninitialised bytes; path feasibility decided by SMT (z3); sanitizer replay"
NOTE = ("Shown for all values of every symbolic byte (keys, IVs, messages, tags, earlier contents) at every length and history listed in the evidence; "
        "nothing is claimed outside them.  Trusted: clang front end and mem2reg, the symbolic executor and its rewriting of terms "
        "(every task is also compared with native runs), z3%s.")
T = {}
for p in ("C01", "C02", "C03", "C04", "C06", "C08", "C09", "C11", "C12", "C13", "C14", "C16", "C17", "C18", "C19"):
    T[p] = (REF, ", and the reference in ref/ (checked against published vectors on every run)")
for p in ("C05", "C07", "C10", "C15", "C22", "C23"):
    T[p] = (REL, ", and the reference in ref/ where one is used")
for p in ("C20", "C21"):
    T[p] = (MEM, "")
EXTRA = {}
exec(open(os.path.join(H, "tools", "manifest_extra.py")).read()) if os.path.exists(os.path.join(H, "tools", "manifest_extra.py")) else None
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
sys.path[:0] = [os.path.join(H, d) for d in ("lib", "ref", "props")]
import props
checks = []
na = [{"property": k, "reason": v} for k, v in NA.items()]
for i in ids:
    if i in NA:
        continue
    try:
        props.get(i)
    except SystemExit:
        na.append({"property": i, "reason": "check not finished yet"})
        continue
    tq, note = T[i]
    checks.append({"property": i, "quick_cmd": "./run.sh %s" % i, "thorough_cmd": "./run.sh %s --tier thorough" % i,
                   "technique": tq, "level": "model_checking", "level_note": note if len(note) > 200 else NOTE % note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks compile /repo's sources as they are, with harnesses in /verif/harness that call the public interface only."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
