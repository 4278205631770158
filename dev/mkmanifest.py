"""Writes MANIFEST.json for the properties that have a check module."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "abstract interpretation of the AST + abstract HTML tokenizer",
    "C02": "abstract interpretation (string-term taint with escape homomorphisms)",
    "C03": "abstract interpretation (string-term taint with escape homomorphisms)",
    "C04": "abstract interpretation (verbatim-flow analysis)",
    "C05": "abstract interpretation (term equality with a layout specification)",
    "C06": "abstract interpretation (term equality with a layout specification, symbolic indent and eol)",
    "C07": "abstract interpretation (relational: with and without metadata)",
    "C08": "abstract interpretation (write-effect and ownership/aliasing analysis)",
    "C09": "abstract interpretation (relational: expansion substituted)",
    "C10": "abstract interpretation over an abstract version order",
    "C11": "abstract interpretation + abstract HTML tokenizer",
    "C12": "abstract interpretation (path terms + typestate of file-system effects)",
    "C13": "abstract interpretation (writer/reader agreement on string terms)",
    "C14": "abstract interpretation (normalisation invariant over mutator sequences)",
    "C15": "abstract interpretation (attribute merge order on terms)",
    "C16": "abstract interpretation (token-set algebra on terms)",
    "C17": "abstract interpretation (typestate of the display hook on all exits)",
    "C18": "abstract interpretation (nondeterminism-source and history-effect analysis)",
    "C19": "catalogue rules over the AST + abstract interpretation of each wrapper",
    "C20": "abstract interpretation (ownership, propagation and serialisation of JSX)",
}
NOTE = ("Sound for the modelled Python subset on every trace partition of the listed abstract inputs (strings are opaque terms, "
        "so every string content is covered; tree shapes are enumerated up to the stated bounds). Trusts the transfer functions of "
        "/verif/sa for builtins and the standard library; code without a transfer function is reported as undecided and nothing is claimed for it. ")
WHY = {}
checks, na = [], []
for i in range(1, 21):
    pid = f"C{i:02d}"
    if os.path.exists(os.path.join(ROOT, "sa", "props", pid.lower() + ".py")):
        checks.append({
            "property": pid, "quick_cmd": f"python3 check.py {pid} quick", "thorough_cmd": f"python3 check.py {pid} thorough",
            "evidence_file": f"evidence/{pid}.json", "technique": TECH[pid], "level": "other", "level_note": NOTE,
        })
    else:
        na.append({"property": pid, "reason": WHY.get(pid, "check not built yet")})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py", "checks": checks, "not_applicable": na,
               "notes": "Static analysis only: the checks parse /repo/htmltools/*.py and interpret the syntax trees abstractly; no code of /repo is imported or run."}, f, indent=1)
    f.write("\n")
