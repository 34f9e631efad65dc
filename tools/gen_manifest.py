"""Writes MANIFEST.json from the checks that exist and properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C90": "a statement about real cryptographic primitives against all adversaries: computational security of "
           "ChaCha20-Poly1305, X25519, scrypt and RSA-OAEP is not expressible as an SMT question over the code",
    "C91": "needs the reference implementation's behaviour as an oracle, which is neither in the repository nor installed",
}
TODO = "not decided yet: its check is still being built"
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(HERE, "checks", i + ".py")) and i in NOTES:
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3-vt -m sx.run " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3-vt -m sx.run " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the real Python source, obligations decided by Z3",
            "level": "model_checking",
            "level_note": NOTES[i],
        })
    else:
        na.append({"property": i, "reason": TODO})
m = {"version": 1,
     "setup_cmd": "python3-vt -c 'import z3; import sys; sys.path.insert(0, \".\"); import sx.engine'",
     "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
