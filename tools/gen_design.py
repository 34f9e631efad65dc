"""Writes DESIGN.md: tools/design_head.md, then per property what is decided, and the planted bugs."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
notes = json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
manifest = json.load(open(os.path.join(HERE, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in manifest["not_applicable"]}
out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "", "## Per property", ""]


def const(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", None) == name:
            try:
                return ast.literal_eval(n.value)
            except ValueError:
                return None


def flat(x):
    return x if isinstance(x, str) else "; ".join("%s: %s" % kv for kv in x.items()) if isinstance(x, dict) else "; ".join(map(str, x))


for p in props:
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), ""]
    if i in na:
        out += ["Not applicable: %s." % na[i], ""]
        continue
    tree = ast.parse(open(os.path.join(HERE, "checks", i + ".py")).read())
    out += ["* Anchored in: " + ", ".join(p["anchors"]["files"])]
    out += ["* Why tests cannot: " + p["why_tests_cant"]]
    out += ["* Decided: " + notes[i]]
    b = const(tree, "BOUNDS") or {}
    for tier in ("quick", "thorough"):
        if tier in b:
            out.append("* Bounds (%s): %s" % (tier, flat(b[tier])))
    for name, title in (("OUTSIDE", "Outside"), ("ASSUMPTIONS", "Assumptions")):
        v = const(tree, name)
        if v:
            out.append("* %s: %s" % (title, flat(v)))
    labels = const(tree, "EXPECT_LABELS")
    if labels:
        out.append("* Obligations: " + ", ".join(labels))
    out.append("")
out += ["## Planted bugs", "", "All are caught by the check of their property.", "", "| bug | property | needs |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    out.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/")))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
