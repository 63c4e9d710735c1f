#!/usr/bin/env python3
"""regenerate properties.jsonl and MANIFEST.json from one table"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, st, over, quant, why, files, mech, observe, note="",
      level="model_checking"):
    P.append(dict(id=id, title=title, st=st, over=over, quant=quant, why=why,
                  files=files, mech=mech, observe=observe, note=note,
                  level=level))


D = "src/cssrlib/"
exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(dict(
            id=x["id"], title=x["title"], statement=x["st"],
            quantifier=dict(over=x["over"], text=x["quant"]),
            why_tests_cant=x["why"],
            anchors=dict(files=[D+n for n in x["files"]],
                         mechanism=[dict(name=a, where=D+b)
                                    for a, b in x["mech"]],
                         observe_at=x["observe"], hook_needed=None)))+"\n")
checks, na = [], []
for x in P:
    if os.path.exists(os.path.join(V, "harness", f"chk_{x['id']}.py")):
        checks.append(dict(
            property=x["id"], quick_cmd=f"./check {x['id']} quick",
            thorough_cmd=f"./check {x['id']} thorough",
            technique="TLA+ specification model-checked with TLC; TLC's "
            "behaviours and generated histories replayed into the code and "
            "the recorded traces validated by TLC",
            level=x["level"], level_note=x["note"] or
            "Exhaustive for the small instance of the specification; the "
            "code is bound to it by validation of every recorded event "
            "(bounded histories, generated inputs)."))
    else:
        na.append(dict(property=x["id"], reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks,
               not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks")
