#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
LEVEL_NOTE = ("Every input, interleaving and fault within the stated bounds is decided by the SMT solver over the symbolic "
              "execution of the code's SSA form, regenerated from /repo on every run; violations are reported only after the "
              "counterexample fails on the compiled code. Trusted: the engine's model of the Go runtime and of the standard-library "
              "functions it treats as primitives (spot-checked by replaying sampled paths natively), z3, and the environment models named in the bounds. ")

def prop(id, title, statement, over, text, why, files, mech, note="", hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=hook)), note))

def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    P[-1] = (P[-1][0], None)
    NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(R, "tools", "props.py")).read())

with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p, _ in P:
        f.write(json.dumps(p) + "\n")
checks = [dict(property=p["id"], quick_cmd="./check.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh " + p["id"],
               technique="bounded symbolic execution of the Go SSA with z3", level="model_checking", level_note=LEVEL_NOTE + n)
          for p, n in P if n is not None]
json.dump(dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=NA,
               notes="Engine in engine/, per-property harnesses in harness/, bounds in each harness's //v: directives and in the evidence."),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
