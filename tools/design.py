#!/usr/bin/env python3
"""Rewrites the catalogue at the end of DESIGN.md from properties.jsonl, the harness directives, NOTES and seeded/."""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(R, "tools", "notes.py")).read())  # NOTES: id -> (oracle and environment, why beyond tests / cost)
MARK = "<!-- catalogue -->"

def entries(path):
    out, doc = [], []
    for l in open(path):
        l = l.rstrip("\n")
        if l.startswith("//"):
            doc.append(l)
        elif l.startswith("func VH"):
            d = dict(name=re.match(r"func (VH\w+)", l).group(1), text=[], bounds="", assume=[], outside=[], quick="30", thorough="300")
            for x in doc:
                m = re.match(r"//v:(\w+) (.*)", x)
                if not m:
                    if x.strip("/ ") and not x.startswith("//v:"):
                        d["text"].append(x.strip("/ "))
                elif m.group(1) == "bounds":
                    d["bounds"] = m.group(2)
                elif m.group(1) in ("assume", "outside"):
                    d[m.group(1)].append(m.group(2))
                elif m.group(1) in ("quick", "thorough"):
                    d[m.group(1)] = m.group(2)
            out.append(d)
            doc = []
        else:
            doc = []
    return out

seeds = {}
for f in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m.get("needs", "")))
fixed, known = {}, {}
for l in open(os.path.join(R, "known_findings.jsonl")):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m:
        fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    elif l.strip():
        try:
            k = json.loads(l)
            known.setdefault(k["property"], []).append(k.get("what", ""))
        except ValueError:
            pass
o = []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    o.append(f"### {i} {p['title']}\n")
    o.append(p["statement"] + "\n")
    h = os.path.join(R, "harness", i.lower() + ".go")
    if os.path.exists(h):
        o.append(f"Decided in `harness/{i.lower()}.go`. " + NOTES.get(i, "") + "\n")
        for e in entries(h):
            s = f"* `{e['name']}` " + " ".join(e["text"])
            if e["bounds"]:
                s += f" *Bounds:* {e['bounds']}."
            if e["assume"]:
                s += " *Assumed:* " + "; ".join(e["assume"]) + "."
            if e["outside"]:
                s += " *Outside:* " + "; ".join(e["outside"]) + "."
            s += f" *Budget:* {e['quick']} s quick, {e['thorough']} s thorough."
            o.append(s)
        o.append("")
    if i in seeds:
        o.append("Planted changes caught: " + "; ".join(f"{a} ({n})" for a, n in seeds[i]) + ".\n")
    if i in fixed:
        o.append("Defects found and repaired: " + "; ".join(f"{b} (`{a}`)" for a, b in fixed[i]) + ".\n")
    if i in known:
        o.append("Known findings: " + "; ".join(known[i]) + ".\n")
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
s = s[:s.index(MARK)] if MARK in s else s.rstrip("\n") + "\n\n"
open(p, "w").write(s + MARK + "\n\n" + "\n".join(o))
print("DESIGN.md", len(o))
