#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md (the text), props.py, known_findings.jsonl, seeded/ and the last evidence."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS
from registry import CHECKS
text = open(HERE + "/tools/design.md").read()
oracles = {}
part = None
for line in open(HERE + "/tools/oracles.md"):
    if line.startswith("## "):
        part = line[3:].strip()
        oracles[part] = ""
    elif part:
        oracles[part] += line
o = []
for p in PROPS:
    i = p["id"]
    o.append(f"### {i} {p['title']}\n")
    if not p["claimed"]:
        o.append(f"Not claimed: {p['reason']}\n")
        continue
    o.append(oracles.get(i, "").strip() + "\n")
    t = p["text"][0].upper() + p["text"][1:]
    o.append(f"*Explored:* {t}. *Beyond the tests:* {p['why']} *Notes:* {p['note']}\n")
    drv = ", ".join(f"`drivers/{d['src']}` (library {d['lib']}, {d.get('flavour', 'asan')})" for d in CHECKS[i]["drivers"])
    cost = ""
    try:
        e = json.load(open(f"{HERE}/evidence/{i}.json"))
        c = e["coverage"]
        cost = f" Last {e['tier']} run: {c['cases']:,} cases, {c['states']:,} states, {c['transitions']:,} steps, {e['wall_s']:.0f} s."
    except (OSError, KeyError):
        pass
    o.append(f"*Driver:* {drv}; scenarios {', '.join(p['over'])}.{cost}\n")
text = text.replace("@PROPERTIES@", "\n".join(o))
fixed, known = [], []
for l in open(HERE + "/known_findings.jsonl"):
    k = json.loads(l)
    (fixed if k["status"] == "fixed" else known).append(k)
key = lambda k: int(k["id"][1:])
text = text.replace("@FIXED@", "\n".join(f"- **{k['id']}** ({k['property']}, `{k['commit']}`) " + k["what"].split(k["commit"] + " ", 1)[-1] + "." for k in sorted(fixed, key=key)))
text = text.replace("@KNOWN@", "\n".join(f"- **{k['id']}** ({k['property']}) {k['what']}." for k in sorted(known, key=key)))
rows = ["| bug | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob(HERE + "/seeded/*/meta.json"), key=lambda d: (json.load(open(d))["property"], d)):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
text = text.replace("@SEEDS@", "\n".join(rows))
open(HERE + "/DESIGN.md", "w").write(text)
