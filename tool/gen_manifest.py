#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the catalogue and the registered rules."""
import json
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from kpsr import catalog, core, rules  # noqa: E402,F401

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for k in sorted(catalog.ALL):
        f.write(json.dumps(catalog.ALL[k]) + "\n")
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [],
     "notes": "Purely static: every check compiles /repo's current sources to bitcode, normalises them and decides the rules; nothing of /repo is executed. No hooks are needed."}
for k in sorted(catalog.ALL):
    if k in core.PROPS:
        _, t, n = core.PROPS[k]
        m["checks"].append({"property": k, "quick_cmd": "python3 check.py %s --tier quick" % k, "thorough_cmd": "python3 check.py %s --tier thorough" % k,
                            "technique": "static analysis: " + t, "level": "other", "level_note": n})
        assert k not in catalog.NA, k
    else:
        m["not_applicable"].append({"property": k, "reason": catalog.NA.get(k, "no check built yet")})
missing = set(core.PROPS) - set(catalog.ALL)
assert not missing, missing
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

def part(n):
    with open(os.path.join(V, "design", n)) as f:
        return f.read()


NAMES = {"C": "Disruptor", "E": "Event emitters and subscribers", "F": "State machine", "H": "Event loop and data multiplexer", "K": "Configuration and records", "M": "In-memory composition", "N": "Sockets", "P": "Pools", "Q": "Queue and pollers", "S": "Core services", "T": "Schedulers", "W": "ZMQ middleware", "Z": "Mappers"}
o = [part("1_top.md"), "\n## 2. What is claimed\n\n%d properties: %d decided by a check, %d not applicable to this family.\n\n" % (len(catalog.ALL), len(m["checks"]), len(m["not_applicable"])), part("2_groups.md"), "\n## 4. Property by property\n"]
last = None
for k in sorted(catalog.ALL):
    d = catalog.ALL[k]
    if k in core.PROPS:
        if k[0] != last:
            last = k[0]
            o.append("\n### %s\n\n" % NAMES.get(last, last))
        _, t, n = core.PROPS[k]
        o.append("**%s %s.** *Decided by:* %s. *Covers:* %s *Beyond tests:* %s *Anchored in:* %s.\n\n" % (k, d["title"], t, n.rstrip(), d["why_tests_cant"].rstrip(), ", ".join("`%s`" % x.rsplit("/", 1)[-1] for x in d["anchors"]["files"])))
na = "\n".join("* **%s %s.** %s" % (x["property"], catalog.ALL[x["property"]]["title"], x["reason"]) for x in m["not_applicable"])
with open(os.path.join(V, "known_findings.txt")) as f:
    fi = [l.strip() for l in f if l.startswith(("known:", "fixed:"))]
fi = "\n".join("* %s" % l for l in fi)
rows = ["| seeded change | property | needs |", "|---|---|---|"]
sd = os.path.join(V, "seeded")
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    with open(os.path.join(sd, s, "meta.json")) as f:
        j = json.load(f)
    rows.append("| `%s` | %s | %s |" % (s, j["property"], " ".join(str(j["needs"]).split()).replace("|", "/")))
o.append(part("3_after.md").replace("@NA@", na).replace("@FINDINGS@", fi).replace("@SEEDS@", "\n".join(rows)))
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write("".join(o))
print("%d properties, %d checks, %d not applicable" % (len(catalog.ALL), len(m["checks"]), len(m["not_applicable"])))
