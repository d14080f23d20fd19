#!/usr/bin/env python3
"""DESIGN.md from design_head.md, the properties, the planted bugs and
design_tail.md."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
from techniques import TECH          # noqa: E402
from design_detail import DETAIL     # noqa: E402


def main():
    t = os.path.join(HERE, "tools")
    out = [open(os.path.join(t, "design_head.md")).read().rstrip() + "\n"]
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    na = {x["property"]: x["reason"] for x in man["not_applicable"]}
    props = [json.loads(l) for l in open(os.path.join(
        HERE, "properties.jsonl"))]
    for p in props:
        i = p["id"]
        if i in na:
            continue
        out.append("### %s  %s\n" % (i, p["title"]))
        tech, note = TECH[i]
        out.append("*Method.* %s.\n" % (tech[0].upper() + tech[1:]))
        out.append("*Covered.* %s\n" % note)
        if i in DETAIL:
            out.append(DETAIL[i].strip() + "\n")
    out.append("### Not applicable\n")
    for p in props:
        if p["id"] in na:
            out.append("* **%s %s** - %s" % (p["id"], p["title"],
                                             na[p["id"]]))
    out.append("")
    out.append("## 3. Planted bugs (`seeded/`) and what reports them\n")
    out.append("Each was confirmed in a copy: builds, loses no stable test, "
               "its demonstration\nfails with it and passes without. `caught"
               "` names the check that reports it.\n")
    out.append("| bug | caught by | what it breaks | needs |")
    out.append("|---|---|---|---|")
    st = os.path.join(t, "seed_status.json")
    st = json.load(open(st)) if os.path.exists(st) else {}
    d = os.path.join(HERE, "seeded")
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, "meta.json")))

        def one(x):
            return " ".join(str(x).split()).replace("|", "/")
        out.append("| %s | %s | %s | %s |" % (
            n, m["property"], one(m["what_it_breaks"]), one(m["needs"])))
    out.append(open(os.path.join(t, "design_tail.md")).read().rstrip())
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
