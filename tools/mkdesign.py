"""fills the two tables of DESIGN.md: obligations (from evidence) and planted bugs (seeded/, verdicts in
tools/seed_verdicts.json, measured with the deductive layer alone)"""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def table(head, rows):
    return "\n".join(["| " + " | ".join(head) + " |", "|" + "---|" * len(head)] + ["| " + " | ".join(r) + " |" for r in rows]) + "\n"


def fill(text, mark, body):
    return re.sub(rf"<!-- {mark} -->.*?(?=\n## |\nBesides)", lambda m: f"<!-- {mark} -->\n\n{body}", text, flags=re.S)


rows = []
for i in range(1, 22):
    p = f"C{i:02d}"
    try:
        c = json.load(open(f"{HERE}/evidence/{p}.json"))["coverage"]
    except (OSError, ValueError):
        continue
    rows.append([p, str(c["obligations"]), str(c["discharged"]), str(len(c["functions_under_contract"])), str(c["paths"]),
                 str(round(c["solver_s"], 1)), "; ".join(sorted({str(b.get("bound", b)) if isinstance(b, dict) else str(b) for b in c["bounded_symbolic"]}))[:160] or "–"])
text = open(f"{HERE}/DESIGN.md").read()
if len(rows) == 21:
    text = fill(text, "obligations", table(["property", "obligations", "discharged", "functions", "paths", "solver s", "bounded cases"], rows))
verdicts = json.load(open(f"{HERE}/tools/seed_verdicts.json"))
rows = []
for f in sorted(glob.glob(f"{HERE}/seeded/*/meta.json")):
    d = json.load(open(f))
    s = f.split("/")[-2]
    rows.append([s, d["property"], d["what_it_breaks"], d["needs"], verdicts.get(s, "?")])
if rows:
    text = fill(text, "seeds", table(["bug", "property", "what it breaks", "needs", "verdict"], rows))
open(f"{HERE}/DESIGN.md", "w").write(text)
