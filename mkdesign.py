#!/opt/veriftools/pyvenv/bin/python
"""DESIGN.in.md + registry + seeded/ -> DESIGN.md (run by hand; no check uses it)"""
import sys, json, os, glob
H = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [H, H + "/vc", H + "/contracts"]
from registry import PROPS
P = [json.loads(l) for l in open(H + "/properties.jsonl")]; T = {p["id"]: p["title"] for p in P}
import claims
rows = []
for pid, d in PROPS.items():
    names = []
    for h, c in d["contracts"]:
        n = c.__name__
        if n not in names: names.append(n)
    names += ["(python) " + c.__name__ for c in d.get("pycontracts", [])] + ["lemma " + f.__name__.replace("lemma_", "") for f in d.get("lemmas", [])]
    rows.append("| %s %s%s | %s | %s |" % (pid, T[pid], "" if pid in claims.CLAIMS else " (not claimed yet)", ", ".join(names) or "-", ", ".join(n["driver"] for n in d["native"])))
caught = json.load(open(H + "/seeds.json")); seeds = []
for s in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(s)); i = s.split("/")[-2]; seeds.append("| %s: %s (needs: %s) | %s | %s |" % (i, m["what_it_breaks"], m["needs"], m["property"], caught.get(i, "?")))
t = open(H + "/DESIGN.in.md").read()
fx = "\n".join("* " + l.strip() for l in open(H + "/known_findings.txt") if l.startswith(("fixed:", "finding:")))
t = t.replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDS@@", "\n".join(seeds)).replace("@@FINDINGS@@", "\n" + fx + "\n").replace("@@MORE@@\n", "")
open(H + "/DESIGN.md", "w").write(t)
