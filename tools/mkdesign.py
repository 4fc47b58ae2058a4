#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design.md, the checks' own descriptions and the planted bugs."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, VARIANTS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
extra = {}
cur = None
for l in open(V + "/tools/design_props.md"):
    m = re.match(r"## (P\d\d)", l)
    if m:
        cur = m[1]; extra[cur] = ""
    elif cur:
        extra[cur] += l
subs = {}
for f in sorted(os.listdir(V + "/harness")):
    if f.startswith("chk_"):
        for m in re.finditer(r'^PBT_SUB\w*\("(P\d\d)\.([\w-]+)",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"', open(V + "/harness/" + f).read(), re.M):
            subs.setdefault(m[1], []).append((m[2], int(m[3]), int(m[4]), m[5], f))
out = []
for p in props:
    i = p["id"]; c = CHECKS.get(i)
    out.append("### %s  %s\n" % (i, p["title"]))
    if not c:
        out.append("Not claimed.\n"); continue
    var = sorted({(q[0], q[1]) for q in c["parts"]})
    out.append("*Method.* %s.  \n*Runs in.* %s.  \n*Cases.* %s" % (c["technique"].replace("property-based testing: ", "").rstrip("."), ", ".join("%s [%s]" % q for q in var) if len(var) < 8 else "all harnesses [asan], three of them also in two other configurations", c["rule"]))
    if extra.get(i): out.append("\n" + extra[i].strip())
    if c.get("note"): out.append("\n*Limits.* " + c["note"])
    if c.get("assumptions"): out.append("*Assumes.* " + "; ".join(c["assumptions"]) + ".")
    if i in subs:
        out.append("\n| sub-check | cases quick / thorough | generated, and when it counts as non-trivial |\n|---|---|---|")
        for n, q, t, r, f in subs[i]:
            out.append("| %s | %d / %d | %s |" % (n, q, t, r.replace("|", "\\|")))
    out.append("")
seeds = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
res = {}
if os.path.exists(V + "/tools/seed_results.txt"):
    for l in open(V + "/tools/seed_results.txt"):
        a = l.strip().split(" ", 1)
        if len(a) == 2: res[a[0]] = a[1]
sd = V + "/seeded"
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open("%s/%s/meta.json" % (sd, s)))
    seeds.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "\\|"), res.get(s, "?")))
t = open(V + "/tools/design.md").read()
open(V + "/DESIGN.md", "w").write(t.replace("@@PROPERTIES@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds)))
