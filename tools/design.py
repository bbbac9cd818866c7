#!/usr/bin/env python3
# Writes DESIGN.md, see tools/design_head.md.
import glob, json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props as p
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(root + "/tools/design_head.md").read()]
out.append("\n## Properties\n")
fixed = {}
for l in open(root + "/known-findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        fixed.setdefault(m[1], []).append((m[2], m[3]))
seeds = {}
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(f))
    seeds.setdefault(d["property"], []).append(os.path.basename(os.path.dirname(f)))
for x in p.PROPS:
    i = x["id"]
    out.append("### %s %s\n\n%s\n" % (i, x["title"], x["statement"]))
    hooks = set()
    rows = []
    for f in sorted(glob.glob(root + "/harness/*/" + i.lower() + "_*.go")):
        s = open(f).read()
        hooks |= set(re.findall(r"^//verif:hook \S+ (\S+)", s, re.M))
        for m in re.finditer(r"((?://[^\n]*\n)+)func Verif%s_(\w+)\(" % i, s):
            b = re.search(r"^//verif:bounds (.*)", m[1], re.M)
            rows.append("* `%s`%s: %s" % (m[2], " (thorough)" if "//verif:thorough" in m[1] else "", b[1] if b else "see statement"))
    out.append("Harnesses and bounds:\n\n" + "\n".join(rows) + "\n")
    if hooks:
        out.append("Replaced by recorders, arbitrary values or equal terms: " + ", ".join("`%s`" % h for h in sorted(hooks)) + ".\n")
    out.append("Assumptions: " + x["note"].strip() + "\n" if x["note"].strip() else "")
    if i in seeds:
        out.append("Planted changes caught: " + ", ".join(seeds[i]) + ".\n")
out.append("\n## Defects found and repaired\n\nEach was reported by the check with a replayed counterexample and is one `fix:` commit.\n")
for i in sorted(fixed):
    for c, w in fixed[i]:
        out.append("* %s %s: %s" % (i, c, w))
out.append("\n" + open(root + "/tools/design_tail.md").read())
open(root + "/DESIGN.md", "w").write("\n".join(out))
