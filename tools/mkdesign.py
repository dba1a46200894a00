#!/usr/bin/env python3
"""writes DESIGN.md"""
import ast
import glob
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import notes  # noqa: E402

props = [json.loads(line) for line in open(V + "/properties.jsonl")]
rules = {}
for f in sorted(glob.glob(V + "/sa/rules_*.py")):
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "rule":
                    a = [x.value for x in d.args if isinstance(x, ast.Constant)]
                    rules.setdefault(a[0], []).append((a[1], " ".join((ast.get_docstring(n) or "").split()), os.path.basename(f)))
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
seeds = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
known = [line.strip() for line in open(V + "/known-findings.txt")]
out = [open(V + "/tools/design_head.md").read()]
out.append("## Properties\n")
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in notes.NA:
        out.append("Not applicable: %s\n" % notes.NA[i])
        continue
    t = notes.TECHNIQUE.get(i)
    if t:
        out.append("*Method.* %s.\n" % " ".join(x for x in t if x).replace("executed)o", "executed): o").replace("executed)t", "executed): t"))
    if i in notes.LIMITS:
        out.append("*Limits.* %s\n" % notes.LIMITS[i])
    for name, doc, f in rules.get(i, []):
        out.append("* `%s` (%s): %s" % (name, f, doc))
    out.append("")
    for line in known:
        m = re.match(r"finding: property=(\S+) rule=(\S+) key=(.+?) :: (.*)$", line)
        if m and m.group(1) == i:
            out.append("* Known finding (`%s`, %s): %s" % (m.group(2), m.group(3), m.group(4)))
    n = sum(1 for line in known if line.startswith("fixed: property=%s " % i))
    if n:
        out.append("* %d defect%s repaired in `/repo` (see `known-findings.txt`)." % (n, "s" if n > 1 else ""))
    for name, m in seeds.get(i, []):
        got = caught.get(name)
        out.append("* Planted bug `%s`: %s — %s" % (name, m["what_it_breaks"].rstrip("."), "not run" if got is None else "caught by %s" % ", ".join(got) if i in got else "missed" + (" (but reported by %s)" % ", ".join(got) if got else "")))
    out.append("")
out.append(open(V + "/tools/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(out))
