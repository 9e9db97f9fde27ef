#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
root = os.path.dirname(here)
ids = set()
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert p["id"] not in ids, p["id"]
        ids.add(p["id"])
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        d = {k: p[k] for k in ("id", "title", "statement")}
        d["quantifier"] = {"over": p["over"], "text": p["forall"]}
        d["why_tests_cant"] = p["tests"]
        d["anchors"] = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p.get("observe"):
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in props.PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({
        "property": p["id"], "quick_cmd": "bin/check " + p["id"], "thorough_cmd": "bin/check " + p["id"],
        "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "bin/build", "checks": checks, "not_applicable": na, "notes": props.NOTES}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")

# ---- DESIGN.md: the generated sections
import glob, subprocess
hcv = os.environ.get("HCV", os.path.join(root, ".build", "hcv"))
info = json.loads(subprocess.run([hcv, "list"], capture_output=True, text=True, check=True).stdout)
known = json.load(open(os.path.join(root, "known_findings.json")))["findings"]
out = []
for p in props.PROPS:
    out.append(f"### {p['id']} {p['title']}\n")
    if p.get("na"):
        out.append(f"Not applicable: {p['na']}\n")
        continue
    i = info[p["id"]]
    out.append(f"*Decided by:* {p['technique']}. {i['explain']}\n")
    out.append("*Anchors:* " + "; ".join(w for _, w in p["mech"]) + f". *Level:* {p['level']}. *At least {i['min']} obligations* (fewer fails the check).")
    if p["note"].replace(props.TRUST, "").strip():
        out.append("*Note:* " + p["note"].replace(props.TRUST, "").strip())
    if i["assume"]:
        out.append("*Assumes:* " + "; ".join(i["assume"]) + ".")
    out.append("*Beyond tests:* " + p["tests"])
    fs = [k for k in known if k["property"] == p["id"]]
    for k in fs:
        out.append(f"*{'Repaired' if k['status'] == 'fixed' else 'Known finding'}:* " + (f"{k['commit']} " if k.get("commit") else "") + k["what"].split(k["commit"] + " ", 1)[-1] if k.get("commit") else f"*Known finding:* {k['what']}")
    out.append("")
seeds = ["| change | property | what it breaks | what it needs |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    seeds.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |")
dp = os.path.join(root, "DESIGN.md")
s = open(dp).read()
for tag, txt in (("properties", "\n\n".join(x for x in out if x)), ("seeded", "\n".join(seeds))):
    a, b = f"<!-- {tag} -->\n", f"<!-- /{tag} -->\n"
    if a in s:
        s = s[:s.index(a) + len(a)] + txt + "\n" + s[s.index(b):]
open(dp, "w").write(s)
