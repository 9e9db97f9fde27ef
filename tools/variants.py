#!/usr/bin/env python3
"""Runs the analyser on edited copies of /repo's files (through an overlay).

variants/*.py each define V = [(name, ids, expect, [(file, old, new), ...])]:
expect is "quiet" (the edit keeps the behaviour) or "alarm" (it breaks one of
the properties). With -t the edited tree is also compiled and the stable tests
of the touched packages are run.
usage: variants.py [-t] [-k SUBSTR] [FILE...]
"""
import json, os, subprocess, sys, tempfile, importlib.util, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
repo = os.environ.get("HCV_REPO", "/repo")
hcv = os.environ.get("HCV", "/tmp/hcv")
args = sys.argv[1:]
test = "-t" in args
args = [a for a in args if a != "-t"]
sub = ""
if "-k" in args:
    i = args.index("-k"); sub = args[i + 1]; del args[i:i + 2]
files = args or sorted(os.path.join(root, "variants", f) for f in os.listdir(os.path.join(root, "variants")) if f.endswith(".py"))
todo = []
for f in files:
    s = importlib.util.spec_from_file_location("v", f)
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    todo += [(os.path.basename(f)[:-3] + "/" + v[0],) + tuple(v[1:]) for v in m.V if sub in v[0] or sub == v[1]]

def run(v):
    name, ids, expect, edits = v
    with tempfile.TemporaryDirectory() as d:
        rep, text = {}, {}
        for f, old, new in sorted(edits, key=lambda e: not (e[1] or "").startswith("//")):
            s = text.get(f)
            if s is None:
                p = os.path.join(repo, f)
                s = open(p).read() if os.path.exists(p) else ""
            if old is None:
                s = new
            else:
                if s.count(old) == 0:  # try without comment lines
                    s = "".join(l for l in s.splitlines(True) if not l.strip().startswith("// "))
                if s.count(old) != 1:
                    return name, "BADEDIT", f"{f}: {s.count(old)} matches of {old[:60]!r}"
                s = s.replace(old, new)
            text[f] = s
        for i, (f, s) in enumerate(text.items()):
            q = os.path.join(d, f"{i}.go"); open(q, "w").write(s)
            rep[os.path.join(repo, f)] = q
        ov = os.path.join(d, "o.json"); json.dump({"Replace": rep}, open(ov, "w"))
        note = ""
        if test:
            pk = sorted({"./" + os.path.dirname(f) for f in text})
            r = subprocess.run(["go", "vet", "-overlay", ov] + pk, cwd=repo, capture_output=True, text=True)
            if r.returncode:
                return name, "NOBUILD", r.stderr[:300]
            r = subprocess.run(["go", "test", "-count=1", "-overlay", ov] + pk + ["./pkg/client", "./pkg/httpauth"], cwd=repo, capture_output=True, text=True)
            if r.returncode:
                note = " (killed by tests)"
        env = dict(os.environ, HCV_OVERLAY=ov, HCV_EVIDENCE=d, HCV_VERIF=root)
        r = subprocess.run([hcv, "check"] + ids.replace(",", " ").split(), capture_output=True, text=True, env=env)
        got = {0: "quiet", 1: "alarm"}.get(r.returncode, "broken")
        if "cannot be loaded" in r.stdout:
            got = "noload"
        lines = [l for l in r.stdout.splitlines() if l.startswith(("rule", "where", "problem", "path"))]
        return name, ("ok" if got == expect else "WRONG:" + got), note + "\n   ".join([""] + [l[:int(os.environ.get("W","400"))] for l in lines[:8]])

with cf.ThreadPoolExecutor(6) as ex:
    bad = 0
    for name, st, msg in ex.map(run, todo):
        if st != "ok":
            bad += 1
            print(name, st, msg)
        elif msg.startswith(" (killed"):
            print(name, "ok but killed by tests")
print(len(todo), "variants,", bad, "wrong")
