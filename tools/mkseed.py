#!/usr/bin/env python3
"""mkseed.py ID SPEC.py: plant one bug in a scratch copy, confirm it (builds, passes
the stable tests, the demonstration tells the two trees apart), keep it under seeded/ID
and report which checks notice it.  SPEC defines: property, pkg, edits [(file, old, new)],
test (Go source of the demonstration), needs, breaks."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the guarantee holds, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
cd "$repo" || exit 2
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$repo/%(pkg)s/zz_demo_test.go" "$here/demo_test.go.txt" > "$t/overlay.json"
go test %(flags)s-vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestDemo$' "./%(pkg)s"
'''
ENV = 'R=$PWD; . /opt/vp/env.sh; cd "$R"; '


def sh(cmd, cwd, **kw):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stable(cwd):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    r = sh(ENV + 'go build $PKGS && go test -json -vet=off -count=1 -timeout 5m $PKGS', cwd)
    ok = set()
    for l in r.stdout.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Test") and e.get("Action") == "pass":
            ok.add(e["Package"] + "/" + e["Test"])
    return base - ok, r.stdout


def checks(cwd, only=None):
    ev = cwd + ".ev"
    os.makedirs(ev, exist_ok=True)
    r = sh(ENV + f"HCV_REPO={cwd} HCV_EVIDENCE={ev} /tmp/hcv check " + (only or "all"), cwd)
    return sorted({l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")}), r.stdout


def main():
    sid, spec = sys.argv[1], {}
    exec(open(sys.argv[2]).read(), spec)
    w = f"/tmp/w/{sid}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    d = os.path.join(ROOT, "seeded", sid)
    tmp = f"/tmp/w/{sid}.seed"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        open(tmp + "/demo.sh", "w").write(DEMO % {"pkg": spec["pkg"], "flags": spec.get("flags", "")})
        os.chmod(tmp + "/demo.sh", 0o755)
        open(tmp + "/demo_test.go.txt", "w").write(spec["test"])
        r = sh(f"bash {tmp}/demo.sh", w)
        if r.returncode != 0:
            print(r.stdout[-3000:])
            sys.exit("demo fails on the unchanged tree")
        for f, a, b in spec["edits"]:
            s = open(f"{w}/{f}").read()
            if s.count(a) != 1:
                sys.exit(f"{f}: {s.count(a)} matches of {a!r}")
            open(f"{w}/{f}", "w").write(s.replace(a, b))
        open(tmp + "/patch.diff", "w").write(sh("git diff", w).stdout)
        miss, out = stable(w)
        if miss:
            print(out[-1500:] if len(miss) > 100 else "")
            sys.exit(f"stable tests fail: {sorted(miss)[:5]}")
        r = sh(f"bash {tmp}/demo.sh", w)
        if r.returncode == 0:
            sys.exit("demo does not notice the change")
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        v, out = checks(w)
        print(sid, "kept; property", spec["property"], "caught by", v or "NOTHING")
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(w + ".ev", ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
