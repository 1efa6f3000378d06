#!/usr/bin/env python3
"""mkseed.py ID PKG PROPERTY SPEC.json: makes seeded/ID from edits and confirms it.

SPEC: {"file": path, "edits": [[old, new], ...], "needs":…, "breaks":…, "demo": go test source, "race": bool}
Confirms in a scratch copy: builds, stable tests pass, demo passes before and fails after.
"""
import json, os, shutil, subprocess, sys, tempfile
sid, pkg, prop, spec = sys.argv[1:5]
s = json.load(open(spec))
d = f"/verif/seeded/{sid}"
os.makedirs(d, exist_ok=True)
open(d + "/demo_test.go", "w").write(s["demo"])
race = " -race" if s.get("race") else ""
open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# Runs demo_test.go inside package {pkg} of the repository in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off TMPDIR="$T"
printf '{{"Replace": {{"%s/{pkg}/zz_demo_test.go": "%s/demo_test.go"}}}}' "$PWD" "$D" > "$T/overlay.json"
go test{race} -vet=off -count=1 -timeout 120s -overlay "$T/overlay.json" -run '^TestDemo$' ./{pkg}
""")
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
wt = tempfile.mkdtemp(prefix="seed-")
env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
try:
    shutil.rmtree(wt)
    shutil.copytree("/repo", wt, symlinks=True)
    edits = s["edits"]
    for e in edits:
        f = e[2] if len(e) > 2 else s["file"]
        t = open(f"{wt}/{f}").read()
        assert t.count(e[0]) == 1, (t.count(e[0]), e[0])
        open(f"{wt}/{f}", "w").write(t.replace(e[0], e[1]))
    subprocess.run(["gofmt", "-l", "."], cwd=wt)
    diff = subprocess.run(["git", "diff"], cwd=wt, capture_output=True, text=True).stdout
    # original lines changed?
    orig = mine = 0
    for f in set([s.get("file")] + [e[2] for e in edits if len(e) > 2]) - {None}:
        bl = subprocess.run(["git", "blame", "-s", "-l", "HEAD", "--", f], cwd="/repo", capture_output=True, text=True).stdout.splitlines()
        hd = subprocess.run(["git", "diff", "-U0", "--", f], cwd=wt, capture_output=True, text=True).stdout
        import re
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hd, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            for k in range(a, a + n):
                if bl[k - 1].startswith("^"):
                    orig += 1
                else:
                    mine += 1
    print("original lines changed:", orig, "lines of fix commits changed:", mine)
    r = subprocess.run(["go", "build", "./..."], cwd=wt, env=env, capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    r = subprocess.run(["go", "test", "-vet=off", "-count=1", "./..."], cwd=wt, env=env, capture_output=True, text=True)
    assert r.returncode == 0, r.stdout[-3000:]
    r = subprocess.run(["bash", d + "/demo.sh"], cwd=wt, env=env, capture_output=True, text=True)
    print("with the change:", r.returncode, (r.stdout + r.stderr)[-400:])
    bad = r.returncode
    r = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", env=env, capture_output=True, text=True)
    print("unchanged:", r.returncode, (r.stdout + r.stderr)[-300:])
    assert bad != 0 and r.returncode == 0
    open(d + "/patch.diff", "w").write(diff)
    print("OK", sid)
finally:
    shutil.rmtree(wt, ignore_errors=True)
