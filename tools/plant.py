#!/usr/bin/env python3
"""plant.py SPEC.py: makes /verif/seeded/<id>/ from a spec (id, prop, edits, demo, needs, breaks) and confirms it in a scratch copy"""
import sys, os, subprocess, json, shutil, tempfile, runpy
spec = runpy.run_path(sys.argv[1])
only = sys.argv[2:] 
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
DEMO = r'''#!/bin/bash
# exit 0 when the behaviour is as documented
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
o=$(mktemp)
printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo_test.go.txt"}}' "$PWD" "$d" > "$o"
go test -overlay "$o" -vet=off -count=1 -timeout 120s -run '^TestDemo$' .
'''
base = json.load(open("/opt/vp/BASELINE.json"))
def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def tests(cwd):
    p = run(["go", "test", "-vet=off", "-count=1", "./..."], cwd)
    return p.returncode == 0, p.stdout
for b in spec["bugs"]:
    if only and b["id"] not in only: continue
    d = "/verif/seeded/" + b["id"]
    w = tempfile.mkdtemp(prefix="mut")
    wd = w + "/repo"
    subprocess.run(["cp", "-a", "/repo", wd], check=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=wd)
    ok = True
    for f, old, new in b["edits"]:
        s = open(wd + "/" + f).read()
        if s.count(old) != 1 and not (len(old) and b.get("nth")):
            print(b["id"], "edit matches", s.count(old), "times:", old[:60]); ok = False; break
        s = s.replace(old, new)
        open(wd + "/" + f, "w").write(s)
    if ok:
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=wd, stdout=subprocess.PIPE, text=True).stdout)
        open(d + "/demo_test.go.txt", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        t, out = tests(wd)
        p1 = run(["bash", d + "/demo.sh"], "/repo")
        p2 = run(["bash", d + "/demo.sh"], wd)
        good = t and p1.returncode == 0 and p2.returncode != 0 and ("FAIL" in p2.stdout) and "build failed" not in p2.stdout
        print(b["id"], "OK" if good else "BAD", "tests", t, "clean demo", p1.returncode, "mutant demo", p2.returncode)
        if not good:
            print(out[-1500:] if not t else "", p1.stdout[-1500:] if p1.returncode else "", p2.stdout[-800:])
            for x in os.listdir(d): os.unlink(d + "/" + x)
            os.rmdir(d)
    shutil.rmtree(w)
