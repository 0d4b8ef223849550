#!/usr/bin/env python3
"""seed.py SPECFILE...: each SPECFILE is a python file defining ID, PROP, PKG, EDITS
[(file, old, new)], NEEDS, BREAKS, TEST (go source of an in-package test TestDemo).
Writes /verif/seeded/ID and verifies: builds, stable tests pass, the demo passes without
and fails with the patch."""
import sys, os, json, subprocess, tempfile, shutil
env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
DEMO = '''#!/bin/bash
# Runs in the repository root. Exit 0: the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%s/PKGzz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
cd "$PWD" && TMPDIR="$t" timeout 250 go test -overlay "$t/o.json" -vet=off -count=1 -run '^TestDemo$' ./PKG
'''
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    d = "/verif/seeded/" + g["ID"]
    os.makedirs(d, exist_ok=True)
    pkg = g["PKG"] + "/" if g["PKG"] not in ("", ".") else ""
    open(d + "/demo.sh", "w").write(DEMO.replace("PKG", pkg)); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo_test.go", "w").write(g["TEST"])
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    w = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    r = w + "/repo"
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    bad = None
    for fn, old, new in g["EDITS"]:
        s = open(r + "/" + fn).read()
        if s.count(old) != 1:
            bad = "edit matches %d times: %r" % (s.count(old), old)
        s = s.replace(old, new, 1)
        open(r + "/" + fn, "w").write(s)
    subprocess.run(["gofmt", "-l"] + [r + "/" + e[0] for e in g["EDITS"]], env=env)
    p = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(p)
    def sh(cmd, cwd):
        return subprocess.run(cmd, cwd=cwd, env=env, shell=True, capture_output=True, text=True)
    if not bad:
        b = sh("go build ./...", r)
        if b.returncode: bad = "build: " + b.stderr[:500]
    if not bad:
        pk = "./" + pkg if pkg else "."
        b = sh("go test -vet=off -count=1 ./txlogs ./blobformat ./fuzzy ./pkcs7 ./crypt . 2>&1 | tail -30" if not os.environ.get("FULL") else "go test -vet=off -count=1 -p 1 ./... 2>&1 | tail -30", r)
        if "FAIL" in b.stdout: bad = "tests fail: " + b.stdout[-800:]
    if not bad:
        b = sh("bash " + d + "/demo.sh", r)
        if b.returncode == 0: bad = "demo does not fail with the patch"
        else: print(g["ID"], "with:", (b.stdout + b.stderr).strip().replace("\n", " | ")[:200])
        b = sh("bash " + d + "/demo.sh", "/repo")
        if b.returncode: bad = "demo fails without the patch: " + b.stdout[-600:] + b.stderr[-300:]
    shutil.rmtree(w)
    print(g["ID"], "BAD " + bad if bad else "ok")
