#!/usr/bin/env python3
"""seed.py FILE...: makes planted bugs from definition files and keeps those that compile, pass the tests, and are demonstrated.

A definition file is Python that assigns SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo)], where demo is
the body of a Go program (imports are given by its first lines)."""
import json
import os
import shutil
import subprocess
import sys

ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
DEMO_SH = """#!/bin/bash
# exit 0 if the behaviour is right, 1 if it is broken; run with cwd at the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp "$here/main.go.txt" "$tmp/main.go"
cp "$repo/go.sum" "$tmp/go.sum"
cat > "$tmp/go.mod" <<EOF
module demo

go 1.20

require github.com/bantling/micro v0.0.0

replace github.com/bantling/micro => $repo
EOF
cd "$tmp" || exit 3
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
go build -o demo . || exit 3
timeout 60 ./demo
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, capture_output=True, text=True, **kw)


def main():
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for path in sys.argv[1:]:
        g = {}
        exec(open(path).read(), g)
        for s in g["SEEDS"]:
            one(s, base)


def one(s, base):
    wt = "/tmp/seedwt"
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree("/repo", wt)
    d = "/verif/seeded/" + s["id"]
    try:
        for f, old, new in s["edits"]:
            t = open(wt + "/" + f).read()
            if t.count(old) != 1:
                print("SKIP", s["id"], "edit matches", t.count(old), f)
                return
            open(wt + "/" + f, "w").write(t.replace(old, new))
        diff = sh("git diff", wt).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.go.txt", "w").write(s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        bad = None
        r = sh("go build ./...", wt)
        if r.returncode:
            bad = "build: " + r.stderr[:500]
        if not bad:
            r = sh("go test -json -vet=off -count=1 ./...", wt)
            passed = set()
            for l in r.stdout.splitlines():
                try:
                    j = json.loads(l)
                except ValueError:
                    continue
                if j.get("Action") == "pass" and "Test" in j:
                    passed.add(j["Package"] + "/" + j["Test"])
            miss = base - passed
            if miss:
                bad = "tests fail: %s" % sorted(miss)[:5]
        if not bad:
            r = sh("bash %s/demo.sh" % d, "/repo")
            if r.returncode:
                bad = "demo fails on the unchanged tree: %d %s" % (r.returncode, (r.stdout + r.stderr)[:600])
        if not bad:
            r = sh("bash %s/demo.sh" % d, wt)
            if r.returncode in (0, 3):
                bad = "demo passes with the patch: %d %s" % (r.returncode, (r.stdout + r.stderr)[:600])
        if bad:
            print("DROP", s["id"], bad)
            shutil.rmtree(d)
        else:
            print("KEEP", s["id"], r.returncode, (r.stdout + r.stderr)[:120].replace("\n", " | "))
    finally:
        shutil.rmtree(wt, ignore_errors=True)


main()
