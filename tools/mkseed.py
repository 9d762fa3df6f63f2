#!/usr/bin/env python3
"""mkseed.py DEFS.py: (re)creates seeded/<id> from definitions.
DEFS.py defines SEEDS = [dict(id, prop, pkg, edits=[(file, old, new)], needs, breaks, demo)]."""
import sys, os, subprocess, json, runpy, shutil
defs = runpy.run_path(sys.argv[1])["SEEDS"]
only = sys.argv[2:]
root = "/verif/seeded"
DEMO = """#!/bin/bash
# Runs demo_test.go in %(pkg)s of the repository in the current directory.
export PATH=$PATH:/opt/veriftools/go1.27.3/bin HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf -- "$T"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$T/o.json"
go test -overlay "$T/o.json" -count=1 -timeout 240s -run '^TestSeedDemo$' ./%(pkg)s
"""
for s in defs:
    if only and s["id"] not in only: continue
    d = os.path.join(root, s["id"]); os.makedirs(d, exist_ok=True)
    t = "/tmp/seedwork"
    subprocess.run(["rm", "-rf", "--", t], check=True)
    subprocess.run(["git", "clone", "-q", "/repo", t], check=True)
    base = subprocess.run(["git", "-C", t, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
    for f, old, new in s["edits"]:
        p = os.path.join(t, f); x = open(p).read()
        if x.count(old) != 1:
            sys.exit("%s: %d matches of %r in %s" % (s["id"], x.count(old), old, f))
        open(p, "w").write(x.replace(old, new))
    diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True).stdout
    # which removed lines are original ones
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    r = subprocess.run("cd %s && PATH=$PATH:/opt/veriftools/go1.27.3/bin HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod go build ./..." % t, shell=True)
    if r.returncode: sys.exit(s["id"] + ": does not build")
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % s); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo_test.go"), "w").write(s["demo"].lstrip())
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    orig = []
    import re
    files = {}
    cur = None
    for l in diff.splitlines():
        m = re.match(r"--- a/(.*)", l)
        if m: cur = m.group(1); continue
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if cur is None: continue
        if l.startswith("-"):
            b = subprocess.run(["git", "-C", t, "blame", "-s", "-l", "-L%d,%d" % (n, n), "HEAD", "--", cur], capture_output=True, text=True).stdout
            orig.append(b.lstrip("^").startswith(base[:30])); n += 1
        elif l.startswith("+"): pass
        elif l.startswith(" "): n += 1
    print(s["id"], "removed lines original:", orig)
    subprocess.run(["rm", "-rf", "--", t], check=True)
