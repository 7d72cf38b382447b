#!/usr/bin/env python3
"""Helper to write a planted bug: makes seeded/<id>/ from edits and a demo test.
Used as a library: seed(id, prop, [(file, old, new)...], demo_go, needs, breaks, pkg="zzdemo", race=False)"""
import json, os, shutil, subprocess, tempfile
S = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
DEMO = '''#!/bin/bash
# Runs demo_test.go as package %(pkg)s of the module in the working directory.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local HOME="${HOME:-/root}"
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -c -o "$tmp/demo.test" -overlay "$tmp/overlay.json" -vet=off %(race)s./%(pkg)s || exit 2
cd "$tmp" && ./demo.test -test.run TestDemo -test.timeout 120s
'''
def seed(id, prop, edits, demo, needs, breaks, pkg="zzdemo", race=False):
    d = tempfile.mkdtemp(prefix="newseed.")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (d, d), shell=True)
        for f, old, new in edits:
            p = os.path.join(d, f); s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=d, text=True)
    finally:
        shutil.rmtree(d)
    o = os.path.join(S, id)
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    open(o + "/demo_test.go", "w").write(demo)
    open(o + "/demo.sh", "w").write(DEMO % dict(pkg=pkg, race="-race " if race else ""))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
