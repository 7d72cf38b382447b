#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies and shows which checks catch them.
usage: seeded.py [-n] [id...]     -n: only run the checks (no build, tests, demo)"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
S = os.path.join(H, "seeded")
args = sys.argv[1:]
quick = "-n" in args
ids = [a for a in args if a != "-n"] or sorted(os.listdir(S))

def copy():
    d = tempfile.mkdtemp(prefix="seeded.")
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % d, shell=True)
    return d

def run(i):
    m = json.load(open(f"{S}/{i}/meta.json"))
    d = copy()
    out = []
    try:
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + d, f"{S}/{i}/patch.diff"], capture_output=True, text=True, cwd="/")
        if r.returncode:
            r = subprocess.run(["patch", "-p1", "-i", f"{S}/{i}/patch.diff"], capture_output=True, text=True, cwd=d)
        if r.returncode: return i, m, "NO-APPLY " + r.stderr
        r = subprocess.run(["go", "build", "./..."], cwd=d, capture_output=True, text=True)
        if r.returncode: return i, m, "NO-BUILD " + r.stderr
        r = subprocess.run([f"{H}/.bin/trypocheck", "-repo", d, "-prop", "all"], capture_output=True, text=True)
        got = sorted(set(re.findall(r"VIOLATION property=(\S+)", r.stdout)))
        out.append(("CAUGHT " if m["property"] in got else "MISSED ") + ",".join(got))
    finally:
        shutil.rmtree(d)
    return i, m, "; ".join(out)

def demo(i):
    # demos use ports: one after the other, in the real /repo path via a copy
    res = []
    for patched in (False, True):
        d = copy()
        x = tempfile.mkdtemp(prefix="demo.")
        try:
            for f in os.listdir(f"{S}/{i}"):
                if not f.endswith((".diff", ".patch")) and f != "meta.json":
                    shutil.copy(f"{S}/{i}/{f}", x)
            if patched:
                subprocess.check_call(["patch", "-s", "-p1", "-i", f"{S}/{i}/patch.diff"], cwd=d)
                for k in range(2):
                    r = subprocess.run("go test -p 1 -vet=off -count=1 -timeout 3m $(go list ./... | grep -vE '/(core/api|core/testutils|pkg/arbiter)$') 2>&1 | grep -v '^ok\\|no test files'", shell=True, cwd=d, capture_output=True, text=True)
                    if not r.stdout.strip(): break
                else: res.append("TESTS: " + r.stdout[-300:])
            try:
                r = subprocess.run(["bash", x + "/demo.sh"], cwd=d, capture_output=True, text=True, timeout=300)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            ok = (rc == 0) != patched
            res.append("%s rc=%s" % ("patched" if patched else "clean", rc) + ("" if ok else "  <<<<< WRONG " + r.stdout[-600:] + r.stderr[-600:]))
        finally:
            shutil.rmtree(d); shutil.rmtree(x)
    return "; ".join(res)

with ThreadPoolExecutor(6) as ex:
    rs = list(ex.map(run, ids))
mx = os.path.join(H, "tools", "design", "matrix.json")
try: mat = json.load(open(mx))
except FileNotFoundError: mat = {}
for i, m, o in rs:
    r = re.search("(CAUGHT|MISSED) (\\S*)", o)
    if r: mat[i] = r.group(2).replace(",", ", ") or "none"
json.dump({k: v for k, v in sorted(mat.items()) if os.path.isdir(f"{S}/{k}")}, open(mx, "w"), indent=1)
for i, m, o in rs:
    print(i, m["property"], o, "" if quick or o.startswith("NO-") else "| " + demo(i), flush=True)
