#!/usr/bin/env python3
"""Runs the checker on edited copies of the repository.

bad edits have to be reported for (at least one of) their properties, good edits
(which keep the behaviour) have to leave every check quiet.
usage: corpus.py [-k substring] [-b /path/to/trypocheck] [-p properties] [bad|good|all]
"""
import importlib.util, os, re, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BIN = os.path.join(HERE, "..", ".bin", "trypocheck")
key = ""
which = "all"
PROPS = "all"
args = sys.argv[1:]
while args:
    a = args.pop(0)
    if a == "-k": key = args.pop(0)
    elif a == "-b": BIN = args.pop(0)
    elif a == "-p": PROPS = args.pop(0)
    else: which = a

BAD, GOOD = [], []
def bad(name, props, *edits): BAD.append((name, props.split(), edits))
def good(name, *edits): GOOD.append((name, [], edits))

for f in sorted(glob.glob(os.path.join(HERE, "corpus", "*.py"))):
    exec(compile(open(f).read(), f, "exec"), {"bad": bad, "good": good})

def run(item, isbad):
    name, props, edits = item
    d = tempfile.mkdtemp(prefix="corpus.")
    try:
        subprocess.check_call(["git", "-C", "/repo", "archive", "-o", d + "/a.tar", "HEAD"])
        subprocess.check_call(["tar", "xf", "a.tar"], cwd=d)
        os.remove(d + "/a.tar")
        for e in edits:
            f, old, new = e
            p = os.path.join(d, f)
            s = open(p).read()
            if old.startswith("FUNC "):
                # the whole function that starts with this line
                i = s.index("\n" + old[5:]) + 1
                j = s.index("\n}\n", i) + 3
                s = s[:i] + new.strip("\n") + "\n" + s[j:]
            elif old == "":
                s += new
            else:
                if s.count(old) != 1:
                    return name, "ERROR: %d matches in %s of %r" % (s.count(old), f, old[:60])
                s = s.replace(old, new)
            open(p, "w").write(s)
        r = subprocess.run(["go", "build", "./..."], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return name, "ERROR: does not build: " + r.stderr[:300]
        r = subprocess.run(["timeout", "300", BIN, "-repo", d, "-prop", PROPS], capture_output=True, text=True)
        got = sorted(set(re.findall(r"VIOLATION property=(\S+)", r.stdout)))
        if r.returncode not in (0, 1):
            return name, "ERROR: exit %d %s" % (r.returncode, r.stderr[-500:])
        if isbad:
            hit = [p for p in props if p in got]
            return name, ("ok   " if hit else "MISS ") + "want %s got %s" % (",".join(props), ",".join(got))
        if got:
            lines = [l for l in r.stdout.splitlines() if l.startswith("  [")]
            return name, "ALARM " + ",".join(got) + "\n" + "\n".join("      " + l[:400] for l in lines[:6])
        return name, "ok   quiet"
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    fail = 0
    with ThreadPoolExecutor(8) as ex:
        for kind, items in (("bad", BAD), ("good", GOOD)):
            if which not in (kind, "all"): continue
            items = [i for i in items if key in i[0]]
            for name, res in ex.map(lambda i: run(i, kind == "bad"), items):
                if not res.startswith("ok") or key or len(sys.argv) > 3:
                    print(kind, name, res, flush=True)
                fail += not res.startswith("ok")
            print(kind, len(items), "edits")
    print("failures:", fail)
    return fail != 0
sys.exit(main())
