#!/usr/bin/env python3
"""Both-ways test of the checks on scratch copies: devtest/*.py list edits of the analysed sources.

Each entry is (name, kind, properties, [(file, old, new), ...]); kind "bug" means every listed property must
alarm, kind "ok" means every claimed check (or the listed ones) must stay quiet.
Usage: devtest.py [-k substring] [-j jobs] [-b (also build and run the tests on each copy)]
"""
import argparse
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def claimed():
    return [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]


def entries():
    out = []
    for f in sorted(glob.glob(V + "/devtest/*.py")):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        out += [(os.path.basename(f)[:-3] + "/" + e[0],) + tuple(e[1:]) for e in ns["ENTRIES"]]
    return out


def one(e, build, allprops):
    name, kind, props, edits = e
    d = tempfile.mkdtemp(prefix="devtest-", dir="/tmp")
    try:
        subprocess.run(["bash", "-c", "git -C /repo archive HEAD | tar x -C '%s'" % d], check=True)
        for f, old, new, *every in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if old is None:
                s = s + new
            else:
                if s.count(old) != 1 and not (every and old in s):
                    return name, "STALE (%s occurs %d times in %s)" % (old[:40], s.count(old), f)
                s = s.replace(old, new)
            open(p, "w").write(s)
        if build:
            b = os.path.join(d, "_b")
            r = subprocess.run("cmake -S . -B _b -DTESTS=ON >/dev/null && cmake --build _b -j2 2>&1 | tail -5 && cd _b && ctest 2>&1 | tail -5",
                               shell=True, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if "100% tests passed" not in r.stdout:
                return name, "TESTS " + r.stdout[-300:]
        res = []
        ps = props if kind == "bug" else (props or allprops)
        for p in ps:
            env = dict(os.environ, CATLINT_REPO=d, CATLINT_EVIDENCE=d + "/ev")
            r = subprocess.run([V + "/bin/check", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            want = 1 if kind == "bug" else 0
            if r.returncode != want:
                tail = [l for l in r.stdout.splitlines() if re.search("BROKEN|VIOLATION|ERROR|Error", l)][-4:]
                res.append("%s exit %d %s" % (p, r.returncode, " / ".join(tail)[:600]))
            elif kind == "bug":
                l = [l for l in r.stdout.splitlines() if "BROKEN" in l]
                print("      %s %s: %s" % (name, p, l[0].strip()[:160] if l else ""))
        return name, "; ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-k", default="")
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("-b", action="store_true")
    a = ap.parse_args()
    es = [e for e in entries() if re.search(a.k, e[0])]
    allp = claimed() if os.path.exists(V + "/MANIFEST.json") else ["P01", "P02"]
    bad = 0
    with cf.ThreadPoolExecutor(a.j) as ex:
        for name, msg in ex.map(lambda e: one(e, a.b, allp), es):
            print("%-40s %s" % (name, "as expected" if not msg else "UNEXPECTED " + msg), flush=True)
            bad += bool(msg)
    print("%d entries, %d unexpected" % (len(es), bad))
    sys.exit(1 if bad else 0)


main()
