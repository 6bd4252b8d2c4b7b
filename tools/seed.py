#!/usr/bin/env python3
"""Makes and confirms planted bugs: tools/seed.py SPEC.py [id ...]

SPEC.py lists SEEDS = [(id, property, [(file, old, new)...], demo source, needs, what)]. Each is written to seeded/<id>
and confirmed on a scratch copy: compiles, stable tests pass, demo exits 0 without and nonzero with the patch.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# exit 0: behaviour as it should be; nonzero: broken. Run in the repository after its build.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -Iinclude -I_build/generated "$D/demo.cpp" _build/libcatima.so -Wl,-rpath,"$PWD/_build" -o "$T/demo" || exit 3
timeout 120 "$T/demo"
"""


def sh(c, cwd, **kw):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    ns = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), ns)
    only = set(sys.argv[2:])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    bad = 0
    for s in ns["SEEDS"]:
        sid, prop, edits, demo, needs, what = s[:6]
        extra = s[6] if len(s) > 6 else {}
        if only and sid not in only:
            continue
        d = os.path.join(V, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        try:
            sh("git -C /repo archive HEAD | tar x -C " + t, "/")
            sh("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", t)
            for f, old, new in edits:
                p = os.path.join(t, f)
                c = open(p).read()
                assert c.count(old) == 1, (sid, f, c.count(old), old)
                open(p, "w").write(c.replace(old, new))
            patch = sh("git diff", t).stdout
            open(d + "/patch.diff", "w").write(patch)
            for f in {e[0] for e in edits}:  # only original lines may be changed, not own lines of earlier fixes
                base = set(sh("git -C /repo show df615bd:" + f, "/").stdout.split("\n"))
                for l in sh("git diff -U0 -- " + f, t).stdout.split("\n"):
                    if l.startswith("-") and not l.startswith("---") and l[1:] not in base:
                        print(sid, "CHANGES A LINE NOT IN THE ORIGINAL:", l)
            if demo.startswith("#!"):
                open(d + "/demo.sh", "w").write(demo)
            else:
                open(d + "/demo.sh", "w").write(extra.get("sh", DEMO))
                open(d + "/demo.cpp", "w").write(demo)
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
            r = sh("cmake -S . -B _build -G Ninja -DTESTS=ON -DCMAKE_BUILD_TYPE=Release -DGENERATE_DATA=ON >/dev/null && ninja -C _build 2>&1 | tail -5", t)
            tst = sh("ctest --test-dir _build 2>&1 | tail -12", t)
            b = sh("bash %s/demo.sh" % d, t, timeout=300)
            sh("git checkout -- .", t)
            g = sh("cmake --build _build 2>&1 | tail -3; bash %s/demo.sh" % d, t, timeout=300)
            ok = "100% tests passed" in tst.stdout and b.returncode not in (0, 2, 3) and g.returncode == 0
            print(sid, "confirmed" if ok else "NOT CONFIRMED with=%d without=%d\n%s\n%s\n%s\n%s" % (
                b.returncode, g.returncode, r.stdout[-800:], tst.stdout[-800:], b.stdout[-500:], g.stdout[-500:]), flush=True)
            if ok:
                print("    with patch: " + b.stdout.strip()[-160:].replace("\n", " / "))
            bad += not ok
        finally:
            shutil.rmtree(t, ignore_errors=True)
    sys.exit(bad > 0)


main()
