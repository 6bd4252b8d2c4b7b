#!/usr/bin/env python3
"""Runs the check of each planted bug on a scratch copy: tools/seedtest.py [regex]"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rx = sys.argv[1] if len(sys.argv) > 1 else "."


def one(s):
    prop = json.load(open("%s/seeded/%s/meta.json" % (V, s)))["property"]
    t = tempfile.mkdtemp(prefix="seedtest-", dir="/tmp")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s && git init -q . && git apply %s/seeded/%s/patch.diff" % (t, V, s), shell=True, cwd=t, check=True)
        r = subprocess.run([V + "/bin/check", prop], env=dict(os.environ, CATLINT_REPO=t, CATLINT_EVIDENCE=t + "/ev"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        l = [x.strip() for x in r.stdout.split("\n") if "BROKEN" in x or "ERROR" in x]
        return s, prop, r.returncode, l[:1]
    finally:
        shutil.rmtree(t, ignore_errors=True)


with cf.ThreadPoolExecutor(4) as ex:
    for s, p, rc, l in ex.map(one, [s for s in sorted(os.listdir(V + "/seeded")) if re.search(rx, s)]):
        print("%-24s %s %s %s" % (s, p, {0: "MISSED", 1: "caught"}.get(rc, "ERROR %d" % rc), (l or [""])[0][:170]), flush=True)
