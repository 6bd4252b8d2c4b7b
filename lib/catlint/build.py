"""Turns /repo's current working tree into an analysable program (LLVM IR dumped as JSON).

Nothing here executes code of /repo: cmake is only configured, clang only translates.
"""
import concurrent.futures as cf
import json
import os
import re
import shlex
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("CATLINT_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin/"
IRDUMP = os.path.join(VERIF, "build", "irdump")
PIPE = ("function(lowerinvoke,simplifycfg,sroa,early-cse<memssa>,simplifycfg),"
        "function(loop-simplify,lcssa)")


class CheckError(Exception):
    """An error of the check itself (missing anchor, tool failure): neither pass nor violation."""


class BuildError(CheckError):
    pass


_work = None


def workdir():
    global _work
    if _work is None:
        base = os.path.join(VERIF, "work")
        os.makedirs(base, exist_ok=True)
        _work = tempfile.mkdtemp(prefix="run-", dir=base)
    return _work


def cleanup():
    global _work
    if _work and os.path.isdir(_work):
        shutil.rmtree(_work, ignore_errors=True)
    _work = None


def run(cmd, cwd=None, check=True, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if check and r.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stderr[-3000:]))
    return r


def ensure_tool():
    shim()
    src = os.path.join(VERIF, "tools", "irdump", "irdump.cpp")
    if not os.path.exists(IRDUMP) or os.path.getmtime(IRDUMP) < os.path.getmtime(src):
        run(["bash", os.path.join(VERIF, "setup.sh")], timeout=1500)


def shim():
    """libstdc++ with the four-fold unrolled search loop left out (the plain loop it falls back to is
    equivalent), so that searches are summarised as one loop; None when the header looks different"""
    import glob
    import re
    d = os.path.join(VERIF, "build", "shim")
    out = os.path.join(d, "bits", "stl_algobase.h")
    if not os.path.exists(out):
        hs = sorted(glob.glob("/usr/include/c++/*/bits/stl_algobase.h"))
        if not hs:
            return None
        s = open(hs[-1]).read()
        m = re.search(r"  /// This is an overload used by find algos for the RAI case\.\n.*?\n    \}\n(?=\n  template)", s, re.S)
        if not m or "random_access_iterator_tag" not in m.group(0) or len(m.group(0)) > 2500:
            return None
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        with open(tmp, "w") as fh:
            fh.write(s.replace(m.group(0), ""))
        os.replace(tmp, out)
    return d


def configure(name="cfg", opts=None):
    """Private cmake configure; returns (dir, compile commands of the library units)."""
    d = os.path.join(workdir(), name)
    cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
           "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"]
    o = {"TESTS": "OFF", "GENERATE_DATA": "ON"}
    o.update(opts or {})
    cmd += ["-D%s=%s" % kv for kv in sorted(o.items())]
    run(cmd)
    cc = json.load(open(os.path.join(d, "compile_commands.json")))
    units = []
    for c in cc:
        f = os.path.realpath(c["file"])
        args = shlex.split(c["command"])
        flags = []
        i = 1
        while i < len(args):
            a = args[i]
            if a in ("-o", "-c"):
                i += 2
                continue
            if a in ("-I", "-isystem", "-D", "-U"):
                flags += [a, args[i + 1]]
                i += 2
                continue
            if a.startswith(("-I", "-D", "-U", "-isystem", "-std=")):
                flags.append(a)
            i += 1
        units.append((f, flags))
    return d, units


def lib_units(units):
    src = os.path.realpath(os.path.join(REPO, "src")) + os.sep
    return [(f, fl) for f, fl in units if f.startswith(src)]


def emit_bc(src, flags, out, extra=()):
    sh = shim()
    if sh:
        extra = ["-isystem", sh, *extra]
    run([LLVM + "clang++", *flags, *extra, "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-inline-functions",
         "-Wno-everything", "-emit-llvm", "-c", src, "-o", out])


def module(name="main", opts=None, probes=(), units_filter=None, extra_flags=(), pipe=PIPE, inline=None):
    """Builds the linked module of all library units (+ probe files) and returns the parsed JSON."""
    ensure_tool()
    d, units = configure("cfg-" + name, opts)
    lib = lib_units(units)
    if len(lib) < 1:
        raise CheckError("no library translation units found")
    common = lib[0][1]
    jobs = [(f, fl) for f, fl in lib if units_filter is None or units_filter(f)]
    for p in probes:
        jobs.append((p, common + ["-I" + os.path.join(VERIF, "probes"), "-I" + os.path.join(VERIF, "probes", "stub")]))
    outs = []
    with cf.ThreadPoolExecutor(8) as ex:
        futs = []
        for i, (f, fl) in enumerate(jobs):
            o = os.path.join(d, "u%d.bc" % i)
            outs.append(o)
            futs.append(ex.submit(emit_bc, f, fl, o, extra_flags))
        for ft in futs:
            ft.result()
    linked = os.path.join(d, "all.bc")
    run([LLVM + "llvm-link", *outs, "-o", linked])
    optd = os.path.join(d, "opt.bc")
    allow = []
    if inline:
        names = run([LLVM + "llvm-nm", "--defined-only", "--format=just-symbols", linked]).stdout.split()
        allow = ["-force-remove-attribute=%s:noinline" % n for n in names if re.match(inline, n)]
        pipe = "forceattrs," + pipe
    run([LLVM + "opt", "-passes=" + pipe, *allow, linked, "-o", optd])
    js = os.path.join(d, "all.json")
    run([IRDUMP, optd, js])
    with open(js) as fh:
        data = json.load(fh)
    data["units"] = [os.path.relpath(f, REPO) for f, _ in lib]
    data["flags"] = common
    return data
