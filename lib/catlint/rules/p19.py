"""P19: type-checks client programs made of the public headers in every combination (nothing is executed): each header alone,
twice, every ordered pair, all of them both ways round, the C headers as C; symbols of a client object must all be mergeable,
and every declaration must have exactly one definition in the library's objects."""
import concurrent.futures as cf
import itertools
import os
import subprocess

from .. import ast, build
from ..build import CheckError, LLVM, REPO

CSTD = ("-std=c99", "-std=c11")


def compiles(src, flags, lang="c++", out=None):
    cmd = [LLVM + ("clang++" if lang == "c++" else "clang"), "-x", lang, *flags, "-Wno-everything", "-ferror-limit=3"]
    cmd += ["-O0", "-c", src, "-o", out] if out else ["-fsyntax-only", src]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    errs = [l for l in r.stderr.splitlines() if "error:" in l]
    return r.returncode == 0, "\n".join(errs[:3]) or r.stderr[-400:]


def symbols(obj):
    """defined external symbols of an object: name -> 'strong' | 'weak'"""
    r = build.run([LLVM + "llvm-nm", "--defined-only", "--extern-only", "--format=posix", obj])
    out = {}
    for l in r.stdout.splitlines():
        p = l.split()
        if len(p) >= 2 and len(p[1]) == 1:
            out[p[0]] = "weak" if p[1] in "WVuwv" else "strong"
    return out


def demangle(n):
    return build.run([LLVM + "llvm-cxxfilt", n]).stdout.strip() or n


def objects(units, d):
    """compiles the library's units; {unit: symbols}"""
    os.makedirs(d, exist_ok=True)

    def one(n):
        f, fl = units[n]
        o = os.path.join(d, "l%d.o" % n)
        ok, err = compiles(f, fl, out=o)
        return (symbols(o) if ok else None), err
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(units))))
    return {os.path.relpath(u[0], REPO): r for u, r in zip(units, res)}


def client_flags(units):
    """what a client of the library gets: its include directories and language version"""
    keep, fl, i = [], units[0][1], 0
    while i < len(fl):
        if fl[i] in ("-I", "-isystem"):
            keep += fl[i:i + 2]
            i += 1
        elif fl[i].startswith(("-I", "-isystem", "-std=")):
            keep.append(fl[i])
        i += 1
    return keep


def declarations(flags):
    """functions and variables declared by the headers without a definition in them"""
    fns = {m: d for m, d in ast.declared(flags).items() if not d["body"] and not d["deleted"]}
    return fns, ast.extern_vars(flags)


def check(ctx):
    ctx.rule("alone", "a header compiles as the only include of a file", 10)
    ctx.rule("twice", "a header can be included more than once in a file", 10)
    ctx.rule("order", "every two headers can be included in either order, and all of them together", 100)
    ctx.rule("as C", "headers with C declarations compile as C", 1)
    ctx.rule("several files", "everything the headers define can be defined again in another file of the program", 1)
    ctx.rule("defined", "a function or variable declared by the headers is defined once by the library", 60)
    hs = ast.headers()
    _, units = build.configure("cfg-hdr")
    units = build.lib_units(units)
    ctx.require(units, "no library translation units found")
    flags = client_flags(units)
    d = os.path.join(build.workdir(), "clients")
    os.makedirs(d, exist_ok=True)
    jobs = []

    def client(rule, inst, incs, **kw):
        src = os.path.join(d, "c%d.%s" % (len(jobs), "c" if kw.get("lang") == "c" else "cpp"))
        with open(src, "w") as fh:
            fh.write("".join('#include "%s"\n' % h for h in incs) + "int client(void);\n")
        jobs.append((rule, inst, src, kw))
    for h in hs:
        client("alone", h, [h])
        client("twice", h, [h, h])
    for a, b in itertools.permutations(hs, 2):
        client("order", "%s, %s" % (a, b), [a, b])
    client("order", "all", hs)
    client("order", "all, reversed", list(reversed(hs)))
    chead = sorted({os.path.relpath(f, os.path.join(REPO, "include")) for f in ast.c_linkage(flags)})
    ctx.require(chead, "no header with C declarations")
    inc = [f for f in flags if not f.startswith("-std")]
    for h in chead:
        for std in CSTD:
            client("as C", "%s %s" % (h, std), [h, h], lang="c", flags=inc + [std])

    def go(j):
        rule, inst, src, kw = j
        return compiles(src, kw.get("flags", flags), kw.get("lang", "c++"))
    with cf.ThreadPoolExecutor(8) as ex:
        for (rule, inst, src, kw), (ok, err) in zip(jobs, ex.map(go, jobs)):
            ctx.ob(rule, inst, ok, "" if ok else err.replace(d + "/", ""), inst.split(",")[0].split(" ")[0])
    ctx.count("client_programs", len(jobs))

    # a client object must not contain definitions that clash with the same headers in another file
    lst = []
    for h in hs:
        src = os.path.join(d, "m_%s.cpp" % os.path.basename(h))
        with open(src, "w") as fh:
            fh.write('#include "%s"\n' % h)
        lst.append((h, src, "c++", flags))
    for h in chead:
        src = os.path.join(d, "m_%s.c" % os.path.basename(h))
        with open(src, "w") as fh:
            fh.write('#include "%s"\n' % h)
        lst.append((h + " as C", src, "c", inc + [CSTD[0]]))
    own = {}
    for inst, src, lang, fl in lst:
        o = src + ".o"
        ok, err = compiles(src, fl, lang, out=o)
        if not ok:
            ctx.ob("several files", inst, False, err, inst)
            continue
        s = symbols(o)
        own[inst] = s
        strong = sorted(n for n, k in s.items() if k == "strong")
        ctx.ob("several files", inst, not strong, "defined in every file including it: " +
               ", ".join(demangle(n) for n in strong[:5]), inst)

    # declarations against the library's objects
    lib = objects(units, d)
    for u, (s, err) in lib.items():
        if s is None:
            raise CheckError("cannot compile %s: %s" % (u, err))
    where = {}
    for u, (s, _) in lib.items():
        for n, k in s.items():
            where.setdefault(n, []).append((u, k))
    fns, vs = declarations(flags)
    ctx.count("declarations", len(fns) + len(vs))
    cdecl = set()
    for h in chead:
        cdecl |= ast.c_functions(h, inc + [CSTD[0]])
    ctx.require(cdecl, "the C headers declare nothing")
    for m, dd in sorted(list(fns.items()) + list(vs.items())):
        df = where.get(m, [])
        strong = [u for u, k in df if k == "strong"]
        ok = len(strong) == 1 or not strong and df
        loc = "%s:%s" % (os.path.relpath(dd["file"], REPO) if dd.get("file") else "?", dd.get("line"))
        ctx.ob("defined", dd["name"] + " " + dd.get("type", ""), ok,
               "not defined by the library" if not df else "defined in " + ", ".join(strong), loc)
    for n in sorted(cdecl):
        ctx.ob("defined", n + " (C)", n in where, "no C function of this name is defined by the library")
    ctx.assume("clients use the library's include directories and language version; name clashes between different headers "
               "show in ordered pairs or in the complete set")
