"""The type-checked syntax tree of the public headers (clang's JSON dump)."""
import glob
import json
import os

from . import build
from .build import CheckError, LLVM, REPO


def headers():
    hs = sorted(glob.glob(os.path.join(REPO, "include", "catima", "*.h")))
    if not hs:
        raise CheckError("no public headers found")
    return [os.path.relpath(h, os.path.join(REPO, "include")) for h in hs]


def dump(src, flags, flt):
    r = build.run([LLVM + "clang++", *flags, "-fsyntax-only", "-Wno-everything", "-Xclang", "-ast-dump=json",
                   "-Xclang", "-ast-dump-filter=" + flt, src])
    dec = json.JSONDecoder()
    s, pos, out = r.stdout, 0, []
    while True:
        while pos < len(s) and s[pos] != "{":
            nl = s.find("\n", pos)
            if nl < 0:
                return out
            pos = nl + 1
        if pos >= len(s):
            return out
        o, pos = dec.raw_decode(s, pos)
        out.append(o)


def declared(flags, hs=None):
    """functions declared at namespace scope (or as class members) in the public headers:
    mangled name -> (readable name, header, line, type, has a body)"""
    hs = hs or headers()
    d = os.path.join(build.workdir(), "ast")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "headers.cpp")
    with open(src, "w") as fh:
        for h in hs:
            fh.write('#include "%s"\n' % h)
    out = {}
    inc = os.path.realpath(os.path.join(REPO, "include")) + os.sep
    for flt in ("catima", "integrators"):
        for top in dump(src, flags, flt):
            cur = {"file": None}
            walk(top, "", out, cur, inc, 0)
    return out


def walk(n, scope, out, cur, inc, depth):
    k = n.get("kind", "")
    loc = n.get("loc", {})
    loc = loc.get("expansionLoc", loc)
    f = loc.get("file") or loc.get("includedFrom", {}).get("file") and None
    if loc.get("file"):
        cur["file"] = loc["file"]
    if loc.get("line"):
        cur["line"] = loc["line"]
    if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
        m = n.get("mangledName")
        if m and not n.get("isImplicit"):
            body = any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", ())) \
                or n.get("explicitlyDefaulted")
            o = out.get(m)
            if o is None or body and not o["body"]:
                out[m] = {"name": scope + n.get("name", ""), "file": cur.get("file"), "line": cur.get("line"),
                          "type": n.get("type", {}).get("qualType", ""), "body": bool(body),
                          "inline": bool(n.get("inline")), "static": n.get("storageClass") == "static",
                          "deleted": bool(n.get("explicitlyDeleted")),
                          "params": [(c.get("name", ""), c.get("type", {}).get("qualType", ""))
                                     for c in n.get("inner", ()) if c.get("kind") == "ParmVarDecl"]}
        return
    if k in ("NamespaceDecl", "LinkageSpecDecl", "CXXRecordDecl", "TranslationUnitDecl"):
        sc = scope + (n.get("name", "") + "::" if k in ("NamespaceDecl", "CXXRecordDecl") else "")
        for c in n.get("inner", ()):
            walk(c, sc, out, cur, inc, depth + 1)


def enums(flags, name, hs):
    """[(where, {constant: value})] for every enumeration of that name"""
    d = os.path.join(build.workdir(), "ast")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "enums.cpp")
    with open(src, "w") as fh:
        for h in hs:
            fh.write('#include "%s"\n' % h)
    out = []
    for top in dump(src, flags, name):
        if top.get("kind") != "EnumDecl":
            continue
        vals, nxt = {}, 0
        for c in top.get("inner", ()):
            if c.get("kind") != "EnumConstantDecl":
                continue
            v = [x["value"] for x in find_values(c)]
            nxt = int(v[0]) if v else nxt
            vals[c["name"]] = nxt
            nxt += 1
        loc = top.get("loc", {})
        out.append((loc.get("file") or loc.get("expansionLoc", {}).get("file") or "", vals))
    return out


def find_values(n):
    if n.get("kind") == "ConstantExpr" and "value" in n:
        return [n]
    out = []
    for c in n.get("inner", ()):
        out += find_values(c)
    return out


def tu(flags, hs=None, lang="c++", name="tu"):
    """the whole tree of a file including the given headers, library and system headers skipped"""
    d = os.path.join(build.workdir(), "ast")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, name + (".c" if lang == "c" else ".cpp"))
    with open(src, "w") as fh:
        for h in hs or headers():
            fh.write('#include "%s"\n' % h)
    r = build.run([LLVM + ("clang" if lang == "c" else "clang++"), "-x", lang, *flags, "-fsyntax-only", "-Wno-everything",
                   "-Xclang", "-ast-dump=json", src])
    top = json.loads(r.stdout)
    inc = os.path.realpath(os.path.join(REPO, "include")) + os.sep
    cur = None
    out = []
    for n in top.get("inner", ()):
        # a location names its file only when it differs from the previous one printed
        f, last = file_of(n, cur)
        cur = last
        if f and os.path.realpath(f).startswith(inc):
            out.append((f, n))
    return out


def file_of(n, cur):
    """(file of this node, last file printed inside it)"""
    def visit(x):
        nonlocal cur
        if isinstance(x, dict):
            if "file" in x and "offset" in x:
                cur = x["file"]
            for k, v in x.items():
                if k != "includedFrom":
                    visit(v)
        elif isinstance(x, list):
            for v in x:
                visit(v)
    visit(n.get("loc", {}))
    f = cur if n.get("loc") else None
    for k, v in n.items():
        if k != "loc":
            visit(v)
    return f, cur


def c_linkage(flags):
    """headers containing extern "C" declarations"""
    return {f for f, n in tu(flags) if n.get("kind") == "LinkageSpecDecl" and n.get("language") == "C"}


def c_functions(h, flags):
    out = set()
    for f, n in tu(flags, [h], "c", "tuc"):
        if n.get("kind") == "FunctionDecl":
            out.add(n["name"])
    return out


def extern_vars(flags):
    """variables declared extern in the headers: mangled name -> where"""
    out = {}

    def go(n, scope, f):
        if n.get("kind") == "VarDecl" and n.get("storageClass") == "extern" and "init" not in n:
            out[n.get("mangledName", n["name"])] = {"name": scope + n["name"], "file": f, "line": n.get("loc", {}).get("line"),
                                                    "type": n.get("type", {}).get("qualType", "")}
        elif n.get("kind") in ("NamespaceDecl", "LinkageSpecDecl"):
            for c in n.get("inner", ()):
                go(c, scope + (n.get("name", "") + "::" if n["kind"] == "NamespaceDecl" else ""), f)
    for f, n in tu(flags):
        go(n, "", f)
    return out
