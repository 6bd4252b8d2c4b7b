"""P22: no mass, energy, amount, density or thickness is converted to an integer or to single precision. Every conversion in
the library is classified by where the converted value comes from (fields, parameters through their call sites, results)."""
import re

from .. import terms as tm
from ..build import CheckError
from ..interp import Analyzer, canon_name
from ..report import pmap

CHARGE = {"Projectile.Z", "Target.Z"}
MASS = {"Projectile.A", "Target.A"}
QUANT = {"Projectile": {"A", "T"}, "Target": {"A", "stn"}, "Material": {"rho", "th", "molar_mass", "i_potential"},
         "Config": {"scattering_factor"}}
RESULTS = ("Result", "MultiResult", "Phasespace")
ROUND = re.compile(r"^(llvm\.)?(floor|ceil|round|trunc|rint|nearbyint|roundeven)(\.f64)?$")
LROUND = re.compile(r"^(llvm\.)?l?l(round|rint)(\.|$)")


class Watch(Analyzer):
    def __init__(self, prog):
        super().__init__(prog, opaque_if=lambda g: g.in_repo() or "spec_p22" in g.dem or "make_material" in g.dem)
        self.integrate = False
        self.conv, self.stores, self.args = {}, [], []

    def inst(self, fr, i, mem, *a):
        op = i["op"]
        if op in ("fptosi", "fptoui", "fptrunc"):
            self.conv[(i["id"],)] = (op, self.val(fr, i["ops"][0]), fr["f"].loc(i))
        elif op in ("call", "invoke") and i["callee"][0] == "f" and (ROUND.match(i["callee"][1]) or LROUND.match(i["callee"][1])):
            self.conv[(i["id"],)] = (i["callee"][1], self.val(fr, i["args"][0]), fr["f"].loc(i))
        elif op == "store":
            v = self.val(fr, i["ops"][0])
            self.stores.append((self.field(self.val(fr, i["ops"][1])), v, fr["f"].loc(i)))
        return super().inst(fr, i, mem, *a)

    def field(self, addr):
        b, o = self.split(addr)
        t = self.names.get(b.id)
        if t is None or o.op != "c":
            return None
        return type_field(self.prog, t, int(o.a[0]))

    def opaque_call(self, fr, i, g, name, args, mem):
        if g is not None:
            self.args.append((g.name, list(args), fr["f"].loc(i)))
        return super().opaque_call(fr, i, g, name, args, mem)


def type_field(prog, t, off):
    n = prog.types[prog.strip(t)]["name"]
    f = prog.field_name(t, off).split(".")
    return "%s.%s" % (n, f[-1]) if n else None


def sources(an, t):
    """origins of a value: fields, parameters, results, tables; constants have none"""
    out, seen, work = set(), set(), [tm.num(t)]
    while work:
        x = work.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "c":
            continue
        if x.op == "call":
            out.add(("ret", x.a[0]))
        elif x.op == "fld":
            out.add(("retfield", x.a[0].a[0] if x.a[0].op == "call" else "?", x.a[1]))
        elif x.op == "leaf":
            k = x.a[0]
            if k == "arg":
                out.add(("param", x.a[1]))
            elif k == "ld":
                f = an.field(tm.add(x.a[1], x.a[2]))
                b, _ = an.split(x.a[1])
                if f is None and b.op == "leaf" and b.a[0] == "obj" and b.a[1] == "glob":
                    f = "table " + (an.prog.globals.get(b.a[2], {}).get("diname") or b.a[2])
                out.add(("field", f) if f else ("memory", ""))
            else:
                out.add(("memory", k))
        else:
            work += [c for c in tm.children(x) if isinstance(c, tm.T)]
    return out


def check(ctx):
    ctx.rule("conversion", "a converted or rounded value is an atomic number, a position in a grid, or a mass rounded to the nearest nuclide", 8)
    ctx.rule("stored", "nothing stored as a mass, energy, amount, density or thickness comes from an integer or a truncated value", 20)
    ctx.rule("type", "masses, energies, amounts, densities, thicknesses and all results are double", 25)
    prog = ctx.prog(probes=["api.cpp", "s22.cpp"])
    fs = [f for f in prog.defined() if (f.in_repo() or "spec_p22" in f.dem) and f.blocks and "GLOBAL__" not in f.name]
    names = {f.name: n for n, f in enumerate(fs)}

    def one(f):
        an = Watch(prog)
        r = an.run(f).ret
        conv = [(i[0], op, sources(an, t), loc, grid(t), tm.pretty(t)[:160]) for i, (op, t, loc) in an.conv.items()]
        st = [(fl, sources(an, v), shape(an, f, v), loc, tm.pretty(v)[:120]) for fl, v, loc in an.stores if fl]
        ca = [(g, [(sources(an, a), shape(an, f, a)) if isinstance(a, tm.T) and not is_ptr(prog.functions[g], n) else None
                   for n, a in enumerate(args)], loc) for g, args, loc in an.args]
        return conv, st, ca, (sources(an, r) if r is not None else set()), an.callsites
    res = dict(zip((f.name for f in fs), pmap(one, fs)))
    callers = {}
    for n, (conv, st, ca, ret, cs) in res.items():
        ctx.count("call_sites", cs)
        for g, args, loc in ca:
            callers.setdefault(g, []).append((n, args, loc))
    bydem = {}
    for f in fs:
        bydem.setdefault(canon_name(f.dem), f)

    def kinds(fn, srcs, seen):
        out = set()
        for s in srcs:
            if s[0] == "field":
                out.add(s[1])
            elif s[0] == "memory":
                out.add("memory")
            elif s[0] == "param":
                f = prog.functions[fn]
                n = [k for k, (nm, _) in enumerate(f.params) if nm == s[1]]
                if not n:
                    out.add("memory")
                    continue
                if f.args[n[0]]["ty"].startswith("i"):
                    out.add("integer")
                    continue
                if (fn, n[0]) in seen:
                    continue
                cl = [(c, a[n[0]]) for c, a, _ in callers.get(fn, ()) if n[0] < len(a) and a[n[0]] is not None]
                if not cl:
                    out.add("argument")
                for c, a in cl:
                    out |= kinds(c, a[0], seen | {(fn, n[0])})
            elif s[0] in ("ret", "retfield"):
                g = bydem.get(s[1])
                if s[0] == "retfield":
                    t = ret_type(prog, s[1])
                    out.add("%s.%s" % (t, prog.field_name(prog.type_by_name(t), s[2]).split(".")[-1]) if t else "memory")
                elif g is None:
                    out.add("result of " + s[1].split("(")[0])
                elif g.d["rty"].startswith("i"):
                    out.add("integer")
                elif g.name in seen:
                    pass
                else:
                    out |= kinds(g.name, res[g.name][3], seen | {g.name})
        return out

    found = {}
    for f in fs:
        for iid, op, srcs, loc, gr, text in res[f.name][0]:
            ks = kinds(f.name, srcs, frozenset())
            rest = ks - CHARGE - {"integer"}
            fwd = forward(prog, f, iid)
            why = ""
            if op == "fptrunc":
                ok, why = not rest, "converted to single precision"
            elif LROUND.match(op):
                ok = rest <= MASS | {"argument"} and "double" not in fwd
                why = "rounded"
            elif ROUND.match(op):
                ok = "double" not in fwd or not rest
                why = "rounded"
            elif not rest:
                ok = True
            elif gr and "double" not in fwd:
                ok = True
            elif rest <= {"argument", "memory"}:
                ok, why = "double" not in fwd, "truncated and used as a number again"
            else:
                ok, why = False, "truncated"
            found.setdefault((f, loc), []).append((ok, "%s %s, origin %s" % (text, why, ", ".join(sorted(ks)) or "constant")))
    # quantities a parameter ends up in
    quantity = {}
    changed = True
    while changed:
        changed = False
        for f in fs:
            conv, st, ca, ret, cs = res[f.name]
            pn = {nm: k for k, (nm, _) in enumerate(f.params)}
            for fl, srcs, sh, loc, text in st:
                if isq(fl) and sh and sh[0] == "param" and sh[1] in pn and (f.name, pn[sh[1]]) not in quantity:
                    quantity[(f.name, pn[sh[1]])] = fl
                    changed = True
            for g, args, loc in ca:
                for n, a in enumerate(args):
                    if a and a[1] and a[1][0] == "param" and (g, n) in quantity and a[1][1] in pn and (f.name, pn[a[1][1]]) not in quantity:
                        quantity[(f.name, pn[a[1][1]])] = quantity[(g, n)]
                        changed = True
    stored = {}
    for f in fs:
        conv, st, ca, ret, cs = res[f.name]
        for fl, srcs, sh, loc, text in st:
            if isq(fl):
                stored.setdefault((f, loc), []).append((not bad_shape(prog, f, sh), "%s := %s" % (fl, text)))
        for g, args, loc in ca:
            for n, a in enumerate(args):
                if a and (g, n) in quantity:
                    stored.setdefault((f, loc), []).append((not bad_shape(prog, f, a[1]), "%s of %s := %s" % (quantity[(g, n)], prog.functions[g].qname, a[1])))
    marks = {}
    for rule, d in (("conversion", found), ("stored", stored)):
        for (f, loc), l in sorted(d.items(), key=lambda x: x[0][1]):
            bad = [t for ok, t in l if not ok]
            if "spec_p22" in f.dem:
                marks.setdefault(f.qname.split("::")[-1], []).extend(bad)
                continue
            ctx.ob(rule, "%s in %s" % (loc, f.qname), not bad, "; ".join(bad[:3]), loc)
    # the rule sees what it has to see
    for f in fs:
        if "spec_p22::" not in f.dem:
            continue
        n = f.qname.split("::")[-1]
        if n.startswith("bad_") and not (marks.get(n) or n == "bad_through_parameter" and marks.get("helper_")):
            raise CheckError("the rule no longer finds the planted conversion in %s" % n)
        if n.startswith("good_") and marks.get(n) or n == "twice_" and marks.get(n):
            raise CheckError("the rule objects to the harmless conversion in %s: %s" % (n, marks[n]))
    for cl in list(QUANT) + list(RESULTS):
        t = prog.type_by_name(cl)
        fields = [(n.split(".")[-1], ty) for o, s, n, ty in prog.flat(t)]
        want = QUANT.get(cl) or {n for n, ty in fields if not n.startswith("_M_") and ty_name(prog, ty) not in ("int", "bool")}
        have = {n: ty for n, ty in fields}
        for n in sorted(want):
            if n not in have:
                continue
            ctx.ob("type", "%s.%s" % (cl, n), ty_name(prog, have[n]) == "double", "declared as %s" % ty_name(prog, have[n]), "include/catima/structures.h")


def ty_name(prog, t):
    return prog.types[prog.strip(t)]["name"] if t is not None and t >= 0 else "?"


def isq(fl):
    c, _, n = fl.partition(".")
    return n in QUANT.get(c, ()) or c in RESULTS


def is_ptr(g, n):
    return n < len(g.args) and g.args[n]["ty"] == "ptr"


def shape(an, f, v):
    v = tm.num(v)
    if v.op == "leaf" and v.a[0] == "arg":
        return ("param", v.a[1])
    if v.op == "fn" and v.a[0] in ("trunc", "floor", "ceil", "round", "rint"):
        return ("truncated", tm.pretty(v)[:100])
    return None


def bad_shape(prog, f, sh):
    if not sh:
        return False
    if sh[0] == "truncated":
        return True
    n = [k for k, (nm, _) in enumerate(f.params) if nm == sh[1]]
    return bool(n) and f.args[n[0]]["ty"].startswith("i")


def grid(t):
    """position in a grid: rounded-down ratio or logarithm"""
    if t.op == "fn" and t.a[0] == "floor":
        x = t.a[1]
        return x.op == "prod" and any(e < 0 for _, e in x.a[0]) or tm.contains(x, lambda y: y.op == "fn" and y.a[0] in ("log", "log10"))
    return False


def ret_type(prog, dem):
    for f in prog.functions.values():
        if canon_name(f.dem) == dem:
            for a in f.args:
                if "sret" in a:
                    m = re.match(r'^%"?(?:struct|class)\.(?:\w+::)*(\w+)', a["sret"])
                    return m.group(1) if m else None
    return None


def forward(prog, f, iid):
    """what becomes of a value inside its function: {'double'} when it turns into a floating-point number again"""
    out, work, seen = set(), [iid], set()
    start = f.insts[iid]
    dbl = start["ty"] == "double"
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        for b in f.blocks:
            for i in b:
                ops = list(i.get("ops") or []) + [x[0] if isinstance(x[0], list) else x for x in i.get("in", [])]
                if i["op"] == "phi":
                    ops = [o for x in i["in"] for o in x if isinstance(o, list)]
                if ["i", v] not in ops and not (i["op"] in ("call", "invoke") and ["i", v] in i["args"]):
                    continue
                if i["op"] in ("sitofp", "uitofp"):
                    out.add("double")
                elif i["op"] in ("call", "invoke"):
                    if i["callee"][0] == "f" and i["callee"][1].startswith("llvm.") and i["ty"] != "void":
                        work.append(i["id"])
                        if i["ty"] == "double":
                            out.add("double")
                    elif dbl:
                        out.add("double")
                elif i["op"] in ("fptosi", "fptoui"):
                    if dbl and f.insts[v]["ty"] == "double":
                        continue        # judged as a conversion of its own
                elif i["op"] in ("fadd", "fsub", "fmul", "fdiv", "fneg"):
                    out.add("double")
                elif i["op"] in ("store", "ret"):
                    if f.insts[v]["ty"] == "double":
                        out.add("double")
                elif i["op"] not in ("icmp", "fcmp", "br", "switch", "getelementptr"):
                    work.append(i["id"])
    return out
