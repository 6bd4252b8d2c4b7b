"""P20: every combination of the build options compiles, offers the same functions and satisfies the same statements."""
import concurrent.futures as cf
import itertools
import os
import re

from .. import ast, build, cache, spec, terms as tm, values
from ..build import CheckError
from ..report import Ctx, pmap
from . import p07, p19, p25

OPTIONS = ("REACTIONS", "STORE_SPLINES", "THIN_TARGET_APPROXIMATION", "ET_CALCULATED_INDEX")


def marker(an, mem, obj):
    return tm.num(an.load(mem, obj, "?", 8))


def evaluate(an, fr, i, g, args, mem):
    """value or slope of an interpolator: identified by what it interpolates, not by where it is kept"""
    return tm.mk("call", "slope" if "deriv" in g.dem else "value", marker(an, mem, args[0]), tm.num(args[1]))


def search(an, fr, i, g, args, mem):
    return tm.mk("call", "energy_out", tm.num(args[0]), tm.num(args[1]), marker(an, mem, args[2]))


def models(prog):
    m = {k: v for k, v in cache.models(prog).items() if "Interpolator" in k}
    m[r"re:::Interpolator\w*(<.*>)?::(operator\(\)|eval|derivative)\("] = evaluate
    m[r"re:^catima::energy_out\(double, double,"] = search
    return m


def name(combo):
    return ", ".join("%s %s" % kv for kv in combo.items() if kv[1] == "OFF") or "all on"


def check(ctx):
    ctx.rule("compiles", "every library source file compiles with this combination of options", 16 * 8)
    ctx.rule("headers", "the public headers compile with this combination of options", 16)
    ctx.rule("same functions", "the same functions are declared and defined with every combination of options", 16)
    ctx.rule("accessor", "an accessor yields the interpolation of its own table over the energy grid", 6)
    ctx.rule("same results", "statements fixing the results hold with the option switched off, too", 100)
    ctx.rule("table position", "the table position found is the interval containing the value, and every access with it stays inside the table", 20)
    combos = [dict(zip(OPTIONS, v)) for v in itertools.product(("ON", "OFF"), repeat=len(OPTIONS))]

    def compile_all(n):
        try:
            d, units = build.configure("cfg-o%d" % n, combos[n])
        except build.BuildError as e:
            raise CheckError("cannot configure with %s: %s" % (name(combos[n]), e))
        lib = build.lib_units(units)
        if not lib:
            raise CheckError("no library translation units found")
        return d, lib, p19.objects(lib, os.path.join(d, "objs"))
    build.workdir()
    ref = None
    with cf.ThreadPoolExecutor(4) as ex:
        built = list(ex.map(compile_all, range(len(combos))))
    for c, (d, lib, res) in zip(combos, built):
        nm = name(c)
        for u, (s, err) in res.items():
            ctx.ob("compiles", "%s: %s" % (nm, u), s is not None, err.replace(d, ""), u)
        ctx.count("objects_compiled", len(res))
        flags = p19.client_flags(lib)
        src = os.path.join(d, "headers.cpp")
        with open(src, "w") as fh:
            fh.write("".join('#include "%s"\n' % h for h in ast.headers()))
        ok, err = p19.compiles(src, flags)
        ctx.ob("headers", nm, ok, err.replace(d, ""))
        if not ok or any(s is None for s, _ in res.values()):
            continue
        dec = {m: dd["name"] + " " + dd.get("type", "") for m, dd in ast.declared(flags).items()}
        have = set().union(*[set(s) for s, _ in res.values()])
        pub = {m for m in dec if m in have}
        if ref is None:
            ref = (set(dec), pub, dec)
            ctx.require(len(pub) >= 80, "only %d public functions found" % len(pub))
        gone = sorted((ref[2][m] for m in (ref[0] - set(dec)) | (ref[1] - pub)))
        extra = sorted(dec[m] for m in set(dec) - ref[0])
        ctx.ob("same functions", nm, not gone and not extra, "%s%s" % (
            "missing: %s " % ", ".join(gone[:5]) if gone else "", "additional: " + ", ".join(extra[:5]) if extra else ""))
        ctx.count("public_functions", len(pub), add=False)
    bad = {o[1].split(":")[0] for o in ctx.obs if not o[2]}
    # semantics: one option off at a time and all off
    sets = [{o: "OFF" if o in off else "ON" for o in OPTIONS} for off in [(o,) for o in OPTIONS] + [OPTIONS]]

    def decide(n):
        sub = Ctx(ctx.pid)
        sub.rules = ctx.rules
        c = sets[n]
        semantics(sub, sub.prog("sem%d" % n, c, probes=["s15.cpp", "s16.cpp", "s25.cpp", "storage.cpp"]), name(c), c["STORE_SPLINES"] == "ON")
        if n == 0 or c["ET_CALCULATED_INDEX"] == "OFF":
            lookups(sub, sub.prog("sem%d" % n, c, probes=["s15.cpp", "s16.cpp", "s25.cpp", "storage.cpp"]), name(c))
        return sub.obs, sub.counts
    for obs, counts in pmap(decide, [n for n, c in enumerate(sets) if name(c) not in bad], 5):
        for rule, inst, ok, detail, loc in obs:
            ctx.ob(rule, inst, ok, detail, loc)
        for k, v in counts.items():
            ctx.count(k, v, add=k == "call_sites_followed")


def lookups(ctx, prog, nm):
    """positions in the grids, and accesses with them"""
    grids = p07.grids(ctx, prog)
    p07.positions(ctx, prog, grids, "table position", "with " + nm)
    fs = [f for f in p07.roots(prog) if re.search(r"EnergyTable|cspline|Interpolator|precalculated_", f.dem) and "spec_" not in f.dem]
    total, steps, ctxs = p07.analyse(prog, grids, fs)
    for (fn, ii, dim), (ok, v, cnt, at) in total.items():
        f = prog.functions[fn]
        i = f.insts[ii]
        if f.in_repo() and (not ok or dim != "extent" and i["idx"][dim][0][0] != "ci"):
            ctx.ob("table position", "%s, access %d.%s with %s" % (f.dem, ii, dim, nm), ok, "position %s of %d, reached from %s" % (v, cnt, at), f.loc(i))
    ctx.count("abstract instructions", steps)


def semantics(ctx, prog, nm, stored):
    m = models(prog)
    lab = "with " + nm
    spec.Specs(ctx, prog, "spec_p15", follow=[r"^catima::calculate\(", r"^catima::get_\w+_spline\("], models=m).decide("same results", label=lab)
    ms = dict(values.SEQ)
    ms.update(m)
    spec.Specs(ctx, prog, "spec_p16", [
        r"^catima::calculate\(catima::Projectile const&, catima::Phasespace const&",
        r"^catima::calculate\(catima::Projectile, catima::Material const&, double,"], models=ms).decide("same results", label=lab)
    p25.statements(ctx, prog, models=m, label=lab, rule="same results")
    accessors(ctx, prog, lab, stored)


def accessors(ctx, prog, lab, stored):
    from ..interp import Analyzer, Mem
    from ..terms import add, const
    from .p02 import is_interp, short
    la = cache.Layout(prog)
    grid = prog.glob("catima::energy_table")
    grid = grid["name"] if isinstance(grid, dict) else grid
    for b, bo in la.tables.items():
        f = prog.find("catima::get_%s_spline" % b)
        an = Analyzer(prog, models=cache.models(prog))
        ar = an.default_args(f)
        r = an.run(f, ar)
        if stored:
            ctx.require(b + "_spline" in la.splines, "no stored interpolator for " + b)
            ok, got = r.ret is add(ar[0], const(la.splines[b + "_spline"])), r.ret
        else:
            got = an.load(r.mem, ar[0], "?", 8)
            ok = is_interp(got) and got.a[1] is an.obj("glob", grid) and got.a[2] is an.load(Mem(), add(ar[1], const(bo)), "ptr", 8)
        ctx.ob("accessor", "%s %s" % (f.qname, lab), ok, "accessor of %s returns %s" % (b, short(got)), f.where())
