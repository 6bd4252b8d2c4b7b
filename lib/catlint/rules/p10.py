"""P10: precalculated correction tables, the program generating them and their lookup."""
from .. import spec, terms as tm
from ..build import CheckError
from ..interp import Analyzer
from ..report import pmap
from ..terms import add, const, leaf, mul

SMOOTH, TAIL, MASS = 0.04, 0.06, 0.08


def check(ctx):
    ctx.rule("lookup", "the lookup takes the row of the projectile's atomic number (limited to the table), interpolates in energy and "
             "linearly in mass, and holds the end values outside the grid", 6)
    ctx.rule("shape", "all tables have one full row per atomic number up to the largest one, one column per grid energy", 4)
    ctx.rule("row", "the values of a row follow a smooth curve in energy and change little with the mass", 400)
    ctx.rule("grid", "the grid of the lookup is the grid of the generator", 2)
    ctx.rule("generator", "the generator evaluates the corrections for the atomic weight and for the weight raised by the mass step", 4)
    prog = ctx.prog(probes=["s10.cpp"])
    spec.Specs(ctx, prog, "spec_p10_lookup", [r"^catima::precalculated_lindhard", r"EnergyTable_interpolate", r"EnergyTable<\d+>::(operator|size|begin|end)"], tables=True).decide("lookup")
    fs = {f.qname.split("::")[-1]: f for f in prog.defined() if f.dem.startswith("spec_p10_parts::")}

    def val(n, *a):
        an = Analyzer(prog)
        an.tables = True
        t = an.run(fs[n + "_"], args=[const(x) for x in a]).ret
        if t is None or t.op != "c":
            raise CheckError("%s%s is not a constant" % (n, a))
        return float(t.a[0])
    grid = prog.globals[prog.glob("catima::ls_coefficients::ls_energy_table")]
    src = "%s:%d" % (grid["difile"].split("/repo/")[-1], grid["diline"])
    points = int(val("points"))
    top = int(val("generated"))
    tabs = ("a", "ahi", "x", "x_ahi")
    for t in tabs:
        sfx = "" if t == "a" else "_" + t
        r, c = int(val("rows" + sfx)), int(val("columns" + sfx))
        ctx.ob("shape", t, (r, c) == (top, points), "%d rows of %d columns, expected %d of %d" % (r, c, top, points), src)
    rows = int(val("rows"))

    def load(z):
        return {t: [val(t, z, j) for j in range(points)] for t in tabs}
    for z, d in enumerate(pmap(load, range(rows))):
        for t in tabs:
            v = d[t]
            n = points
            while n and v[n - 1] == 0 and t.startswith("x"):
                n -= 1
            bad = []
            if n < points // 2:
                bad.append("only %d values" % n)
            else:
                for j in range(n):
                    e = expect(v, j, n) - v[j]
                    if abs(e) > SMOOTH:
                        bad.append("value %d is %g, its neighbours suggest %g" % (j, v[j], v[j] + e))
                if n < points and abs(v[n - 1]) > TAIL:
                    bad.append("row breaks off at %g (value %d)" % (v[n - 1], n - 1))
                if t.endswith("hi"):
                    lo = d["a" if t == "ahi" else "x"]
                    for j in range(points):
                        if abs(lo[j] - v[j]) > MASS:
                            bad.append("value %d is %g, for the lower mass %g" % (j, v[j], lo[j]))
            ctx.ob("row", "%s Z=%d" % (t, z + 1), not bad, "; ".join(bad[:4]), src)
            ctx.count("table_values", points)
    # the grid
    gn = prog.glob("catima::ls_coefficients::ls_energy_table")
    g = energies(prog, gn, points)
    gen = [tm.feval(Analyzer(prog).run(fs["generator_energy_at_"], args=[const(i)]).ret, {}) for i in range(points)]
    bad = [i for i in range(points) if not abs(g[i] / gen[i] - 1) < 1e-9]
    ctx.ob("grid", "energies", not bad, "differ from position %s: %s" % (bad[:1], bad and (g[bad[0]], gen[bad[0]])), src)
    ctx.ob("grid", "order", all(g[i] < g[i + 1] for i in range(points - 1)), "grid energies do not grow", src)
    generator(ctx, prog, fs, val("increase"), rows)


def expect(v, j, n):
    """cubic through the four neighbours (quadratic at the ends)"""
    if 2 <= j < n - 2:
        return (4 * (v[j - 1] + v[j + 1]) - v[j - 2] - v[j + 2]) / 6
    if j < 2:
        return 3 * v[j + 1] - 3 * v[j + 2] + v[j + 3]
    return 3 * v[j - 1] - 3 * v[j - 2] + v[j - 3]


def energies(prog, name, points):
    """contents of the grid after its initialiser"""
    fs = [f for f in prog.defined() if any(i["op"] == "call" and any(a == ["g", name] for a in i["args"]) for b in f.blocks for i in b)
          and "global_var_init" in f.name]
    if len(fs) != 1:
        raise CheckError("initialiser of the energy grid not found")
    an = Analyzer(prog)
    an.peel = 512
    r = an.run(fs[0])
    o = an.operand_const(["g", name])
    off = [x for x, s, n, _ in prog.flat(prog.globals[name]["ditype"]) if n.split(".")[-1].startswith("values")][0]
    return [tm.feval(an.load(r.mem, add(o, const(off + 8 * i)), "double", 8), {}) for i in range(points)]


def generator(ctx, prog, fs, inc, rows):
    f = [g for g in prog.defined() if g.qname == "generate_"][0]
    fo = {n.split(".")[-1]: o for o, s, n, _ in prog.flat(prog.type_by_name("Projectile"))}
    seen = []

    def model(an, fr, i, g, args, mem):
        seen.append((g.qname.split("::")[-1],) + tuple(an.load(mem, add(args[0], const(fo[k])), "double", 8) for k in "AZT"))
        return NotImplemented
    names = ("bethek_lindhard", "bethek_lindhard_X")
    an = Analyzer(prog, models={"catima::" + n: model for n in names},
                  opaque_if=lambda g: not (g.qname == "generate_" or "generator.cpp" in g.file))
    an.run(f)
    for n in names:
        calls = list(dict.fromkeys(c for c in seen if c[0] == n))[-2:]   # earlier ones: approximations of the loop values
        ctx.ob("generator", n + ": mass points", len(calls) == 2 and calls[0][2:] == calls[1][2:] and tm.differ(
            calls[1][1], mul(calls[0][1], const(1 + inc)), 100) is None,
            "evaluated for %s" % [tuple(tm.pretty(x)[:120] for x in c[1:]) for c in calls], f.where())
        w = bool(calls) and tm.pretty(calls[0][1]).startswith("catima::element_atomic_weight(")
        ctx.ob("generator", n + ": first mass", bool(w), "first mass is %s" % (calls and tm.pretty(calls[0][1])[:200]), f.where())
