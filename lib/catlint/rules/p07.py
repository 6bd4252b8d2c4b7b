"""P07: accesses to fixed-size arrays stay inside them (interval analysis of every function of the library)."""
import re

from .. import intervals as iv, terms as tm
from ..build import CheckError
from ..intervals import Flt, Int, Intervals, INF
from ..interp import Analyzer
from ..report import pmap
from ..terms import add, const

ZMAX = 10 ** 6
FIELDS = {"Projectile.Z": Flt(1.0, float(ZMAX), False), "Target.Z": Int(1, ZMAX)}
# published functions taking numbers from outside, with the places of the atomic numbers; every other function with integer
# parameters is decided at its calls
PUBLISHED = {
    "catima::SigmaR_Kox": (1, 4), "catima::srim_dedx_e": (0, 1), "catima::get_compound": (), "catima::get_material": (), "catima::element_density": (0,),
    "catima::radiation_length": (0,), "catima::scattering_length": (1,), "catima::bethek_density_effect": (1,), "catima::element_atomic_weight": (0,),
    "catima::ipot": (0,), "catima::p_se": (0,), "catima::p_se85": (0,), "catima::p_se95": (0,), "catima::Material::add_element": (2,), "catima::Material::Material": (2,),
    "catima::calculate": (2,), "abundance::get_isotope": (0,), "abundance::get_abundance": (0,), "abundance::get_isotope_a": (0,),
    "abundance::get_isotopes_num": (0,), "atomic_weight": (0,), "catima_Eout": (1,), "catima_angular_straggling_from_E": (1,), "catima_calculate": (2,),
    "catima_energy_straggling_from_E": (1,), "catima_nonreaction_rate": (1,), "catima_range": (1,), "catima_range_straggling": (1,),
    "catima::angular_variance": ()}
CLASSES = ("Projectile", "Material", "Target", "Config", "Layers", "Phasespace", "DataPoint")
SPLIT = 140


def grids(ctx, prog):
    """contents of the energy grids, from their constructors"""
    out = {}
    for n, g in prog.globals.items():
        t = prog.strip(g.get("ditype")) if g.get("ditype") is not None else -1
        if t is None or t < 0 or not re.match(r"(EnergyTable|LogVArray|LinearVArray)<", prog.types[t]["name"]) or g.get("decl"):
            continue
        ctor = None
        for f in prog.defined():
            for i in f.calls():
                if i["args"] and i["args"][0] == ["g", n] and i["callee"][0] == "f":
                    c = prog.functions.get(i["callee"][1])
                    if c is not None and c.defined and re.search(r"(\w+)<.*>::\1\(", c.dem):
                        ctor = (c, i)
        if ctor is None:
            raise CheckError("no constructor call found for the grid %s" % g["dem"])
        c, i = ctor
        an = Analyzer(prog)
        an.peel, an.integrate = 2000, False
        args = [an.operand_const(a) for a in i["args"]]
        r = an.run(c, args=args)
        v = {}
        for off in range(0, g["size"], 8):
            ty = None
            for o, s, nm, ti in prog.flat(t):
                if o <= off < o + s:
                    ty = "i64" if nm.split(".")[-1] in ("num",) else "double"
            x = tm.num(an.load(r.mem, add(args[0], const(off)), ty or "double", 8))
            if ty == "i64":
                if x.op == "c":
                    v[off] = Int(int(x.a[0]), int(x.a[0]))
                continue
            if x.op != "c" and any(y.op == "leaf" for y in tm.walk([x])):
                continue
            z = float(tm.feval(x, {}))
            v[off] = Flt(z, z, False)
        if len(v) < g["size"] // 8 // 2:
            raise CheckError("contents of the grid %s not found (%d of %d)" % (g["dem"], len(v), g["size"] // 8))
        out[n] = v
    return out


def upper(an, f, i, g, args, mem):
    """std::upper_bound / std::lower_bound on increasing numbers: how many of them are not above (are below) the value"""
    if not all(isinstance(a, iv.Ptr) and len(a.t) == 1 for a in args[:2]) or len(args) != 3:
        return NotImplemented
    (b, lo, hi, r, s, z), = args[0].t
    (b2, lo2, hi2, r2, s2, z2), = args[1].t
    if b != b2 or r is None or lo != hi or lo2 != hi2:
        return NotImplemented
    v = args[2]
    if isinstance(v, iv.Ptr):
        v = an.load(f, i, mem, v, "double", 8)
    vals = [an.load1(mem, b, o, o, "double", 8) for o in range(lo, lo2, 8)]
    k0, k1 = 0, len(vals)
    if isinstance(v, Flt) and not v.nan and all(isinstance(x, Flt) and not x.nan for x in vals):
        if "upper" in g.qname:
            k0, k1 = sum(x.hi <= v.lo for x in vals), sum(x.lo <= v.hi for x in vals)
        else:
            k0, k1 = sum(x.hi < v.lo for x in vals), sum(x.lo < v.hi for x in vals)
    return iv.Ptr([(b, lo + 8 * k0, lo + 8 * k1, r + 8 * k0, r + 8 * k1, z)])


MODELS = {r"std::(upper|lower)_bound<double const\*, double>": upper}


def positions(ctx, prog, objects, rule, label=""):
    """the position found in a grid is the interval containing the value, for all values inside each interval, at the nodes and outside"""
    fs = [f for f in prog.defined() if f.in_repo() and re.match(r"catima::EnergyTable<\d+>::index$", f.qname)]
    ctx.require(fs, "no position search found")
    for n, o in objects.items():
        g = prog.globals[n]
        t = prog.types[prog.strip(g["ditype"])]["name"]
        f = [f for f in fs if f.qname.split("::")[1] == t]
        if not f:
            continue
        f, = f
        a = Intervals(prog, {n: o}, FIELDS, MODELS, None)
        num = int(re.search(r"<(\d+)>", t).group(1))
        v = [o[8 * k].lo for k in range(num)]
        ctx.require(all(x < y for x, y in zip(v, v[1:])), "grid %s does not increase" % g["dem"])

        def find(x):
            r, _ = a.call(f, [a.gptr(n), x], {})
            return r
        bad = []
        cases = [(-1, Flt(-INF, v[0] * (1 - 1e-6), True)), (num - 1, Flt(v[-1], INF, False))]
        for k in range(num - 1):
            w = 1e-6 * (v[k + 1] - v[k])
            cases += [(k, Flt(v[k] + w, v[k + 1] - w, False)), (k, Flt(v[k], v[k], False))]
        for k, x in cases:
            r = find(x)
            if not (isinstance(r, Int) and r.lo == r.hi == k):
                bad.append("%s: position %s instead of %d" % (x, r, k))
        ctx.count("grid_intervals", num - 1)
        ctx.ob(rule, "%s %s%s" % (f.qname, g["dem"], " " + label if label else ""), not bad, "; ".join(bad[:3]) + (" and %d more" % (len(bad) - 3) if len(bad) > 3 else ""), f.where())


class Judge:
    def __init__(self, prog):
        self.prog = prog
        self.got = {}       # (function, instruction, dimension) -> [ok, worst, count, where]
        self.at = ""

    def __call__(self, f, i, dim, ok, v, cnt, base):
        k = (f.name, i["id"], dim)
        o = self.got.get(k)
        if o is None or o[0] and not ok:
            self.got[k] = [ok, v, cnt, self.at]
        elif o[0] == ok and cnt == o[2]:
            o[1] = iv.join(o[1], v)


def named(prog, f, i):
    """what is indexed: name of the table or member, for the report"""
    b = i.get("base")
    while b and b[0] == "i":
        j = f.insts.get(b[1])
        if j is None or j["op"] not in ("getelementptr", "load"):
            return ""
        b = j.get("base") or j["ops"][0]
    if b and b[0] == "g":
        return prog.globals[b[1]]["dem"] if b[1] in prog.globals else b[1]
    if b and b[0] == "a" and b[1] < len(f.params):
        return "parameter %s" % f.params[b[1]][0]
    return ""


def derived(f, i, ii):
    """the access goes through the address computed by instruction ii"""
    o = i["ops"][0] if i["op"] == "load" else i["ops"][1]
    return o == ["i", ii]


def wide(a):
    return a["ty"] in ("i32", "i64")


def atomic(f, k):
    """integer parameter of a published function that is an atomic number"""
    return wide(f.args[k]) and k in PUBLISHED.get(f.qname, ())


def opaque(prog):
    """functions of objects and energies only: decided on their own for all arguments, so calls need not be followed"""
    memo = {}

    def is_opaque(g):
        if g.name not in memo:
            cls = False
            for k in range(len(g.args)):
                pt = prog.pointee(g.params[k][1]) if k < len(g.params) and g.params[k][1] is not None else None
                if pt is None and k < len(g.params) and g.params[k][1] is not None and prog.is_class(g.params[k][1]):
                    pt = prog.strip(g.params[k][1])
                if pt is not None and pt >= 0 and prog.types[pt]["name"] in CLASSES:
                    cls = True
            memo[g.name] = g.in_repo() and cls and not any(wide(a) for a in g.args)
        return memo[g.name]
    return is_opaque


def covered(g, args):
    """call of a published function whose own analysis includes these arguments"""
    if g.qname not in PUBLISHED or any(a["ty"] == "ptr" for a in g.args):
        return False
    return all(not atomic(g, k) or isinstance(a, Int) and a.lo >= 1 and a.hi <= ZMAX for k, a in enumerate(args))


def roots(prog):
    out = []
    for f in prog.defined():
        if not (f.in_repo() or "spec_p07" in f.dem) or re.match(r"^(_GLOBAL__sub_I|__cxx_global_var_init)", f.name):
            continue
        if any(wide(a) for a in f.args) and f.qname not in PUBLISHED and "spec_p07" not in f.dem:
            continue
        out.append(f)
    return out


def run(prog, objects, f, judge, zs=None, tier="quick"):
    a = Intervals(prog, objects, FIELDS, MODELS, judge, opaque=opaque(prog), covered=covered)
    args = []
    for k in range(len(f.args)):
        v = a.arg(f, k)
        if atomic(f, k):
            v = Int(1, ZMAX) if zs is None else zs
        args.append(v)
    judge.at = "%s(%s)" % (f.qname, ", ".join("%s in %s" % (f.params[k][0] if k < len(f.params) else "#%d" % k, x) for k, x in enumerate(args)
                                              if isinstance(x, Int) and zs is not None))
    try:
        a.call(f, args, {})
    except iv.Dead:
        pass
    return a


def analyse(prog, objects, fs):
    """-> verdicts {(function, instruction, dimension): [...]} , steps, contexts"""
    total, steps, ctxs = {}, 0, 0
    for f in fs:
        j = Judge(prog)
        a = run(prog, objects, f, j)
        steps, ctxs = steps + a.steps, ctxs + a.contexts
        bad = [k for k, v in j.got.items() if not v[0]]
        if bad and any(atomic(f, k) for k in range(len(f.args))):
            # relations between the atomic number and what is looked up for it: one atomic number at a time
            j2 = Judge(prog)
            for z in [Int(z, z) for z in range(1, SPLIT)] + [Int(SPLIT, ZMAX)]:
                a = run(prog, objects, f, j2, z)
                steps, ctxs = steps + a.steps, ctxs + a.contexts
            j = j2
        for k, v in j.got.items():
            o = total.get(k)
            if o is None or o[0] and not v[0]:
                total[k] = v
    return total, steps, ctxs


def check(ctx):
    ctx.rule("array index", "the index lies inside the array for every value the analysis allows it at this place", 30)
    prog = ctx.prog(probes=["s07.cpp"])
    objects = grids(ctx, prog)
    ctx.require(objects, "no energy grid found")
    fs = roots(prog)
    total, steps, ctxs = {}, 0, 0
    for t, s, c in pmap(lambda n: analyse(prog, objects, fs[n::24]), range(24)):
        steps, ctxs = steps + s, ctxs + c
        for k, v in t.items():
            if k not in total or total[k][0] and not v[0]:
                total[k] = v
    ctx.require(sum(f.qname in PUBLISHED for f in fs) >= 15, "published functions not found")
    selftest = {}       # positive and negative examples of the analysis itself
    for (fn, ii, dim), (ok, v, cnt, at) in sorted(total.items(), key=str):
        f = prog.functions[fn]
        i = f.insts[ii]
        if "spec_p07" in f.dem:
            selftest[f.qname] = selftest.get(f.qname, True) and ok
            continue
        if not f.in_repo():
            continue
        var = i["op"] != "getelementptr" or i["idx"][dim][0][0] != "ci"
        if not var and ok:
            continue
        if dim == "extent" and i["op"] in ("load", "store") and not ok and any(k[0] == fn and not x[0] and k[2] != "extent" and x is not v and
                                                                               derived(f, i, k[1]) for k, x in total.items()):
            continue        # already reported at the index
        what = named(prog, f, i)
        ctx.ob("array index", "%s, access %d.%s%s" % (f.dem, ii, dim, " to " + what if what else ""), ok,
               ("index %s of an array of %d, reached from %s" if dim != "extent" else "byte position %s of an array of %d bytes, reached from %s") % (v, cnt, at), f.loc(i))
    ctx.require(len(selftest) == 8, "self test of the interval analysis incomplete (%d)" % len(selftest))
    for n, ok in selftest.items():
        ctx.require(ok != ("bad" in n), "self test of the interval analysis: %s judged %s" % (n, ok))
    ctx.count("root functions", len(fs))
    ctx.count("analysis contexts", ctxs)
    ctx.count("abstract instructions", steps)
    ctx.explain = "interval analysis with a not-a-number flag; every variable index of a fixed-size array"
