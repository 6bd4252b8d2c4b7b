"""P08: the material database."""
import re

from .. import ast, spec, terms as tm, values
from ..build import CheckError
from ..interp import Analyzer
from ..report import pmap
from ..terms import add, const, leaf

SYM = ("H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd "
       "Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra "
       "Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr").split()
Z = {s: i + 1 for i, s in enumerate(SYM)}
W = {"H": 1.008, "C": 12.011, "N": 14.007, "O": 15.999, "S": 32.06, "Ca": 40.078, "Ar": 39.948, "F": 18.998, "Cl": 35.45}
# compounds with a fixed molecular formula whose identifier is a name
NAMED = {
    "Water": "H2O", "Diamond": "C", "lH2": "H2", "lD2": "H2", "Isobutane": "C4H10", "Mylar": "C10H8O4", "P10": "Ar9CH4", "Polyolefin": "CH2",
    "Methane": "CH4", "Methanol": "CH4O", "Acetone": "C3H6O", "Acetylene": "C2H2", "Adenine": "C5H5N5", "Alanine": "C3H7NO2",
    "Ammonia": "NH3", "Aniline": "C6H7N", "Anthracene": "C14H10", "Benzene": "C6H6", "BGO": "Bi4Ge3O12", "nButanol": "C4H10O",
    "Tetrachloroethylene": "C2Cl4", "Cellophane": "C6H10O5", "Chlorobenzene": "C6H5Cl", "Chloroform": "CHCl3", "Cyclohexane": "C6H12",
    "Diethyl_Ether": "C4H10O", "Ethane": "C2H6", "Ethanol": "C2H6O", "Ethylene": "C2H4", "Freon_12": "CCl2F2", "Freon_12B2": "CBr2F2",
    "Freon_13": "CClF3", "Freon_13B1": "CBrF3", "Freon_13I1": "CF3I", "Glucose": "C6H12O6", "Glutamine": "C5H10N2O3",
    "Glycerol": "C3H8O3", "Guanine": "C5H5N5O", "Gypsum": "CaSO6H4", "nHeptane": "C7H16", "nHexane": "C6H14", "Naphthalene": "C10H8",
    "Nitrobenzene": "C6H5NO2", "Octane": "C8H18", "Paraffin": "C25H52", "nPentane": "C5H12", "Polyacrylonitrile": "C3H3N",
    "Polycarbonate": "C16H14O3", "PMMA": "C5H8O2", "POM": "CH2O", "Polypropylene": "C3H6", "Polystyrene": "C8H8", "Propane": "C3H8",
    "nPropanol": "C3H8O", "PVC": "C2H3Cl", "Pyridine": "C5H5N", "Sucrose": "C12H22O11", "Teflon": "C2F4", "Toluene": "C7H8",
    "Trichloroethylene": "C2HCl3", "Urea": "CH4N2O", "Valine": "C5H11NO2", "Iodonaphthalene": "C10H7I", "Nylon": "C6H11NO",
    "LLZO_electrolyte": "Li7La3Zr2O12", "Kapton": "C22H10N2O5", "Bakelite": "C43H38O7", "Amber": "C10H16O", "Plastics": "C9H10",
}


def formula(s):
    """{Z: count} of a chemical formula, None if the text is not one"""
    if not re.fullmatch(r"(?:[A-Z][a-z]?\d*)+", s):
        return None
    d = {}
    for e, n in re.findall(r"([A-Z][a-z]?)(\d*)", s):
        if e not in Z:
            return None
        d[Z[e]] = d.get(Z[e], 0) + int(n or 1)
    return d if sum(d.values()) > 1 else None


def material(prog, f, id):
    """(density, [(A, Z, amount)], mean excitation, molar mass, analyzer) of the material returned for an identifier"""
    an = Analyzer(prog, models=values.SEQ)
    an.peel, an.tables = 64, True
    o = leaf("obj", "probe", "material")
    an.ptrs.add(o.id)
    r = an.run(f, args=[o, const(id)])
    b, e, c, mm = values.offsets(prog)
    fo = {n.split(".")[-1]: off for off, s, n, _ in prog.flat(prog.type_by_name("Material"))}
    ti = prog.resolve_decl(prog.type_by_name("Target"))
    to = {n.split(".")[-1]: (off, s) for off, s, n, _ in prog.flat(ti)}
    at = lambda x, ty="double", s=8: an.load(r.mem, x, ty, s)
    num = lambda t: t.a[0] if t.op == "c" else None
    beg, end = at(add(o, const(b)), "ptr"), at(add(o, const(e)), "ptr")
    n = num(tm.sub(end, beg))
    if n is None:
        raise CheckError("the composition of material %d is not a constant: %s" % (id, tm.pretty(end)))
    sz = prog.types[ti]["size"]
    comp = []
    for j in range(int(n) // sz):
        v = [num(at(add(beg, const(j * sz + to[k][0])), "i32" if to[k][1] == 4 else "double", to[k][1])) for k in ("A", "Z", "stn")]
        if any(x is None for x in v):
            raise CheckError("a component of material %d is not a constant" % id)
        comp.append(tuple(v))
    rest = [num(at(add(o, const(fo[k])))) for k in ("rho", "i_potential", "molar_mass")]
    if any(x is None for x in rest):
        raise CheckError("density, excitation energy or mass of material %d is not a constant" % id)
    return rest[0], comp, rest[1], rest[2], an.callsites


def put(an, mem, prog, o, m):
    """a material with constant contents in memory"""
    b, e, c, mm = values.offsets(prog)
    fo = {n.split(".")[-1]: off for off, s, n, _ in prog.flat(prog.type_by_name("Material"))}
    ti = prog.resolve_decl(prog.type_by_name("Target"))
    to = {n.split(".")[-1]: (off, s) for off, s, n, _ in prog.flat(ti)}
    sz = prog.types[ti]["size"]
    v = leaf("vecdata", o)
    for x in (o, v):
        an.ptrs.add(x.id)
    for k, x in (("rho", m[0]), ("i_potential", m[2]), ("molar_mass", m[3]), ("th", 0)):
        an.store(mem, add(o, const(fo[k])), const(x))
    end = add(v, const(sz * len(m[1])))
    an.ptrs.add(end.id)
    for k, x in ((b, v), (e, end), (c, end)):
        an.store(mem, add(o, const(k)), x)
    for j, (A, zz, s) in enumerate(m[1]):
        for k, x in (("A", A), ("Z", zz), ("stn", s)):
            an.store(mem, add(v, const(j * sz + to[k][0])), const(x), to[k][1])


def check(ctx):
    ctx.rule("compound", "the identifier yields a material with positive density and known, distinct elements, as whole-number counts or as "
             "weight fractions totalling one", 100)
    ctx.rule("element", "an element number yields that element with its atomic weight and a positive density", 80)
    ctx.rule("unknown", "an unknown identifier yields a material without components", 4)
    ctx.rule("formula", "the composition is the chemical formula of the identifier", 60)
    ctx.rule("export", "the material is found again under an identifier of the same material", 100)
    prog = ctx.prog(probes=["s08.cpp"])
    f = [g for g in prog.defined() if g.dem == "catima::get_material(int)"]
    if len(f) != 1:
        raise CheckError("the function yielding a material for a number was not found")
    f = f[0]
    ids = dict(prog.enum("material") or {})
    ctx.require(len(ids) >= 100, "fewer than 100 material identifiers: %d" % len(ids))
    comp = [g for g in prog.defined() if re.match(r"^catima::get_compound\(", g.dem)]
    loc = (comp or [f])[0].where()
    todo = sorted(set(ids.values())) + list(range(1, 99)) + [0, -1, 150, max(ids.values()) + 1, 100000]
    mats = dict(zip(todo, pmap(lambda i: material(prog, f, i), todo)))
    ctx.count("materials_extracted", len(todo))
    ctx.count("call_sites_followed", sum(m[4] for m in mats.values()))
    wt = {z: mats[z][1][0][0] for z in range(1, 99) if mats[z][1]}
    for n, i in sorted(ids.items(), key=lambda x: x[1]):
        rho, c, ip, mm, _ = mats[i]
        bad = []
        if not c:
            bad.append("it has no components")
        if rho <= 0:
            bad.append("density %s" % float(rho))
        zs = [int(x[1]) for x in c]
        if len(set(zs)) != len(zs):
            bad.append("an element is listed twice: %s" % zs)
        if any(z < 1 or z not in wt for z in zs):
            bad.append("unknown element in %s" % zs)
        else:
            for A, z, s in c:
                if abs(A - wt[z]) > 0.05 * wt[z] and not (z == 1 and 0.9 < A < 3.1):
                    bad.append("mass %s of element %d" % (float(A), z))
        st = [x[2] for x in c]
        if any(x <= 0 for x in st):
            bad.append("amounts that are not positive")
        elif all(x < 1 for x in st):
            if abs(sum(st) - 1) > 1e-4:
                bad.append("weight fractions total %s" % float(sum(st)))
        elif any(x.denominator != 1 for x in st):
            bad.append("neither counts nor fractions: %s" % [float(x) for x in st])
        ctx.ob("compound", n, not bad, "; ".join(bad), loc)
        want = formula(NAMED.get(n, n))
        if n == "Diamond":
            want = {6: 1}
        if want:
            got = {}
            for A, z, s in c:
                got[int(z)] = got.get(int(z), 0) + s
            if st and all(x < 1 for x in st):
                tot = sum(wt[z] * k for z, k in want.items())
                ok = set(got) == set(want) and all(abs(float(got[z]) - float(wt[z] * k / tot)) < 5e-4 for z, k in want.items())
            else:
                k0 = next(iter(want))
                ok = set(got) == set(want) and all(got[z] * want[k0] == got[k0] * want[z] for z in want)
            ctx.ob("formula", n, ok, "composition %s instead of %s" % ({SYM[z - 1]: float(v) for z, v in got.items() if 0 < z <= len(SYM)},
                                                                  {SYM[z - 1]: v for z, v in want.items()}), loc)
    for z in range(1, 99):
        rho, c, ip, mm, _ = mats[z]
        ok = len(c) == 1 and c[0][1] == z and rho > 0 and c[0][2] > 0 and c[0][0] > 0
        ctx.ob("element", SYM[z - 1], ok, "density %s, components %s" % (float(rho), [[float(y) for y in x] for x in c]), f.where())
    for i in (0, -1, 150, max(ids.values()) + 1, 100000):
        ctx.ob("unknown", str(i), not mats[i][1], "yields components %s" % [[float(y) for y in x] for x in mats[i][1]], f.where())
    export(ctx, prog, ids, mats)


def export(ctx, prog, ids, mats):
    one = lambda n: [g for g in prog.defined() if g.dem.startswith("spec_p08::%s(" % n)][0]
    fid, fsame = one("exported_"), one("same_")
    b, e, c, mm = values.offsets(prog)
    spec.Specs(ctx, prog, "spec_p08", [r"mocadi", r"^catima::Material::"]).decide("export", label="match")
    keys = sorted(set(ids.values()))

    def same(a, b_):
        an = Analyzer(prog, models=values.SEQ)
        an.peel, an.tables = 64, True
        from ..interp import Mem
        mem = Mem()
        x, y = leaf("obj", "probe", "a"), leaf("obj", "probe", "b")
        put(an, mem, prog, x, mats[a])
        put(an, mem, prog, y, mats[b_])
        r = an.run(fsame, args=[x, y], mem=mem).ret
        r = r if tm.is_bool(r) else tm.tobool(r)
        if r not in (tm.TRUE, tm.FALSE):
            raise CheckError("comparison of materials %d and %d is not decided: %s" % (a, b_, tm.pretty(r)[:300]))
        return r is tm.TRUE

    def search(i):
        """identifier exported for the material of identifier i"""
        MARK = 10 ** 9

        def get(an, fr, ins, g, args, mem):
            if args[-1].op != "c":
                return NotImplemented
            an.store(mem, add(args[0], const(0)), const(MARK + int(args[-1].a[0])))
            for k in (b, e, c):
                an.store(mem, add(args[0], const(k)), tm.ZERO)
            return None

        def match(an, fr, ins, g, args, mem):
            k = [an.load(mem, x, "double", 8) for x in args[:2]]
            k = [int(x.a[0]) - MARK for x in k if x.op == "c" and x.a[0] >= MARK - 10]
            if len(k) != 1:
                return NotImplemented
            return tm.TRUE if k[0] in mats and mats[k[0]][1] and same(k[0], i) else tm.FALSE
        an = Analyzer(prog, models=dict(values.SEQ, **{
            "re:^catima::get_(material|compound)\\(": get,
            r"re:^.*\((catima::)?Material const&, (catima::)?Material const&\)$": match}))
        an.peel, an.tables = 4096, True
        r = an.run(fid).ret
        if r.op != "c":
            raise CheckError("the exported identifier is not decided: %s" % tm.pretty(r)[:300])
        return int(r.a[0])
    where = [g.where() for g in prog.defined() if re.match(r"^materialdb_id|^catima::materialdb_id", g.dem)]
    for i, got in zip(keys, pmap(search, keys)):
        n = [k for k, v in ids.items() if v == i][0]
        ok = got == i or got in mats and mats[got][:2] == mats[i][:2]
        ctx.ob("export", n, ok, "exported as %d instead of %d" % (got, i), (where or ["include/catima/convert.h"])[0])
