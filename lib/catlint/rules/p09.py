"""P09: the built-in element and isotope data agree with each other."""
import math

from .. import terms as tm
from ..build import CheckError
from ..interp import Analyzer
from ..masses import atomic_mass
from ..report import pmap
from ..terms import const, leaf

NZ, NI = 98, 109            # elements with density and isotopes: what the accessors are documented to cover
# elements whose density-effect data were published for another form of the element, or not at all
OTHER_FORM = {6: "graphite, the density is that of amorphous carbon", 35: "vapour, the density is that of the liquid",
              85: "estimated, no published data", 87: "estimated, no published data", 98: "no published data, those of berkelium are used"}

# published atomic weights that were revised or vary in nature by more than the general tolerance
REVISED = {30: 0.035, 32: 0.035, 34: 0.015, 42: 0.025, 62: 0.012, 70: 0.012, 80: 0.012, 82: 0.1}


def mass(a, z):
    """nuclide mass from the semi-empirical mass formula, good to a few hundredths of a mass unit"""
    n = a - z
    b = 15.75 * a - 17.8 * a ** (2 / 3) - 0.711 * z * (z - 1) / a ** (1 / 3) - 23.7 * (a - 2 * z) ** 2 / a
    if a % 2 == 0:
        b += 11.18 / a ** 0.5 * (1 if z % 2 == 0 else -1)
    return z * 1.007825 + n * 1.008665 - b / 931.494


def check(ctx):
    ctx.rule("isotopes", "isotopes of the element are distinct, sorted by abundance, total one and average to the atomic weight", 100)
    ctx.rule("isotope pairs", "the combined accessor gives the same mass number and abundance as the single ones", 100)
    ctx.rule("no element", "outside the table there are no isotopes and no data", 4)
    ctx.rule("element data", "density and ionisation potential are positive and plausible, and consistent with the density-effect data", 90)
    ctx.rule("onset", "the density effect is continuous at every switch between its forms", 90)
    ctx.rule("high energy", "far above its onset the density effect grows with the slope of its limit", 90)
    prog = ctx.prog(probes=["s09.cpp"])
    fs = {f.qname.split("::")[-1]: f for f in prog.defined() if f.dem.startswith("spec_p09::")}

    def val(n, *a):
        an = Analyzer(prog)
        an.tables = True
        t = an.run(fs[n + "_"], args=[const(x) for x in a]).ret
        if t is None or t.op != "c":
            raise CheckError("%s%s is not a constant: %s" % (n, a, tm.pretty(t)[:200] if t is not None else None))
        return float(t.a[0])
    src = lambda n: [g.where() for g in prog.defined() if g.qname.split("::")[-1] == n][0]

    def isotopes(z):
        n = int(val("number", z))
        return n, [(val("isotope", z, i), val("abundance", z, i), val("pair_isotope", z, i), val("pair_abundance", z, i)) for i in range(n)], val("weight", z)
    for z, (n, l, w) in zip(range(1, NI + 1), pmap(isotopes, range(1, NI + 1))):
        bad = []
        if n < 1:
            bad.append("no isotopes")
        a, b = [x[0] for x in l], [x[1] for x in l]
        if len(set(a)) != n:
            bad.append("an isotope is listed twice")
        if any(x < z or x > 3 * z + 2 for x in a):
            bad.append("impossible mass number in %s" % a)
        if any(x <= 0 for x in b):
            bad.append("an abundance is not positive")
        if any(b[i] < b[i + 1] for i in range(n - 1)):
            bad.append("abundances not in falling order: %s" % b)
        if n and abs(sum(b) - 1) > 2e-4:
            bad.append("abundances total %g" % sum(b))
        known = all(atomic_mass(x, z) is not None for x in a)
        mean = sum((atomic_mass(x, z) if known else mass(x, z)) * y for x, y in zip(a, b))
        ctx.count("elements_with_measured_masses", int(known))
        if abs(mean - w) > (REVISED.get(z, 0.006) if known else 0.045):
            bad.append("mean mass %.3f against atomic weight %.3f" % (mean, w))
        ctx.ob("isotopes", "Z=%d" % z, not bad, "; ".join(bad), src("get_isotope_a"))
        ctx.ob("isotope pairs", "Z=%d" % z, all(x[0] == x[2] and x[1] == x[3] for x in l), "pairs %s" % [x[2:] for x in l], src("get_isotope"))
        ctx.count("isotopes", n)
    for z, i in ((0, 0), (-1, 0), (NI + 1, 0), (6, -1), (6, 2), (NI, 1)):
        v = [val(n, z, i) for n in ("isotope", "abundance", "pair_isotope", "pair_abundance")] + ([val("number", z)] if i == 0 else [])
        ctx.ob("no element", "Z=%d, isotope %d" % (z, i), not any(v), "values %s" % v, src("get_isotope_a"))
    for z in (0, -1, 200):
        v = [val(n, z) for n in ("weight", "density", "ionisation")]
        ctx.ob("no element", "Z=%d data" % z, not any(v), "values %s" % v, src("ipot"))

    def effect(z):
        an = Analyzer(prog)
        an.tables = True
        beta = leaf("arg", "beta")
        t = an.run(fs["density_effect_"], args=[const(z), beta]).ret
        return switches(t, beta)
    zs = list(range(1, NZ + 1))
    for z, (roots, slope, c) in zip(zs, pmap(effect, zs)):
        where = src("bethek_density_effect")
        ctx.ob("onset", "Z=%d" % z, len(roots) >= 1 and all(abs(lo - hi) < 2e-3 for x, lo, hi in roots),
               "; ".join("at log10(beta*gamma)=%.4f it goes from %.5g to %.5g" % r for r in roots), where)
        ctx.ob("high energy", "Z=%d" % z, abs(slope - 2 * math.log(10)) < 2e-3, "slope %g" % slope, where)
        w, d, ip = val("weight", z), val("density", z), val("ionisation", z)
        bad = []
        if not 1e-5 < d < 25:
            bad.append("density %g" % d)
        if not 8 < ip / z < 21.5:
            bad.append("ionisation potential %g" % ip)
        if not bad:
            # limit of the density effect: plasma energy from density, atomic number and weight
            lim = 1 + 2 * math.log(ip / (28.816 * math.sqrt(d * z / w)))
            if z not in OTHER_FORM and abs(lim - c) > 0.05:
                bad.append("ionisation potential %g, density %g and weight %g give the limit %.4f, the density-effect data %.4f" % (ip, d, w, lim, c))
            if z == 6 and abs(lim - c) > 0.25:
                bad.append("limit %.4f against %.4f" % (lim, c))
        ctx.ob("element data", "Z=%d" % z, not bad, "; ".join(bad), src("element_density"))
    for z in range(NZ + 1, 121):
        ip = val("ionisation", z)
        ctx.ob("element data", "Z=%d ionisation" % z, 8 < ip / z < 21.5, "ionisation potential %g" % ip, src("ipot"))


def switches(t, beta):
    """([(x, value below, value above)], slope and constant of the high-energy form) of the correction as function of
    x = log10(beta*gamma), from its formula"""
    def at(x):
        g = 10.0 ** x
        return tm.feval(t, {beta.id: g / math.sqrt(1 + g * g)})
    atoms = set()

    def walk(u, seen=set()):
        if isinstance(u, tuple):
            for y in u:
                walk(y, seen)
        elif isinstance(u, tm.T) and u.id not in seen:
            seen.add(u.id)
            if u.op in ("gt", "eq"):
                atoms.add(u)
            walk(u.a, seen)
    walk(t, set())
    roots = set()
    for u in atoms:
        e = lambda x: tm.feval(u.a[0], {beta.id: 10.0 ** x / math.sqrt(1 + 10.0 ** (2 * x))})
        lo, hi = -6.0, 6.5
        if (e(lo) > 0) == (e(hi) > 0):
            continue
        up = e(hi) > 0
        for _ in range(80):
            m = (lo + hi) / 2
            if (e(m) > 0) == up:
                hi = m
            else:
                lo = m
        roots.add(round(lo, 9))
    big = 6.0
    slope = (at(big) - at(big - 1))
    return [(r, at(r - 1e-7), at(r + 1e-7)) for r in sorted(roots)], slope, slope * big - at(big)
