"""P15: the fields of a single-layer result are consistent with each other and with the tables."""
import re

from .. import spec, terms as tm
from ..interp import Analyzer
from ..terms import TRUE, FALSE, ZERO, const, band, bor, bnot, gt0, ge0, eq0, sub, neg, subst


def check(ctx):
    ctx.rule("single-layer", "statements relating the fields of a layer's result hold for every projectile, layer and configuration", 15)
    ctx.rule("exit-energy", "every value the exit-energy search can return is zero for a stopped particle, or solves the range "
             "equation and is not below the cut-off", 4)
    prog = ctx.prog(probes=["s15.cpp"])
    s = spec.Specs(ctx, prog, "spec_p15", follow=[r"^catima::calculate\(", r"^catima::get_\w+_spline\("])
    s.decide("single-layer")
    search(ctx, prog, s)


def search(ctx, prog, s):
    fs = [f for f in prog.defined() if f.qname == "catima::energy_out" and f.args[0]["ty"] == "double"]
    ctx.require(len(fs) == 1, "anchor not found: energy_out(T, thickness, range table)")
    f = fs[0]
    s.follow.append(re.compile(r"^catima::energy_out\(double"))
    an = s.analyzer()
    args = an.default_args(f)
    r = an.run(f, args)
    T, th, sp = args
    ev = [e.extra for e in an.events if e.extra is not None and e.extra.op == "call" and "operator()" in str(e.extra.a[0])]
    rg = [t for t in ev if t.a[2] is T]
    ctx.require(rg, "the range at the entry energy is not evaluated in energy_out")
    rng = rg[0]
    Ez, eps = [an.ginit(prog.globals[prog.glob(n)], 0, "double", 8) for n in ("catlint_ezero", "catlint_eps")]
    stops = bnot(gt0(sub(rng, th)))
    d = tm.differ(r.ret, ZERO, under=stops)
    ctx.ob("exit-energy", "range not longer than the layer", d is None, "returns %s" % tm.pretty(r.ret, 6)[:600], f.where())
    ctx.require(an.loops, "energy_out has no iteration")
    L = an.loops[-1]
    pre = bnot(stops)
    call = lambda e: tm.mk("call", rng.a[0], rng.a[1], e)
    # value returned through each exit of the iteration, in terms of the iteration's own variables
    inv = {fin: mu for key, mu, ini, nx, fin in L.recs}
    n = len(L.exit_guards)
    energies = [mu for key, mu, ini, nx, fin in L.recs] + [nx for key, mu, ini, nx, fin in L.recs]
    inv[L.trip] = L.k
    for j in range(n):
        m = {v: (TRUE if q == j else FALSE) for q, v in enumerate(L.via)}
        v = subst(r.ret, m)
        v = subst(v, inv)
        g = band(pre, L.exit_guards[j])
        zero = eq0(v)
        low = bor(*[gt0(sub(Ez, e)) for e in energies])
        giveup = ge0(sub(L.k, const(19)))
        residual = sub(sub(rng, call(v)), th)
        good = band(ge0(sub(v, Ez)), gt0(sub(eps, residual)), gt0(tm.add(eps, residual)))
        # any energy of the iteration may be the returned one: compare in every case
        okc = tm.bor(band(zero, low), good, band(gt0(neg(v)), giveup))
        bad = tm.differ(implies(g, okc), TRUE)
        ctx.ob("exit-energy", "exit %d of the search" % (j + 1), bad is None, "" if bad is None else
               "returns %s when\n  %s" % (tm.pretty(v, 8)[:600], "\n  ".join(c[:400] for c in bad.conditions()[-8:])), L.loc)


def implies(a, b):
    return bor(bnot(a), b)
