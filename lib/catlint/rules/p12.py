"""P12: the table spline."""
import re

from .. import spec, terms as tm, values
from . import p07


def build(an, fr, i, g, args, mem):
    """a spline is known by its grid and its table"""
    an.store(mem, args[0], tm.leaf("spline", *[tm.num(a) for a in args[1:]]))


def use(an, fr, i, g, args, mem):
    return tm.leaf(g.qname.split("::")[-1], an.load(mem, args[0], "ptr", 8), tm.num(args[1]))


SPLINE = {r"re:^catima::cspline_special<.*>::cspline_special\(.*vector": build, r"re:cspline_special<.*>::(evaluate|deriv)\(": use}


def check(ctx):
    ctx.rule("node", "the spline has the tabulated value at every node", 15)
    ctx.rule("smooth", "value, slope and curvature of the pieces agree where they meet", 25)
    ctx.rule("derivative", "the derivative function is the derivative of the value function in every piece", 12)
    ctx.rule("extrapolation", "outside the table the spline continues with the end value and slope, and the derivative function follows it", 32)
    ctx.rule("interpolator", "the interpolator evaluates the spline of its own table", 3)
    ctx.rule("position", "the piece used is the one whose nodes enclose the argument, for every interval of the grid", 1)
    prog = ctx.prog(probes=["s12.cpp"])

    def rule(n):
        return {"nodes": "node", "value": "smooth", "slope": "smooth", "curvature": "smooth", "derivative": "derivative",
                "left": "extrapolation", "right": "extrapolation"}[n.split("_")[0]]
    look = [r"^(double& |double )?(catima::)?(cspline_special|tridiagonal_matrix)<", r"tridiagonal_matrix<\d+>::", r"cspline_special<.*Grid<", r"spec_p12"]
    spec.Specs(ctx, prog, "spec_p12", look, models=values.SEQ, peel=16).decide(rule)
    spec.Specs(ctx, prog, "spec_p12_interpolator", [r"InterpolatorCSpline<", r"EnergyTable<\d+>::operator"],
               models=SPLINE).decide("interpolator")
    ctx.assume("the spline code is the same for every number of nodes; decided for 3, 4, 5 and 7 nodes with uneven steps and any values")
    p07.positions(ctx, prog, {n: o for n, o in p07.grids(ctx, prog).items() if "ls_" not in n}, "position")
