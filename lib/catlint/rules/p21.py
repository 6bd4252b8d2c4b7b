"""P21: list, single-energy and short forms of a function agree."""
from .. import spec, values


def check(ctx):
    ctx.rule("list", "a list function returns one element per energy, equal to the single-energy result", 4)
    ctx.rule("derived", "functions defined through another one (root of a variance, slope of a table, layer of the equivalent "
             "thickness) equal that expression", 10)
    ctx.rule("short", "short forms equal the full form with the documented defaults", 20)
    prog = ctx.prog(probes=["s21.cpp"])
    follow = [r"^catima::get_\w+_spline\("]
    spec.Specs(ctx, prog, "spec_p21_list", follow + [r"^catima::(energy_out|dedx_from_range)\(catima::Projectile"],
               models=values.SEQ).decide("list")
    spec.Specs(ctx, prog, "spec_p21_root", follow + [
        r"^catima::(range_straggling|range_variance|angular_straggling|dedx_from_range|range|domega2de|da2de|get_data"
        r"|energy_straggling_from_E|angular_straggling_from_E|energy_out)\(catima::Projectile", r"^catima::(non)?reaction_rate\(double"]).decide("derived")
    spec.Specs(ctx, prog, "spec_p21_short", [
        r"^catima::calculate\(catima::Projectile, catima::Material const&, double,",
        r"^catima::calculate\(double,", r"^catima::calculate\(catima::Projectile, double,",
        r"^catima::calculate\(catima::Projectile const&, catima::Layers"]).decide("short")
