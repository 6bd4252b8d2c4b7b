"""P25: stand-alone functions evaluate the same tables, integrals and rates as full calculations."""
from .. import spec, values

PLAIN = [r"^catima::(range|dedx_from_range|range_variance|range_straggling|domega2de|da2de|da2dx|energy_straggling_from_E|angular_straggling|"
         r"angular_straggling_from_E|calculate_tof_from_E|w_magnification)\(", r"^catima::energy_out\(catima::Projectile", r"^catima::get_\w+_spline\(",
         r"^catima::Material::thickness"]
SCATTER = [r"^catima::(angular_variance|Tfr)\(", r"^catima::get_\w+_spline\("]
REACT = [r"^catima::(reaction_rate|nonreaction_rate|production_rate)\(", r"^catima::get_\w+_spline\("]


def check(ctx):
    ctx.rule("table use", "a function returning one quantity reads it from the table of its projectile, material and configuration", 12)
    ctx.rule("scattering", "moments of the scattering angle integrate the chosen scattering power over the path travelled", 9)
    ctx.rule("reactions", "survival and production follow the attenuation law with the layer's areal density", 8)
    statements(ctx, ctx.prog(probes=["s25.cpp"]))


def statements(ctx, prog, models=None, label=None, rule=None):
    m = dict(values.SEQ)
    m.update(models or {})
    spec.Specs(ctx, prog, "spec_p25", PLAIN, models=m, opaque=[r"^catima::angular_variance\("]).decide(rule or "table use", label=label)
    spec.Specs(ctx, prog, "spec_p25_width", PLAIN, models=m, peel=8).decide(rule or "table use", label=label)
    spec.Specs(ctx, prog, "spec_p25_scattering", SCATTER, models=models).decide(rule or "scattering", label=label)
    spec.Specs(ctx, prog, "spec_p25_reactions", REACT, models=models).decide(rule or "reactions", label=label)
