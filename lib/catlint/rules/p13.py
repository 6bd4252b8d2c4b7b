"""P13: every switch of the configuration selects its own model."""
from .. import spec

UNITS = r"^catima::(i?pow|power|gamma_from_T|beta_from_T|p_from_T|Tfr)\b"


def check(ctx):
    ctx.rule("effective charge", "each option evaluates its own formula with the quantities that formula expects", 6)
    ctx.rule("charge formulas", "each effective-charge function is its published formula", 5)
    ctx.rule("corrections", "the high-energy stopping power under each of the 16 combinations of switched-off corrections is the Bethe "
             "formula with exactly the remaining corrections", 16)
    ctx.rule("straggling", "each straggling option evaluates its own formula", 2)
    ctx.rule("low energy", "each low-energy option evaluates its own parametrisation", 3)
    ctx.rule("scattering", "each scattering option evaluates its own formula", 4)
    prog = ctx.prog(probes=["s13.cpp"])
    S = lambda ns, *fl: spec.Specs(ctx, prog, "spec_p13_" + ns, [UNITS] + list(fl))
    S("charge", r"^catima::z_effective\(").decide("effective charge")
    S("formula", r"^catima::z_eff_").decide("charge formulas", label="formula")
    S("bethe", r"^catima::bethek_dedx_e\(.*catima::Target const&").decide("corrections")
    S("straggling", r"^catima::dedx_variance\(", r"^catima::energy_straggling_firsov").decide("straggling")
    S("low", r"^catima::sezi_dedx_e\(").decide("low energy")
    S("srim", r"^catima::srim_dedx_e\(").decide("low energy")
    S("scattering", r"^catima::(da2dx|angular_variance|angular_scattering_power_xs)\(").decide("scattering")
