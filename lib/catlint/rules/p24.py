"""P24: tabulated ranges, stragglings and flight times are running integrals over the energy grid."""
from .. import spec, values


def check(ctx):
    ctx.rule("tables", "each table step is the integral of its rate between the two grid energies, for every grid point", 4)
    prog = ctx.prog(probes=["s24.cpp"])
    spec.Specs(ctx, prog, "spec_p24", [r"^catima::calculate_DataPoint\(", r"^catima::calculate_tof\(", r"^catima::da2de\(catima::Projectile const&, catima::Material",
                                       r"^catima::EnergyTable<\d+>::operator"], models=values.SEQ, peel=650).decide("tables")
