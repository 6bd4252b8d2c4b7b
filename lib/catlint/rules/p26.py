"""P26: kinematics and model functions are their published formulas."""
from .. import spec

UNITS = r"^catima::(gamma_from_T|beta_from_T|p_from_T|Ecm_from_T)\b"


def check(ctx):
    ctx.rule("kinematics", "velocity, momentum and powers follow from the energy per nucleon and the atomic mass unit", 5)
    ctx.rule("nuclear stopping", "reduced energy and nuclear stopping are the universal parametrisation", 2)
    ctx.rule("corrections", "Barkas effect, pair production and bremsstrahlung are their published formulas", 3)
    ctx.rule("density effect", "the density effect is Sternheimer's formula with the element's own parameters", 100)
    ctx.rule("lengths", "radiation and scattering lengths and scattering powers are their published formulas, for every element", 100)
    ctx.rule("low energy", "low-energy stopping of protons, helium and heavy ions is the published parametrisation", 14)
    ctx.rule("cross section", "the reaction cross section is Kox' parametrisation", 1)
    prog = ctx.prog(probes=["s26.cpp"])

    def S(ns, rule, *fl, **kw):
        spec.Specs(ctx, prog, "spec_p26_" + ns, [UNITS] + list(fl), **kw).decide(rule)
    S("kinematics", "kinematics")
    S("nuclear", "nuclear stopping", r"^catima::(dedx_n|reduced_energy_loss_unit)\(")
    S("corrections", "corrections", r"^catima::(bethek_barkas|pair_production|bremsstrahlung)\(")
    S("density", "density effect", r"^catima::bethek_density_effect\(")
    S("lengths", "lengths", r"^catima::(radiation_length\((int|double)|scattering_length\()", r"^catima::angular_scattering_power\(")
    S("low", "low energy", r"^catima::(p_se|p_se85|srim_dedx_e)\(")
    S("heavy", "low energy", r"^catima::srim_dedx_e\(")
    if any(f.dem.startswith("spec_p26_kox::") for f in prog.defined()):
        S("kox", "cross section", r"^catima::SigmaR_Kox\(")
