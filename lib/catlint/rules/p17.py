"""P17: quantities of a material are sums over its components."""
from .. import spec, values


def check(ctx):
    ctx.rule("mixing", "the material's value is the weight-fraction sum of the component values, for any number of components", 6)
    ctx.rule("parts", "weights, amounts and molar mass follow from the components as given", 8)
    prog = ctx.prog(probes=["s17.cpp"])
    spec.Specs(ctx, prog, "spec_p17", [
        r"^catima::(dedx_n|bethek_dedx_e|sezi_dedx_e|domega2dx|radiation_length|scattering_length|dedx)\(.*catima::Material const&",
        r"^catima::angular_scattering_power\(", r"^catima::i?pow"]).decide("mixing")
    spec.Specs(ctx, prog, "spec_p17_parts", [r"^catima::Material::"], models=values.SEQ, materials=False, peel=8).decide("parts")
