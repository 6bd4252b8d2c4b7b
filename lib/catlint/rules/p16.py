"""P16: totals of a stack are composed from its layers in order."""
from .. import spec, values
from ..effects import Effects, pmatch


def check(ctx):
    ctx.rule("totals", "every total equals its composition rule over the layers, for any number of layers", 8)
    ctx.rule("layers", "the n-th reported result is the layer's result at the exit energy of the layers before it", 4)
    ctx.rule("stack", "combining stacks and materials keeps every layer, in order", 8)
    ctx.rule("iteration", "a list is not changed while a loop holds a position in it, even if both arguments are the same object", 4)
    prog = ctx.prog(probes=["s16.cpp"])
    s = spec.Specs(ctx, prog, "spec_p16", [
        r"^catima::calculate\(catima::Projectile const&, catima::Phasespace const&",
        r"^catima::calculate\(catima::Projectile, catima::Material const&, double,"], models=values.SEQ)
    s.decide(lambda n: "layers" if "layer" in n else "totals")
    spec.Specs(ctx, prog, "spec_p16_stack", [r"^catima::operator\+\(", r"^catima::Layers::"], models=values.SEQ).decide("stack")
    iteration(ctx, prog)


def cls(prog, f, k):
    if k >= len(f.params) or f.params[k][1] is None:
        return None
    t = prog.pointee(f.params[k][1])
    return prog.types[t]["name"] if t is not None and t >= 0 else None


def iteration(ctx, prog):
    ef = Effects(prog)
    for f in prog.defined():
        if not f.in_repo():
            continue
        f.cfg()
        S = ef.frames[f.name]
        for h, loop in sorted(f.loops.items()):
            inside = {i["id"] for b in loop.blocks for i in f.blocks[b] if "id" in i}
            held = set()
            for b in loop.blocks:
                for i in f.blocks[b]:
                    ops = list(i.get("ops", ())) + list(i.get("args", ())) + ([i["base"]] if "base" in i else [])
                    if i["op"] == "phi" and b == h:
                        ops = [["i", i["id"]]]
                    for o in ops:
                        if o[0] != "i" or o[1] in inside and not (i["op"] == "phi" and b == h):
                            continue
                        held |= ef.val(o, S)
                        d = f.insts.get(o[1], {})
                        if d.get("op") == "alloca" and "iterator" in d.get("aty", ""):
                            held |= S.loads(ef.val(o, S))
            held = {v for v in held if v[0][0] == "p" and len(v[1]) > 1}
            if not held:
                continue
            bad = []
            for (b, p), loc in ef.loop_writes(f, loop.blocks).items():
                for (b2, q) in held:
                    if b[0] == "p" and len(p) < len(q) and pmatch(p, q[:len(p)]) and (b == b2 or cls(prog, f, b[1]) and cls(prog, f, b[1]) == cls(prog, f, b2[1])):
                        bad.append("the list of %s is walked through while %s is changed at %s" % (f.params[b2[1]][0], f.params[b[1]][0], loc))
            ctx.ob("iteration", "%s, loop at %s" % (f.dem, f.loc(f.blocks[h][-1])), not bad, bad[0] if bad else "", f.loc(f.blocks[h][-1]))
