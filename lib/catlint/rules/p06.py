"""P06: every C function computes what the C++ function of the same name computes."""
import re

from .. import ast, terms as tm, values
from ..interp import Analyzer
from ..terms import add, const, leaf

# parameters a C++ function does not use because the quantity is passed separately
UNUSED = {"range": {"Material": ("th",)},
          "range_straggling": {"Projectile": ("T",), "Material": ("th",)},
          "angular_straggling_from_E": {"Material": ("th",)},
          "energy_straggling_from_E": {"Projectile": ("T",), "Material": ("th",)}}


class Calls(Analyzer):
    def contents(self, g, n, a, mem):
        v = super().contents(g, n, a, mem)
        if g is None or not isinstance(v, tm.T) or v.op != "agg":
            return v
        ty = g.params[n][1]
        pt = self.prog.pointee(ty)
        if pt is None:
            pt = self.prog.strip(ty)
        cls = self.prog.types[self.prog.resolve_decl(pt)]["name"]
        skip = UNUSED.get(g.qname.split("::")[-1], {}).get(cls)
        if not skip:
            return v
        names = [nm for o, s, nm, _ in self.prog.flat(self.prog.resolve_decl(pt)) if not nm.endswith("_M_end_of_storage")]
        return tm.mk("agg", *[tm.ZERO if nm in skip else x for nm, x in zip(names, v.a)])


def check(ctx):
    ctx.rule("forwarding", "each C function returns the C++ result for the projectile, energy, target and settings named by its arguments", 8)
    ctx.rule("fields", "each field of the C result is the C++ result field of the same name", 10)
    ctx.rule("options", "the C effective-charge constants have the values of the C++ constants of the same name", 5)
    prog = ctx.prog(probes=["cref.cpp"])
    api = ast.declared(prog.data["flags"])
    free = {m for m, v in api.items() if v["name"].count("::") == 1}

    def opaque(g):
        return g.name in free

    refs = {f.qname.split("::")[-1]: f for f in prog.defined()
            if f.dem.startswith("catlint_ref::") and f.qname.split("::")[-1] not in ("target", "settings", "ion")}
    impl = {f.name: f for f in prog.defined() if f.name in refs}
    ctx.require(len(refs) >= 8, "reference functions missing")
    hdr = [m for m, v in api.items() if (v["file"] or "").endswith("cwrapper.h")]
    ctx.count("functions_in_C_header", len(hdr), add=False)
    for m in hdr:
        if m not in refs:
            ctx.notes.append("C function %s has no stated meaning" % m)
    for n, r in sorted(refs.items()):
        f = impl.get(n)
        if f is None:
            ctx.require(False, "C function %s not found" % n)
        out = []
        for h in (f, r):
            an = Calls(prog, opaque_if=opaque, models=values.MODELS)
            args = an.default_args(h, "")
            k = 1 if "sret" in h.args[0] else 0
            args[k:] = [leaf("arg", n) for n, _ in r.params[1 if "sret" in r.args[0] else 0:]]
            res = an.run(h, args)
            out.append((an, args, res))
            ctx.count("call_sites_followed", an.callsites)
        (a1, g1, r1), (a2, g2, r2) = out
        if f.args and "sret" in f.args[0]:
            fl1 = {nm: o for o, s, nm, _ in prog.flat(a1.names[g1[0].id])}
            fl2 = {nm: o for o, s, nm, _ in prog.flat(a2.names[g2[0].id])}
            call2 = None
            ok_all = True
            for nm, o in sorted(fl1.items(), key=lambda x: x[1]):
                ctx.require(nm in fl2, "C result field %s has no C++ counterpart" % nm)
                v1 = a1.load(r1.mem, add(g1[0], const(o)), "double", 8)
                v2 = a2.load(r2.mem, add(g2[0], const(fl2[nm])), "double", 8)
                d = tm.differ(v1, v2)
                # told apart: the right call but the wrong field
                ctx.ob("fields", nm, d is None, "" if d is None else
                       "is %s\ninstead of %s" % (tm.pretty(v1, 7)[:700], tm.pretty(v2, 7)[:700]), f.where())
                ok_all = ok_all and d is None
            ctx.ob("forwarding", n, ok_all, "" if ok_all else "see the fields of the result", f.where())
        else:
            d = tm.differ(r1.ret, r2.ret)
            ctx.ob("forwarding", n, d is None, "" if d is None else
                   "computes %s\ninstead of %s\nwhen %s" % (tm.pretty(r1.ret, 8)[:900], tm.pretty(r2.ret, 8)[:900], d.conditions()[:6]),
                   f.where())
    en = ast.enums(prog.data["flags"], "z_eff_type", ["catima/config.h", "catima/cwrapper.h"])
    ctx.require(len(en) == 2, "expected the C and the C++ effective-charge constants")
    cpp = next(v for k, v in en if "catima::" in k or "config.h" in k)
    c = next(v for k, v in en if "cwrapper.h" in k)
    for nm, v in sorted(c.items()):
        ctx.ob("options", nm, nm in cpp and cpp[nm] == v, "C value %s, C++ value %s" % (v, cpp.get(nm)), "include/catima/cwrapper.h")
    for nm in cpp:
        if nm not in c:
            ctx.ob("options", nm, False, "missing in the C interface", "include/catima/cwrapper.h")
