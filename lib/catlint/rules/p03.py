"""P03: no request for another key while cached data is in use."""

from .. import cache, terms as tm
from ..build import CheckError
from ..report import pmap
from ..interp import Analyzer
from ..terms import TRUE, FALSE, add, const, leaf, band


PLAIN = ("Projectile", "Material", "Config", "Target")


class Holder(Analyzer):
    """records, in program order, requests to the cache and reads of slots"""

    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.requests = []      # (key term, guard, loc)
        self.uses = {}          # (slot, number of requests so far) -> [guard, loc]
        self.fr = None

    def root(self, b):
        while b.op == "leaf" and b.a[0] == "ld":
            b = b.a[1]
        return b

    def load(self, mem, addr, ty="double", size=8):
        try:
            b = self.root(self.split(addr)[0])
        except Exception:
            b = None
        if b is not None and b.op == "leaf" and b.a[0] == "slot":
            k = (b, len(self.requests))
            g = band(*self.guardstack)
            f = self.stack[-1] if self.stack else None
            if k not in self.uses:
                self.uses[k] = [g, f]
            else:
                self.uses[k][0] = tm.bor(self.uses[k][0], g)
        return super().load(mem, addr, ty, size)


def request(an, fr, i, g, args, mem):
    prog = an.prog
    am = cache.arg_of(prog, g)
    vals = [args[0]]
    for cl in cache.ARGS:
        for o, s, nm in cache.fields(prog, cl):
            if (cl, nm) in (("Projectile", "T"), ("Material", "th")) or nm.endswith("_M_end_of_storage"):
                continue
            vals.append(tm.num(an.load(mem, add(args[am[cl]], const(o)), "?", s)))
    k = leaf("slot", tm.mk("agg", *vals))
    an.ptrs.add(k.id)
    an.requests.append((k, band(*an.guardstack), fr["f"].loc(i), fr["f"]))
    return k if i["ty"] == "ptr" else None


def check(ctx):
    ctx.rule("held-data", "between obtaining a slot and its last use no request with a different key is made", 8)
    for variant, opts in (("main", None), ("nospl", {"STORE_SPLINES": "OFF"})):
        prog = ctx.prog(variant, opts, probes=["storage.cpp"])
        getters = [f for f in prog.functions.values() if f.defined and f.qname in ("catima::Data::Get", "catima::Data::Add")
                   and len(cache.arg_of(prog, f)) == 3]
        ctx.require(getters, "anchor not found: catima::Data::Get")
        rev = {}
        for f in prog.functions.values():
            if f.defined:
                for c in prog.callees(f):
                    rev.setdefault(c, set()).add(f)
        todo, users = list(getters), set()
        while todo:
            f = todo.pop()
            for u in rev.get(f, rev.get(f.name, ())):
                if u not in users and u not in getters:
                    users.add(u)
                    todo.append(u)
        reaching = users | set(getters)

        def plain(g):
            """neither reaches the cache nor can be handed cached data: not followed"""
            if g in reaching or not g.in_repo() or g.defined is False:
                return False
            for nm, ty in g.params:
                if ty is None:
                    continue
                pt = prog.pointee(ty)
                if pt is None and prog.is_class(ty):
                    pt = prog.strip(ty)
                if pt is not None and pt >= 0 and prog.is_class(pt) and prog.types[pt]["name"] not in PLAIN:
                    return False
                if pt is not None and (pt < 0 or not prog.is_class(pt)):
                    return False
            return True

        todo = [f for f in sorted(users, key=lambda x: x.dem) if f.in_repo() and not f.qname.startswith("catima::Data::")
                and not f.qname.startswith("catlint_probe")]

        def one(f):
            an = Holder(prog, opaque=[r"^catima::calculate_DataPoint\("], opaque_if=plain, models={
                "re:^catima::Data::(Get|Add)\\(catima::Projectile": request})
            an.run(f)
            bad = ""
            for (slot, n), (g, fn) in an.uses.items():
                acq = [m for m in range(n) if an.requests[m][0] is slot]
                for m in range(acq[-1] + 1, n) if acq else ():
                    k2, g2, loc2, _ = an.requests[m]
                    if k2 is not slot and not cache.unsat(band(g, g2)):
                        bad = "data obtained at %s is used in %s after a request with a different key at %s" % (
                            an.requests[acq[-1]][2], fn.dem if fn else "?", loc2)
            return bad, an.callsites, len(an.requests), len(an.uses)

        for f, (bad, cs, nr, nu) in zip(todo, pmap(one, todo)):
            ctx.count("call_sites_followed", cs)
            ctx.count("requests_seen", nr)
            ctx.count("slot_reads_seen", nu)
            ctx.ob("held-data", "%s (%s)" % (f.dem, variant), not bad, bad, f.where())
