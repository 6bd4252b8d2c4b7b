"""Statements about the library written as C++ functions returning bool (probes/s*.cpp), decided by value numbering:
the function under test is followed, the other public functions are uninterpreted, and the statement has to come out
true in every combination of the branch conditions that remain."""
import re

from . import ast, cache, terms as tm, values
from .build import CheckError
from .interp import Analyzer
from .report import pmap
from .terms import add, const, leaf


def get_slot(an, fr, i, g, args, mem):
    """the cache entry of a projectile, material and configuration (thickness and energy do not select it)"""
    prog = an.prog
    am = cache.arg_of(prog, g)
    if len(am) != 3:
        return NotImplemented
    vals = []
    for cl in cache.ARGS:
        for o, s, nm in cache.fields(prog, cl):
            if (cl, nm) in (("Projectile", "T"), ("Material", "th")) or nm.endswith("_M_end_of_storage"):
                continue
            vals.append(tm.num(an.load(mem, add(args[am[cl]], const(o)), "?", s)))
    k = leaf("slot", tm.mk("agg", *vals))
    an.ptrs.add(k.id)
    an.event(fr, i, g.qname, args)
    return k if i["ty"] == "ptr" else None


class Specs:
    def __init__(self, ctx, prog, ns, follow=(), models=None, opaque=(), cls=Analyzer, materials=True, peel=0, tables=False):
        """follow: regex of public functions to look into; everything else public and free is uninterpreted"""
        self.ctx, self.prog, self.ns, self.cls, self.peel, self.tables = ctx, prog, ns, cls, peel, tables
        self.api = ast.declared(prog.data["flags"])
        self.follow = [re.compile(x) for x in list(follow) + [r"^(double )?catima::i?pow(er)?\b"]]
        self.opq = [re.compile(x) for x in opaque]
        self.models = dict(values.MODELS if materials else {})
        self.models["catima::Data::Get"] = get_slot
        self.models.update(models or {})
        self.plain = {"Projectile", "Material", "Config", "Target", "Result", "MultiResult", "Layers", "Phasespace", "DataPoint"}

    def opaque_if(self, g):
        if any(p.search(g.dem) for p in self.opq):
            return True
        d = self.api.get(g.name)
        if any(p.search(g.dem) for p in self.follow):
            return False
        if d is None:
            # members of class templates are not listed
            return bool(re.match(r"^(double |int )?(catima::)?(Interpolator|cspline|EnergyTable|LogVArray|LinearVArray|integrators::)", g.dem)) or \
                bool(re.match(r"^catima::(Interpolator\w*|cspline_special|EnergyTable)<", g.dem))
        parts = d["name"].split("::")
        return len(parts) == 2 or parts[-2] not in self.plain

    def analyzer(self):
        an = self.cls(self.prog, opaque_if=self.opaque_if, models=self.models)
        an.peel, an.tables = self.peel, self.tables
        return an

    def statements(self):
        pre = self.ns + "::"
        fs = [f for f in self.prog.defined() if f.dem.startswith(pre) and f.d["rty"] in ("i1", "i8", "zeroext i1")
              and not f.qname.endswith("_")]
        if not fs:
            raise CheckError("no statements found in %s" % self.ns)
        return sorted(fs, key=lambda f: f.line)

    def decide(self, rule, where=None, limit=20000, label=None):
        ctx = self.ctx

        def one(f):
            an = self.analyzer()
            r = an.run(f)
            if r.ret is None:
                raise CheckError("%s returns nothing" % f.dem)
            t = tm.tobool(r.ret) if not tm.is_bool(r.ret) else r.ret
            d = tm.differ(t, tm.TRUE, limit)
            locs = sorted({self.prog.functions[n].where() for n in an.visited
                           if n != f.name and self.prog.functions[n].in_repo()}, key=lambda w: (".h:" in w, w))
            det = ""
            if d is not None:
                cs = d.conditions()
                det = "does not hold when\n  " + "\n  ".join(c[:900] for c in cs[-14:])
            return (f.qname.split("::")[-1], d is None, det, locs, an.callsites, trivial(t))
        for n, ok, det, locs, cs, triv in pmap(one, self.statements()):
            ctx.ob(rule(n) if callable(rule) else rule, n if label is None else label + ": " + n, ok, det, ", ".join(locs[:6]) if where is None else where)
            ctx.count("call_sites_followed", cs)


def trivial(t):
    return t.op in ("true", "false")
