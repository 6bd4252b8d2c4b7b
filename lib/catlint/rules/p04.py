"""P04: an explicit configuration reaches every stage unchanged."""
import os

from .. import build, cache, terms as tm
from ..build import CheckError
from ..interp import Analyzer, Mem
from ..report import pmap
from ..terms import add, const


class Tracker(Analyzer):
    """notes every read of the process-wide default configuration"""

    def __init__(self, prog, dflt, **kw):
        super().__init__(prog, **kw)
        self.dflt = self.obj("glob", dflt)
        self.bad = {}

    def load(self, mem, addr, ty="double", size=8):
        b, _ = self.split(addr)
        if b is self.dflt:
            f = self.stack[-1] if self.stack else None
            self.bad.setdefault(f.dem if f else "?", f.where() if f else "")
        return super().load(mem, addr, ty, size)


def config_params(prog, f):
    out = []
    for n, (nm, ty) in enumerate(f.params):
        if ty is None:
            continue
        pt = prog.pointee(ty)
        if pt is None and prog.is_class(ty):
            pt = prog.strip(ty)
        if pt is not None and pt >= 0 and prog.types[pt]["name"] == "Config":
            out.append(n)
    return out


def check(ctx):
    ctx.rule("no-default", "a function given a configuration never reads the process-wide default configuration", 30)
    ctx.rule("handed-over", "every call made on behalf of a function given a configuration passes exactly that configuration", 25)
    ctx.rule("calculator", "the command line program applies the configuration it read", 3)
    prog = ctx.prog(probes=["storage.cpp", "api.cpp"])
    dflt = prog.glob("catima::default_config")
    name = dflt["name"] if isinstance(dflt, dict) else dflt
    fs = [f for f in prog.defined() if f.in_repo() and len(config_params(prog, f)) == 1
          and "::Config::" not in f.dem and "operator==" not in f.dem and "lambda" not in f.dem]
    fl = [(o, s, n) for o, s, n in cache.fields(prog, "Config")]
    ctx.count("config_fields", len(fl), add=False)

    def has_config(g):
        return len(config_params(prog, g)) == 1 and g.in_repo()

    def one(f):
        an = Tracker(prog, name, opaque_if=has_config)
        args = an.default_args(f)
        c = args[config_params(prog, f)[0]]
        an.run(f, args)
        calls = {}
        for e in an.events:
            if e.extra is None or not isinstance(e.extra, tm.T):
                continue
            g = [h for h in prog.functions.values() if h.dem == e.extra.a[0] or tm_name(h.dem) == e.extra.a[0]]
            g = [h for h in g if has_config(h)]
            if not g:
                continue
            n = config_params(prog, g[0])[0] - (1 if g[0].args and "sret" in g[0].args[0] else 0)
            agg = e.extra.a[1 + n]
            if not (isinstance(agg, tm.T) and agg.op == "agg" and len(agg.a) == len(fl)):
                raise CheckError("configuration argument of %s not understood" % e.extra.a[0])
            miss = [nm for (o, s, nm), v in zip(fl, agg.a) if v is not tm.num(an.load(Mem(), add(c, const(o)), "?", s))]
            key = (g[0].dem, e.loc)
            calls[key] = calls.get(key, []) or miss
        return list(calls.items()), list(an.bad.items()), an.callsites

    for f, (calls, bad, cs) in zip(fs, pmap(one, fs)):
        ctx.count("call_sites_followed", cs)
        ctx.ob("no-default", f.dem, not bad, "the default configuration is read in %s" % (bad[0],) if bad else "", f.where())
        for (g, loc), miss in calls:
            ctx.ob("handed-over", "%s -> %s at %s" % (f.dem, g, loc.rsplit(":", 1)[0] if False else loc), not miss,
                   "the callee receives a configuration whose %s differ from the caller's" % ", ".join(miss), loc)
    calculator(ctx)


def tm_name(dem):
    from ..interp import canon_name
    return canon_name(dem)


def calculator(ctx):
    """the command line program hands the configuration it assembled from its input file to the library"""
    path = os.path.join(build.REPO, "bin", "catima_calculator.cpp")
    if not os.path.exists(path):
        raise CheckError("anchor not found: " + path)
    prog = ctx.prog("calc", probes=[path])
    f = prog.find("main")
    fl = cache.fields(prog, "Config")

    def opaque(g):
        return not (g.file.endswith("bin/catima_calculator.cpp") or
                    g.qname in ("catima::Config::Config", "catima::Projectile::Projectile"))

    an = Analyzer(prog, opaque_if=opaque)
    an.run(f)
    dflt = an.obj("glob", prog.glob("catima::default_config"))
    z = prog.enum("z_eff_type")
    n = 0
    a2 = Analyzer(prog)
    ctor = [g for g in prog.by_q["catima::Config::Config"] if g.defined and len(g.params) == 1][0]
    d2 = a2.default_args(ctor)
    m2 = a2.run(ctor, d2).mem
    dvals = [tm.num(a2.load(m2, add(d2[0], const(o)), "?", s)) for o, s, _ in fl]
    for e in an.events:
        if not isinstance(e.extra, tm.T):
            continue
        g = [h for h in prog.functions.values() if tm_name(h.dem) == e.extra.a[0] and len(config_params(prog, h)) == 1
             and "operator" not in h.dem]
        if not g:
            continue
        k = config_params(prog, g[0])[0] - (1 if g[0].args and "sret" in g[0].args[0] else 0)
        agg = e.extra.a[1 + k]
        n += 1
        fromdef = any(x.op == "leaf" and x.a[0] == "ld" and x.a[1] is dflt for x in tm.walk([agg]))
        varies = any(x.op == "call" and "nlohmann" in str(x.a[0]) for x in tm.walk([agg]))
        ctx.ob("calculator", "%s receives the configuration read" % g[0].dem, not fromdef and varies,
               "the configuration passed is %s" % ("the process-wide default" if fromdef else "independent of the input file"), e.loc)
        # which choice in the file gives which setting
        tests = {}
        for x in tm.walk([agg]):
            if x.op == "call":
                for y in x.a[1:]:
                    s_ = literal(prog, y)
                    if s_ in ("atimav1.3", "atimav1.4"):
                        tests.setdefault(s_, set()).add(x)
        if not tests:
            ctx.notes.append("selection by name not recognised")
            continue
        fld = [q for q, (o, s_, nm) in enumerate(fl) if nm == "z_effective"][0]
        for lit, want in (("atimav1.3", z["pierce_blann"]), ("atimav1.4", z["atima14"])):
            v = agg.a[fld]
            m = {}
            for l2, ts in tests.items():
                for t in ts:
                    m[t] = tm.ONE if l2 == lit else tm.ZERO
            # the file has a configuration entry and it is a string
            v = tm.subst(v, m)
            for x in list(tm.walk([v])):
                if x.op == "call" and "nlohmann" in str(x.a[0]):
                    v = tm.subst(v, {x: tm.ONE})
            ctx.ob("calculator", "choice %s" % lit, v is const(want),
                   "choice %s leads to effective charge setting %s instead of %s" % (lit, tm.pretty(v, 3), want), e.loc)
        for (o, s_, nm), v, d in zip(fl, agg.a, dvals):
            if nm != "z_effective":
                ctx.ob("calculator", "other setting %s" % nm, v is d, "setting %s becomes %s" % (nm, tm.pretty(v, 3)), e.loc)
    ctx.require(n >= 1, "the command line program makes no call taking a configuration")


def literal(prog, y):
    if isinstance(y, tm.T) and y.op == "leaf" and y.a[0] == "obj" and y.a[1] == "glob":
        g = prog.globals.get(y.a[2])
        init = g.get("init") if g and g.get("elty") == "i8" else None
        if isinstance(init, list):
            b = {o: v[1] for o, v in init if isinstance(v, list) and v[0] == "ci"}
            return "".join(chr(b[o]) for o in sorted(b) if b[o])
    return None
