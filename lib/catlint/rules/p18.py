"""P18: no jump where the formulas for stopping power and cross section switch."""
import math
import re
from fractions import Fraction

from .. import spec, terms as tm
from ..build import CheckError
from ..terms import const

F1 = {"log": math.log, "exp": math.exp, "sqrt": math.sqrt, "log10": math.log10, "log1p": math.log1p, "log2": math.log2,
      "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3.), x)}


def switches(v, e):
    """(quantity, value) pairs at which a comparison that depends on the energy e changes"""
    out, other = {}, []
    for t in tm.walk([v]):
        if t.op not in ("gt", "gti", "eq", "eqi") or not tm.contains(t, lambda x: x is e):
            continue
        c, m = tm._lin(t.a[0])
        if len(m) != 1:
            other.append(t)
            continue
        (u, k), = m.items()
        out.setdefault(u, set()).add(-c / k)
    return out, other


def side(v, u, c, s):
    """v with the comparisons of u decided next to (s = -1, 1) or at (s = 0) the value c, and u replaced by c"""
    memo = {}

    def rec(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        r = None
        if t.op in ("gt", "gti", "eq", "eqi"):
            c0, m = tm._lin(t.a[0])
            if len(m) == 1 and u in m:
                x = c0 + m[u] * c
                sg = (x > 0) - (x < 0) or (1 if m[u] * s > 0 else -1 if s else 0)
                r = tm.TRUE if (sg > 0 if t.op[:2] == "gt" else sg == 0) else tm.FALSE
        if t is u:
            r = const(c)
        if r is None:
            r = fold(tm.rebuild(t, rec))
        memo[t.id] = r
        return r
    return rec(v)


def fold(t):
    if t.op == "fn" and all(x.op == "c" for x in t.a[1:]):
        x = [float(y.a[0]) for y in t.a[1:]]
        try:
            if t.a[0] in F1:
                return const(F1[t.a[0]](*x))
            if t.a[0] == "pow":
                return const(math.pow(*x))
        except (ValueError, OverflowError):
            pass
    return t


def snap(ts, rel=Fraction(1, 10 ** 9)):
    """constants that differ only by rounding become one constant"""
    cs = set()
    for t in tm.walk(ts):
        if t.op == "c":
            cs.add(t.a[0])
        elif t.op == "lin":
            cs.add(t.a[0])
            cs.update(k for _, k in t.a[1])
    rep, last = {}, None
    for c in sorted(cs):
        if last is not None and abs(c - last) <= rel * max(abs(c), abs(last)):
            rep[c] = last
        else:
            last = c
            rep[c] = c
    memo = {}

    def rec(t):
        r = memo.get(t.id)
        if r is None:
            if t.op == "c":
                r = const(rep[t.a[0]])
            elif t.op == "lin":
                r = const(rep[t.a[0]])
                for x, k in t.a[1]:
                    r = tm.add(r, tm.scale(rec(x), rep[k]))
            else:
                r = tm.rebuild(t, rec)
            memo[t.id] = r
        return r
    return [rec(t) for t in ts]


def check(ctx):
    ctx.rule("no jump", "at every energy where the formula switches, the formulas below, at and above it have the same value", 4)
    prog = ctx.prog()
    todo = [
        ("stopping power", r"^catima::dedx\(catima::Projectile const&, catima::Material const&", [r"^catima::dedx\("], ("T", 0)),
        ("proton stopping (1995)", r"^catima::p_se\(int, double\)$", [r"^catima::p_se\("], (None, 1)),
        ("proton stopping (1985)", r"^catima::p_se85\(int, double\)$", [r"^catima::p_se85\("], (None, 1)),
        ("reaction cross section", r"^catima::SigmaR_Kox\(int, int, double, int, int\)$", [r"^catima::SigmaR_Kox\(", r"^catima::Ecm_from_T"], (None, 2)),
    ]
    for name, pat, follow, (fld, arg) in todo:
        fs = [f for f in prog.defined() if re.search(pat, f.dem)]
        if len(fs) != 1:
            raise CheckError("%s: function not found" % name)
        f = fs[0]
        s = spec.Specs(ctx, prog, "", follow + [r"^catima::(i?pow|power)"])
        an = s.analyzer()
        args = an.default_args(f)
        r = an.run(f, args)
        v = r.ret
        if fld:
            o = [o for o, _, n, _ in prog.flat(prog.type_by_name("Projectile")) if n == fld][0]
            e = an.load(r.mem, tm.add(args[arg], const(o)), "double", 8)
        else:
            e = args[arg]
        sw, other = switches(v, e)
        for t in other:
            raise CheckError("%s: cannot resolve the switch %s" % (name, tm.pretty(t, 6)))
        ctx.count("call_sites_followed", an.callsites)
        n = 0
        for u in sorted(sw, key=lambda t: t.id):
            for c in sorted(sw[u]):
                if u is e and c <= 0:
                    continue
                n += 1
                lo, at, hi = snap([side(v, u, c, x) for x in (-1, 0, 1)])
                for what, x, y in (("below and above", lo, hi), ("below and at", lo, at)):
                    d = tm.differ(x, y, 20000)
                    det = ""
                    if d is not None:
                        det = "%s the switch at %s = %.9g the values differ\n  below: %s\n  above: %s\n  when %s" % (
                            what, tm.pretty(u, 3), c, tm.pretty(lo, 7)[:700], tm.pretty(hi, 7)[:700], "; ".join(x[:200] for x in d.conditions()[-6:]))
                    ctx.ob("no jump", "%s, %s %s = %.9g" % (name, what, tm.pretty(u, 3), c), d is None, det, f.where())
        if not n:
            raise CheckError("%s: no switch found" % name)
