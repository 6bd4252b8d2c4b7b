"""P11: quadrature rules. Every rule is applied, in the IR, to an unknown integrand; what comes out is a weighted sum of values of
the integrand, whose points and weights are read off the formula and tested for exactness on Legendre polynomials."""
import math
import re

from .. import spec, terms as tm, values
from ..build import CheckError
from ..interp import Analyzer
from ..report import pmap
from ..terms import const, leaf

TOL = 5e-13
ENDS = [(-1.0, 1.0), (0.0, 2.5), (3.0, -1.25), (-7.0, -6.5)]


def legendre(k, x):
    p, q = 1.0, x
    if k == 0:
        return p
    for n in range(2, k + 1):
        p, q = q, ((2 * n - 1) * x * q - (n - 1) * p) / n
    return q


def gauss(n):
    """points and weights of the Gauss-Legendre rule"""
    out = []
    for i in range(n):
        x = math.cos(math.pi * (i + 0.75) / (n + 0.5))
        for _ in range(50):
            d = n * (x * legendre(n, x) - legendre(n - 1, x)) / (x * x - 1)
            x -= legendre(n, x) / d
        d = n * (x * legendre(n, x) - legendre(n - 1, x)) / (x * x - 1)
        out.append((x, 2 / ((1 - x * x) * d * d)))
    return out


class Rule:
    """formula of a rule over symbolic ends"""

    def __init__(self, prog, f, dims=1, ret=None):
        an = Analyzer(prog, models={"integrand_": self.model, "integrand2_": self.model})
        an.peel, an.integrate = 200, False
        self.ends = [leaf("arg", "end%d" % i) for i in range(2 * dims)]
        self.t = an.run(f, args=list(self.ends)).ret
        self.an = an
        self.used = {t.id: t.a[1:] for t in tm.walk([self.t]) if t.op == "leaf" and t.a[0] == "integrand"}
        if not self.used:
            raise CheckError("%s does not evaluate the integrand" % f.dem)
        self.where = ", ".join(sorted({prog.functions[n].where() for n in an.visited if prog.functions[n].in_repo()})[:3])

    def model(self, an, fr, i, g, args, mem):
        return leaf("integrand", *[tm.num(a) for a in args])

    def env(self, ends):
        return {e.id: v for e, v in zip(self.ends, ends)}

    def points(self, ends):
        env = self.env(ends)
        return {k: tuple(tm.feval(a, env) for a in v) for k, v in self.used.items()}

    def weights(self, ends):
        """[(point, weight)]"""
        env, pts, out = self.env(ends), self.points(ends), []
        zero = {**env, **{k: 0.0 for k in pts}}
        base = tm.feval(self.t, zero)
        for k, x in pts.items():
            out.append((x, tm.feval(self.t, {**zero, k: 1.0}) - base))
        return out, base

    def value(self, ends, fn):
        env = self.env(ends)
        env.update({k: fn(*x) for k, x in self.points(ends).items()})
        return tm.feval(self.t, env)


def unit(x, a, b):
    return (2 * x - a - b) / (b - a)


def exact(r, degree):
    """polynomials up to the degree that the rule does not integrate exactly on some interval"""
    bad = []
    for a, b in ENDS:
        ws, base = r.weights((a, b))
        if base:
            return ["adds %g to the sum" % base]
        for k in range(degree + 1):
            s = sum(w * legendre(k, unit(x[0], a, b)) for x, w in ws)
            e = (b - a) if k == 0 else 0.0
            if not abs(s - e) < TOL * abs(b - a):
                bad.append("on [%g, %g] the Legendre polynomial of degree %d gives %.3e instead of %g" % (a, b, k, s, e))
                break
    return bad


def same_points(prog, f, n, r):
    for a, b in ENDS:
        got = []
        for i in range(n):
            an = Analyzer(prog)
            an.peel = 200
            t = an.run(f, args=[const(a), const(b), const(i)]).ret
            try:
                got.append(tm.feval(t, {}))
            except ValueError:
                return ["on [%g, %g] point %d is %s" % (a, b, i, tm.pretty(t)[:200])]
        want = sorted(x[0] for x in r.points((a, b)).values())
        if len(want) != n or any(not abs(x - y) < 1e-12 * (abs(a) + abs(b)) for x, y in zip(sorted(got), want)):
            return ["on [%g, %g] reports %s, uses %s" % (a, b, ["%.6g" % x for x in sorted(got)][:8], ["%.6g" % x for x in want][:8])]
    return []


def check(ctx):
    ctx.rule("gauss", "the Gauss-Legendre rule of order n integrates polynomials up to degree 2n-1 exactly on any interval", 14)
    ctx.rule("kronrod", "the Gauss-Kronrod rule with n Gauss points integrates polynomials up to degree 3n+1 exactly on any interval", 5)
    ctx.rule("error estimate", "the error estimate vanishes for polynomials up to degree 2n-1 and not for the next one", 5)
    ctx.rule("points", "the reported points are the points at which the rule evaluates the integrand", 19)
    ctx.rule("plane", "the two-dimensional rules are products of Gauss-Legendre rules", 8)
    ctx.rule("adaptive", "adaptive integration returns the rule's value or the sum over two halves that make up the interval", 2)
    ctx.rule("splitting", "splitting covers the whole interval, and every listed interval, exactly once", 2)
    prog = ctx.prog(probes=["s11.cpp"])
    fs = {}
    for f in prog.defined():
        m = re.match(r"^(?:\w+ )?spec_p11_\w+::(\w+)_<(\d+)(?:, (\d+))?>", f.dem)
        if m:
            fs.setdefault(m.group(1), {})[tuple(int(x) for x in m.groups()[1:] if x)] = f

    def count(f):
        t = Analyzer(prog).run(f).ret
        return int(t.a[0]) if t.op == "c" else None

    def one(job):
        kind, n = job
        out = []
        if kind == "gl":
            r = Rule(prog, fs["legendre"][(n,)])
            bad = exact(r, 2 * n - 1)
            c = count(fs["count"][(n,)])
            if c != n or len(r.used) != n:
                bad.append("%s points reported, %d used, order %d" % (c, len(r.used), n))
            if tm.differ(Rule(prog, fs["call"][(n,)]).t, r.t, 10) is not None:
                bad.append("the call form gives another value")
            out.append(("gauss", "order %d" % n, bad, r.where))
            out.append(("points", "Gauss-Legendre order %d" % n, same_points(prog, fs["point"][(n,)], n, r), fs["point"][(n,)].where()))
        elif kind == "gk":
            m = (n - 1) // 2
            r = Rule(prog, fs["kronrod"][(n,)])
            bad = exact(r, 3 * m + 1)
            c = count(fs["kcount"][(n,)])
            if c != n or len(r.used) != n:
                bad.append("%s points reported, %d used, order %d" % (c, len(r.used), n))
            out.append(("kronrod", "order %d" % n, bad, r.where))
            e = Rule(prog, fs["error"][(n,)])
            bad = []
            for a, b in ENDS:
                if b < a:
                    continue
                v = [e.value((a, b), lambda x: legendre(k, unit(x, a, b))) for k in range(2 * m + 1)]
                if any(not abs(x) < TOL for x in v[:-1]):
                    bad.append("on [%g, %g] estimates %s for degrees 0.." % (a, b, ["%.2g" % x for x in v[:-1]]))
                if abs(v[-1]) < 1e-6:
                    bad.append("on [%g, %g] vanishes for degree %d" % (a, b, 2 * m))
            out.append(("error estimate", "order %d" % n, bad, e.where))
            out.append(("points", "Gauss-Kronrod order %d" % n, same_points(prog, fs["kpoint"][(n,)], n, r), fs["kpoint"][(n,)].where()))
        else:
            f = fs[kind][n]
            r = Rule(prog, f, 2)
            bad = []
            n1, n2 = n if len(n) == 2 else (n[0], n[0])
            for ends in ((-1.0, 1.0, -1.0, 1.0), (0.0, 3.0, 1.0, 1.5), (2.0, -1.0, 0.0, 5.0)):
                a, b, c, d = ends
                ws, base = r.weights(ends)
                got = {}
                for (x, y), w in ws:
                    k = (round(unit(x, a, b), 9) + 0.0, round(unit(y, c, d), 9) + 0.0)
                    got[k] = got.get(k, 0.0) + w * 4 / ((b - a) * (d - c))
                want = {(round(x, 9) + 0.0, round(y, 9) + 0.0): u * v for x, u in gauss(n1) for y, v in gauss(n2)}
                if base or set(got) != set(want) or any(not abs(got[k] - want[k]) < 1e-10 for k in want):
                    bad.append("on [%g, %g]x[%g, %g] not the product rule of orders %d and %d" % (ends + (n1, n2)))
                    break
            out.append(("plane", "%s %s" % (kind, n), bad, r.where))
        return out, r.an.callsites
    jobs = [("gl", n[0]) for n in sorted(fs["legendre"], reverse=True)] + [("gk", n[0]) for n in sorted(fs["kronrod"], reverse=True)]
    jobs += [(k, n) for k in ("square", "squarecall", "rectangle", "rectanglecall") for n in sorted(fs[k])]
    for res, cs in pmap(one, jobs):
        for rule, inst, bad, where in res:
            ctx.ob(rule, inst, not bad, "; ".join(bad[:3]), where)
        ctx.count("call_sites_followed", cs)
    for n in sorted(fs["adaptive"]):
        adaptive(ctx, prog, n[0], fs["adaptive"][n])
    spec.Specs(ctx, prog, "spec_p11_intervals", [r"::integrate(_intervals)?<"], models=values.SEQ).decide("splitting")


def adaptive(ctx, prog, n, f):
    a, b = leaf("arg", "a"), leaf("arg", "b")
    pieces = {}

    def part(an, fr, i, g, args, mem):
        t = leaf("part", tm.num(args[1]), tm.num(args[2]))
        pieces[t.id] = (args[1], args[2])
        an.event(fr, i, g.qname, args)
        return t
    g = [x for x in prog.defined() if re.search(r"GaussKronrodIntegration<%d>::integrate_adaptive<Integrand>" % n, x.dem)]
    w = [x for x in prog.defined() if re.search(r"GaussKronrodIntegration<%d>::integrate_nonadaptive<Integrand>" % n, x.dem)]
    if len(g) != 1 or len(w) != 1:
        raise CheckError("adaptive integration of order %d not found" % n)
    an = Analyzer(prog, models={"re:GaussKronrodIntegration<%d>::integrate_adaptive<" % n: part}, opaque_if=lambda h: h is w[0])
    r = an.run(g[0], args=[leaf("arg", "f"), a, b, leaf("arg", "eps"), leaf("arg", "reps"), leaf("arg", "level")])
    bad, n_split = [], 0

    def resolve(e, t):
        if t.op == "ite":
            return resolve(e, t.a[1] if e.b(t.a[0]) else t.a[2])
        if t.op == "lin":
            v = const(t.a[0])
            for x, k in t.a[1]:
                v = tm.add(v, tm.scale(resolve(e, x), k))
            return v
        return t
    found, _, complete = tm.cases(lambda e: resolve(e, r.ret))
    if not complete:
        raise CheckError("too many cases in adaptive integration")
    for v in dict.fromkeys(v for v, e in found):
        ls = [(t, k) for t, k in (v.a[1] if v.op == "lin" else [(v, 1)])]
        ps = [pieces[t.id] for t, k in ls if t.id in pieces]
        if ps:
            n_split += 1
            if len(ps) != len(ls) or (v.op == "lin" and v.a[0] != 0) or any(k != 1 for t, k in ls):
                bad.append("returns %s" % tm.pretty(v)[:300])
                continue
            left = list(ps)
            at = a
            while left:
                nx = [p for p in left if tm.differ(p[0], at, 10) is None]
                if len(nx) != 1:
                    bad.append("halves do not join at %s" % tm.pretty(at)[:200])
                    break
                at = nx[0][1]
                left.remove(nx[0])
                m = tm.feval(at, {a.id: 0.0, b.id: 1.0})
                if left and not 0 < m < 1:
                    bad.append("splits at %s" % tm.pretty(at)[:200])
            if not left and tm.differ(at, b, 10) is not None:
                bad.append("the last part ends at %s" % tm.pretty(at)[:200])
        elif not (len(ls) == 1 and "integrate_nonadaptive" in tm.pretty(v)):
            bad.append("returns %s" % tm.pretty(v)[:300])
    if not n_split:
        bad.append("never splits the interval")
    ctx.ob("adaptive", "order %d" % n, not bad, "; ".join(bad[:3]), g[0].where())
