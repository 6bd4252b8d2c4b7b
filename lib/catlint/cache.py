"""Shared analysis of the table cache: lookup, insertion, key, interpolators."""
import re

from . import terms as tm
from .build import CheckError
from .facts import Facts, implied, norm
from .interp import Analyzer, Mem, solve_trip
from .terms import T, ZERO, ONE, TRUE, FALSE, const, leaf, add, sub, neg, band, bnot, subst

INTERP = r"(?:Interpolator\w*(?:<.*>)?)"


def _interp_ctor(an, fr, i, g, args, mem):
    """interpolator objects are represented by one marker: which table and which value buffer they use"""
    if len(args) == 1:
        an.store(mem, args[0], tm.mk("call", "no-interpolator"))
        return None
    pl = [p for p in g.params]
    ty = an.prog.pointee(g.params[1][1]) if g.params[1][1] is not None else None
    nm = an.prog.types[an.prog.strip(ty)]["name"] if ty is not None and ty >= 0 else ""
    if "Interpolator" in nm:     # copy or move
        an.store(mem, args[0], an.load(mem, args[1], "?", 8))
        return None
    if len(args) >= 3:
        an.store(mem, args[0], tm.mk("call", "Interpolator", args[1], an.load(mem, args[2], "ptr", 8)))
        return None
    raise CheckError("unknown interpolator constructor %s" % g.dem)


def _interp_assign(an, fr, i, g, args, mem):
    an.store(mem, args[0], an.load(mem, args[1], "?", 8))
    return args[0]


def _vec_fresh_copy(an, fr, i, g, args, mem):
    """copying a vector of numbers gives the destination its own buffer"""
    if "const&" not in g.dem or len(args) < 2:
        return NotImplemented
    d = leaf("ownbuf", *an.split(args[0]), an.load(mem, args[1], "ptr", 8))
    an.ptrs.add(d.id)
    n = sub(an.load(mem, add(args[1], const(8)), "ptr", 8), an.load(mem, args[1], "ptr", 8))
    an.store(mem, args[0], d)
    an.store(mem, add(args[0], const(8)), add(d, n))
    an.store(mem, add(args[0], const(16)), add(d, n))
    return args[0] if i["ty"] == "ptr" else None


def _vec_clear(an, fr, i, g, args, mem):
    an.store(mem, add(args[0], const(8)), an.load(mem, args[0], "ptr", 8))
    return None


def models(prog):
    return {
        "re:^std::vector<double, .*>::(operator=|vector)\\(std::vector": _vec_fresh_copy,
        "re:::" + r"Interpolator\w*\(.*\)$": _interp_ctor,
        "re:::Interpolator\\w*(<.*>)?::operator=\\(": _interp_assign,
        "re:^std::vector<.*>::clear\\(": _vec_clear,
    }


class Layout:
    def __init__(self, prog):
        t = prog.type_by_name("DataPoint")
        if t is None:
            raise CheckError("anchor not found: type DataPoint")
        self.t = t
        ty = prog.types[prog.resolve_decl(t)]
        self.size = ty["size"]
        self.key = {}       # class name -> offset of the member holding it
        self.tables = {}    # member -> offset (vector<double>)
        self.splines = {}   # member -> offset (interpolator)
        for m in ty["members"]:
            mt = prog.types[prog.strip(m[2])] if prog.strip(m[2]) >= 0 else {"name": ""}
            n = mt["name"]
            if n in ("Projectile", "Material", "Config"):
                self.key[n] = m[1]
            elif n.startswith("vector<double"):
                self.tables[m[0]] = m[1]
            elif "Interpolator" in n:
                self.splines[m[0]] = m[1]
        if set(self.key) != {"Projectile", "Material", "Config"} or len(self.tables) < 3:
            raise CheckError("DataPoint layout not recognised: %s %s" % (self.key, self.tables))


ARGS = ("Projectile", "Material", "Config")


def arg_of(prog, f):
    """class name -> argument number for the key parameters of a function"""
    out = {}
    for n, (nm, ty) in enumerate(f.params):
        if ty is None:
            continue
        pt = prog.pointee(ty)
        if pt is None and prog.is_class(ty):
            pt = prog.strip(ty)
        if pt is not None and pt >= 0:
            c = prog.types[pt]["name"]
            if c in ARGS:
                out[c] = n
    return out


def fields(prog, cls):
    t = prog.type_by_name(cls)
    return [(o, s, n) for o, s, n, _ in prog.flat(t)]


def target_size(prog):
    t = prog.type_by_name("Target")
    return prog.types[prog.resolve_decl(t)]["size"], [(o, s, n) for o, s, n, _ in prog.flat(t)]


class Support:
    """which fields of the key arguments the tabulated values depend on"""

    def __init__(self, prog, ctx):
        f = prog.find("catima::calculate_DataPoint")
        self.f = f
        an = Analyzer(prog)
        args = an.default_args(f)
        r = an.run(f, args)
        self.an, self.res = an, r
        ctx.count("functions_inlined_into_table_computation", len(an.visited), add=False)
        ctx.count("call_sites_followed", an.callsites)
        am = arg_of(prog, f)
        if len(am) != 3:
            raise CheckError("parameters of the table computation not recognised: %s" % f.dem)
        self.objs = {c: args[n] for c, n in am.items()}
        lay = Layout(prog)
        ret = [a for a, d in zip(args, f.args) if "sret" in d]
        if not ret:
            raise CheckError("table computation does not return its tables by value")
        self.ret = ret[0]
        roots = []
        keyend = {o: None for o in lay.key.values()}
        keyspan = []
        for c, o in lay.key.items():
            sz = prog.types[prog.resolve_decl(prog.type_by_name(c))]["size"]
            keyspan.append((o, o + sz))
        from .interp import OFFS
        for k, v in r.mem.d.items():
            if k[1] == "b" or not isinstance(v, T):
                continue
            base = r.mem.d.get((k[0], "b"))
            if base is self.ret:
                o = OFFS[k[1]] if isinstance(k[1], int) else None
                if o is not None and o.op == "c" and any(a <= o.a[0] < b for a, b in keyspan):
                    continue
                roots.append(v)
            elif base is not None and base.op == "leaf" and base.a[0] in ("vecdata", "obj") and (
                    base.a[0] == "vecdata" or base.a[1] == "heap"):
                roots.append(v)
        self.table_stores = 0
        for L in an.loops:
            for base, mu, nx, ini in L.stores:
                roots += [nx, ini]
                self.table_stores += 1
            if L.trip is not None:
                roots.append(L.trip)
        for e in an.events:
            if re.search(r"push_back|emplace_back|assign|insert", e.name):
                roots += [a for a in e.args if isinstance(a, T)]
        esz, efl = target_size(prog)
        mat = self.objs["Material"]
        matt = prog.type_by_name("Material")
        atoms = {n: o for o, s, n, _ in prog.flat(matt)}
        start = [o for n, o in atoms.items() if n.endswith("_M_start")]
        if len(start) != 1:
            raise CheckError("component vector of Material not recognised")
        self.atoms_off = start[0]
        self.items = {}      # ("Projectile", off) / ("component", off) / ("ncomponents",) -> name
        aleaf = leaf("ld", mat, const(self.atoms_off))
        for x in tm.walk(roots):
            if x.op != "leaf" or x.a[0] != "ld":
                continue
            base, off = x.a[1], x.a[2]
            for c, o in self.objs.items():
                if base is o and off.op == "c":
                    oo = int(off.a[0])
                    if c == "Material" and self.atoms_off <= oo < self.atoms_off + 24:
                        self.items[("ncomponents",)] = "number of components"
                    else:
                        self.items[(c, oo)] = "%s.%s" % (c, prog.field_name(prog.type_by_name(c), oo))
            if base is aleaf:
                c0, lin = tm._lin(off)
                # element offset: constant part modulo the element size (index parts are multiples of it)
                if all((q / esz).denominator == 1 for q in lin.values()):
                    o = int(c0) % esz
                    self.items[("component", o)] = "component.%s" % prog.field_name(prog.type_by_name("Target"), o)
                else:
                    raise CheckError("component access not understood: %s" % tm.pretty(x))
        self.esz = esz


def alternatives(t, conds=(), out=None, limit=400):
    if out is None:
        out = []
    if t.op == "ite":
        alternatives(t.a[1], conds + (t.a[0],), out, limit)
        alternatives(t.a[2], conds + (bnot(t.a[0]),), out, limit)
    else:
        # constant offset over a gated base
        if t.op == "lin":
            for x, q in t.a[1]:
                if x.op == "ite":
                    rest = sub(t, tm.scale(x, q))
                    alternatives(tm.ite(x.a[0], add(rest, tm.scale(x.a[1], q)), add(rest, tm.scale(x.a[2], q))), conds, out, limit)
                    return out
        out.append((conds, t))
        if len(out) > limit:
            raise CheckError("too many alternatives")
    return out


class Lookup:
    def __init__(self, prog, ctx):
        self.prog = prog
        self.lay = Layout(prog)
        c = [f for f in prog.by_q.get("catima::Data::Get", []) if f.defined and len(arg_of(prog, f)) == 3]
        if len(c) != 1:
            raise CheckError("anchor not found: catima::Data::Get(projectile, material, config)")
        f = self.f = c[0]
        an = self.an = Analyzer(prog, opaque=[r"^catima::calculate_DataPoint\("], models=models(prog))
        args = an.default_args(f)
        self.args = args
        self.am = {cl: args[n] for cl, n in arg_of(prog, f).items()}
        self.this = args[0]
        self.res = an.run(f, args)
        ctx.count("call_sites_followed", an.callsites)
        if self.res.ret is None:
            raise CheckError("lookup returns nothing")
        self.alts = [(enrich(an, c), S) for c, S in alternatives(denull(an, self.res.ret))]
        esz, efl = target_size(prog)
        self.esz, self.efl = esz, efl

    def key_facts(self, S, conds):
        """for each key field: is it proven equal between slot S and the request"""
        an, prog = self.an, self.prog
        F = implied(an, band(*conds))
        out = {}
        m0 = Mem()
        self.trips = []
        for cl in ARGS:
            for o, s, n in fields(prog, cl):
                a = an.load(m0, add(S, const(self.lay.key[cl] + o)), "?", s)
                b = an.load(m0, add(self.am[cl], const(o)), "?", s)
                out[(cl, o)] = holds(F, sub(a, b))
        mo = self.lay.key["Material"]
        st = [o for o, s, n in fields(prog, "Material") if n.endswith("_M_start")][0]
        a0 = an.load(m0, add(S, const(mo + st)), "ptr", 8)
        a1 = an.load(m0, add(S, const(mo + st + 8)), "ptr", 8)
        b0 = an.load(m0, add(self.am["Material"], const(st)), "ptr", 8)
        b1 = an.load(m0, add(self.am["Material"], const(st + 8)), "ptr", 8)
        out[("ncomponents",)] = holds(F, sub(sub(a1, a0), sub(b1, b0)))
        na = tm.scale(sub(a1, a0), tm.Fraction(1, self.esz))
        nb = tm.scale(sub(b1, b0), tm.Fraction(1, self.esz))
        for o, s, n in self.efl:
            ok = False
            for kid, (info, es) in F.forall.items():
                k = info.k
                idx = [k]
                for c in (na, nb):
                    idx.append(sub(sub(c, ONE), k))
                ids = {monic(e).id for e in es}
                for ia in idx:
                    e = add(tm.scale(ia, tm.Fraction(self.esz)), const(o))
                    w = sub(an.load(m0, add(a0, e), "?", s), an.load(m0, add(b0, e), "?", s))
                    if monic(w).id in ids and self.full(info, (na, nb)):
                        ok = True
            out[("component", o)] = ok or F.all
        return out

    def full(self, info, counts):
        """does the loop run over all components before it can leave normally"""
        ids = set()
        ren = {}
        for c in counts:
            ids.add(c.id)
        for g in info.exit_guards:
            for lit in (g.a if g.op == "and" else (g,)):
                tr = solve_trip(bnot(lit), info.k, lambda t: False)
                if tr is not None:
                    # the outer loop's index may still be open in the raw guard
                    cand = {tr.id}
                    for L in self.an.loops:
                        if getattr(L, "smap", None):
                            cand.add(subst(tr, L.smap).id)
                    if cand & ids:
                        return True
        return False


def monic(d):
    """scale-normalised linear form"""
    c, m = tm._lin(d)
    if not m:
        return d
    t = min(m, key=lambda x: x.id)
    return tm.scale(d, 1 / m[t])


def holds(F, d):
    if F.all or d is ZERO:
        return True
    w = monic(d).id
    return any(monic(e).id == w for e in F.eqs)


def literals(conds):
    out = []
    st = list(conds)
    while st:
        x = st.pop()
        if x.op == "and":
            st.extend(x.a)
        elif x.op == "not" and x.a[0].op == "or":
            st.extend(bnot(y) for y in x.a[0].a)
        else:
            out.append(x)
    return out


def under(t, conds):
    """simplify a term knowing the conditions hold"""
    m = {}
    for x in literals(conds):
        if x.op == "not":
            m[x.a[0]] = FALSE
        else:
            m[x] = TRUE
    for _ in range(4):
        u = subst(t, m)
        if u is t:
            break
        t = u
    return t


def denull(an, t):
    """the address of an element is never null"""
    m = {}
    for x in tm.walk([t]):
        if x.op in ("eq", "eqi"):
            c, lin = tm._lin(x.a[0])
            p = [y for y in lin if y.id in an.ptrs]
            if len(p) == 1 and lin[p[0]] in (1, -1) and (len(lin) > 1 or c != 0) and not any(
                    contains_ptr(an, y) for y in lin if y is not p[0] and y.op != "leaf"):
                m[x] = FALSE
    return subst(t, m) if m else t


def contains_ptr(an, t):
    return any(y.id in an.ptrs for y in tm.walk([t]))


def enrich(an, conds):
    """a test that repeats a loop's exit condition after the loop tells which exit was taken"""
    out = list(conds)
    for L in an.loops:
        gs = getattr(L, "exit_guards", None)
        if not gs or len(gs) < 2:
            continue
        for n, g in enumerate(gs):
            if not all(band(g, h) is FALSE for m, h in enumerate(gs) if m != n) or g.op not in ("eq", "eqi"):
                continue
            w = monic(subst(g, L.smap).a[0]) if subst(g, L.smap).op in ("eq", "eqi") else None
            for x in literals(conds):
                y = x.a[0] if x.op == "not" else x
                if w is not None and y.op in ("eq", "eqi") and monic(y.a[0]) is w:
                    via = L.via[n] if n < len(L.via) else bnot(tm.bor(*L.via))
                    out.append(bnot(via) if x.op == "not" else via)
    return tuple(out)


def unsat(t, budget=None):
    """propositionally contradictory (case splitting over the atomic conditions)"""
    if budget is None:
        budget = [4000]
    if t is FALSE:
        return True
    if t is TRUE or budget[0] <= 0:
        return False
    budget[0] -= 1
    units = [x for x in (t.a if t.op == "and" else (t,)) if x.op not in ("or", "ite", "and") and
             not (x.op == "not" and x.a[0].op in ("and", "or", "ite"))]
    rest = [x for x in (t.a if t.op == "and" else (t,)) if x not in units]
    if not rest:
        return False
    if units:
        r = under(band(*rest), units)
        u = band(r, *units)
        if u is FALSE:
            return True
        if u is not t:
            return unsat(u, budget)
    at = next(x for x in tm.walk([rest[0]]) if x.op in ("eq", "eqi", "gt", "gti", "bleaf"))
    return unsat(under(band(*rest), [at]), budget) and unsat(under(band(*rest), [bnot(at)]), budget)


def infeasible(an, conds):
    """conditions contradict each other: either plainly, or because one loop left after rejecting every
    element while another loop over the same range stopped at an element the first would have accepted"""
    if band(*conds) is FALSE:
        return True
    done, hit = [], []
    for x in literals(conds):
        n = x.op == "not"
        y = x.a[0] if n else x
        if y.op == "bleaf" and y.id in an.exitvia:
            info, e = an.exitvia[y.id]
            tr = [solve_trip(bnot(g), info.k, lambda t: False) for g in info.exit_guards]
            if not n and tr[e] is not None:
                done.append((info, tr[e]))
            if n and tr[e] is not None:
                rest = [k for k in range(len(tr)) if k != e]
                hit.append((info, tr[e], rest))
            if not n and tr[e] is None:
                t2 = [t for t in tr if t is not None]
                if len(t2) == 1:
                    hit.append((info, t2[0], [e]))
    k = leaf("anyk", 0)
    for d, td in done:
        for h, th, rest in hit:
            if d is h or td is not th:
                continue
            back = subst(d.back_guard, {d.k: k})
            if all(unsat(band(back, subst(h.exit_guards[n], {h.k: k}))) for n in rest):
                return True
    return False
