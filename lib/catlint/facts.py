"""Equalities implied by a condition (must-equal facts)."""
from . import terms as tm
from .terms import TRUE, FALSE, sub, neg, eq0, subst


def norm(d):
    n = neg(d)
    return d if d.id < n.id else n


class Facts:
    """eqs: set of terms known to be zero; forall: {loop info id: (info, facts of one iteration)}"""

    def __init__(self, eqs=(), forall=None, all_=False):
        self.eqs = frozenset(eqs)
        self.forall = dict(forall or {})
        self.all = all_          # contradiction: everything holds

    def union(self, o):
        if self.all or o.all:
            return Facts(all_=True)
        fa = dict(self.forall)
        for k, (i, e) in o.forall.items():
            fa[k] = (i, fa[k][1] | e) if k in fa else (i, e)
        return Facts(self.eqs | o.eqs, fa)

    def inter(self, o):
        if self.all:
            return o
        if o.all:
            return self
        fa = {}
        for k, (i, e) in self.forall.items():
            if k in o.forall:
                fa[k] = (i, e & o.forall[k][1])
        return Facts(self.eqs & o.eqs, fa)

    def holds(self, d):
        return self.all or norm(d).id in {x.id for x in self.eqs}


def implied(an, t, depth=0, _memo=None):
    """facts that hold whenever the boolean term t is true"""
    if depth > 60:
        return Facts()
    if t is TRUE:
        return Facts()
    if t is FALSE:
        return Facts(all_=True)
    op = t.op
    if op == "and":
        return _conj(an, t.a, depth)
    if op == "or":
        r = None
        for x in t.a:
            f = implied(an, x, depth + 1)
            r = f if r is None else r.inter(f)
        return r
    if op == "ite":
        c, a, b = t.a
        return _conj(an, (c, a), depth).inter(_conj(an, (tm.bnot(c), b), depth))
    if op in ("eq", "eqi"):
        return _zero(t.a[0])
    if op == "not":
        x = t.a[0]
        if x.op == "or":
            return _conj(an, [tm.bnot(y) for y in x.a], depth)
        if x.op == "and":
            return implied(an, tm.bor(*[tm.bnot(y) for y in x.a]), depth + 1)
        if x.op in ("gt", "gti") and x.a[0].op == "fn" and x.a[0].a[0] == "fabs":
            return _zero(x.a[0].a[1])
        if x.op == "ite":
            c, a, b = x.a
            return _conj(an, (c, tm.bnot(a)), depth).inter(_conj(an, (tm.bnot(c), tm.bnot(b)), depth))
        return _conj(an, (t,), depth)
    return _conj(an, (t,), depth)


def _zero(d):
    if d.op == "fn" and d.a[0] == "fabs":
        return _zero(d.a[1])
    if d.op == "fn" and d.a[0] == "memcmp":
        r = Facts()
        for x in d.a[1:]:
            r = r.union(_zero(x))
        return r
    return Facts([norm(d)])


def _conj(an, lits, depth):
    r = Facts()
    pos, negs = {}, {}
    flat = []
    st = list(lits)
    while st:
        x = st.pop()
        if x.op == "and":
            st.extend(x.a)
        elif x.op == "not" and x.a[0].op == "or":
            st.extend(tm.bnot(y) for y in x.a[0].a)
        else:
            flat.append(x)
    for x in flat:
        neg_ = x.op == "not"
        y = x.a[0] if neg_ else x
        if y.op == "bleaf" and y.id in an.exitvia:
            info, n = an.exitvia[y.id]
            (negs if neg_ else pos).setdefault(id(info), (info, set()))[1].add(n)
            continue
        if x.op == "not" and y.op == "bleaf":
            continue
        if x.op == "bleaf":
            continue
        if (x.op == "not" and y.op in ("eq", "eqi") or x.op in ("gt", "gti")) and y.a[0].id in an.recfinal:
            r = r.union(_flag(an, y.a[0], depth))
            continue
        if x.op == "not" and y.op in ("eq", "eqi"):
            continue
        if x.op == "not" and y.op in ("gt", "gti") and not (y.a[0].op == "fn" and y.a[0].a[0] == "fabs"):
            continue
        if x.op in ("gt", "gti"):
            continue
        r = r.union(implied(an, x, depth + 1))
    for k, (info, ns) in pos.items():
        for n in ns:
            r = r.union(exit_facts(an, info, n, depth))
    for k, (info, ns) in negs.items():
        rest = [n for n in range(len(info.exit_guards)) if n not in ns]
        f = None
        for n in rest:
            e = exit_facts(an, info, n, depth)
            f = e if f is None else f.inter(e)
        r = r.union(f if f is not None else Facts(all_=True))
    return r


def exit_facts(an, info, n, depth):
    """facts after leaving the loop through exit n: the exit condition at the last iteration, and the
    continue condition for every earlier iteration"""
    g = implied(an, info.exit_guards[n], depth + 1)
    m = info.smap
    eqs = {norm(subst(e, m)) for e in g.eqs}
    fa = {k: (i, frozenset(norm(subst(e, m)) for e in es)) for k, (i, es) in g.forall.items()}
    b = implied(an, info.back_guard, depth + 1)
    if b.eqs:
        fa[info.k.id] = (info, frozenset(b.eqs))
    return Facts(eqs, fa, g.all)


def _flag(an, rec, depth):
    """a flag that, once zero, stays zero was non-zero after every iteration"""
    info, mu, ini, nx = an.recfinal[rec.id]
    if subst(nx, {mu: tm.ZERO}) is not tm.ZERO:
        return Facts()
    b = implied(an, tm.bnot(eq0(nx)), depth + 1)
    return Facts((), {info.k.id: (info, frozenset(b.eqs))} if b.eqs else None)
