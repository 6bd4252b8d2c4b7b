"""P02: life cycle of cache slots."""
import re

from .. import cache, terms as tm
from ..build import CheckError
from ..cache import ARGS, Layout, Lookup, alternatives, infeasible, under
from ..facts import implied
from ..interp import Analyzer, Mem
from ..terms import ZERO, FALSE, TRUE, add, sub, const, leaf, subst


def short(t):
    return tm.pretty(t, 4)[:240]


def check(ctx):
    ctx.rule("returned-slot", "every slot a lookup can return either matched the request or was just computed for it", 2)
    ctx.rule("fresh-key", "tables of an inserted slot are computed for exactly the requested key", 2)
    ctx.rule("own-table", "an inserted slot's interpolator is built on the energy grid from the same slot's own table", 3)
    ctx.rule("unused-slot", "a never-filled slot cannot match", 1)
    ctx.rule("cursor", "the insertion position stays inside the store", 1)
    ctx.rule("store-size", "construction and reset leave a non-empty store with the position at its start", 2)
    ctx.rule("copy", "assigning one slot to another keeps tables and interpolators together", 3)
    ctx.rule("accessor", "each accessor hands out the interpolator of the quantity it names", 6)
    prog = ctx.prog(probes=["storage.cpp"])
    look = Lookup(prog, ctx)
    an, lay, mem = look.an, look.lay, look.res.mem
    loc = look.f.where()
    this = look.this
    datat = prog.type_by_name("Data")
    flat = {n: o for o, s, n, _ in prog.flat(datat)}
    st = [o for n, o in flat.items() if n.endswith("_M_start")]
    fin = [o for n, o in flat.items() if n.endswith("_M_finish")]
    cur = [o for n, o in flat.items() if n.endswith("_M_current")]
    if len(st) != 1 or len(cur) != 1:
        raise CheckError("layout of the store not recognised: %s" % sorted(flat))
    m0 = Mem()
    start = an.load(m0, add(this, const(st[0])), "ptr", 8)
    finish = an.load(m0, add(this, const(fin[0])), "ptr", 8)
    index = an.load(m0, add(this, const(cur[0])), "ptr", 8)
    stride = const(lay.size)
    grid = prog.glob("catima::energy_table")
    gobj = an.obj("glob", grid["name"] if isinstance(grid, dict) else grid)

    def pairs():
        for s, so in lay.splines.items():
            b = re.sub(r"_?spline$", "", s)
            if b not in lay.tables:
                raise CheckError("interpolator member %s has no table of the same name" % s)
            yield s, so, b, lay.tables[b]

    # ---- slots handed out
    nf = nm = 0
    fresh = []
    for conds, S in look.alts:
        if infeasible(an, conds):
            ctx.count("infeasible_alternatives")
            continue
        keyv = under(an.load(mem, add(S, const(lay.key["Projectile"])), "?", 8), conds)
        call = keyv.a[0] if keyv.op == "fld" else None
        if call is not None and call.op == "call" and "calculate_DataPoint" in call.a[0]:
            nf += 1
            fresh.append((conds, S, call))
            ctx.ob("returned-slot", "inserted slot %d" % nf, True, "", loc)
            continue
        facts = look.key_facts(S, conds)
        core = [("Projectile", 0), ("Projectile", 8), ("ncomponents",), ("Config", 0)]
        if not any(facts.values()):
            ctx.ob("returned-slot", "slot %s" % short(S), False,
                   "lookup can return slot %s, which neither matched the request nor was computed for it" % short(S), loc)
            continue
        nm += 1
        ctx.ob("returned-slot", "matched slot %d" % nm, True, "", loc)
        # unused slot: put a default-constructed slot's contents in place of S
        dp = [f for f in prog.by_q.get("catima::DataPoint::DataPoint", []) if f.defined and len(f.params) == 1]
        if not dp:
            raise CheckError("anchor not found: default constructor of the slot type")
        a2 = Analyzer(prog, models=cache.models(prog))
        d = a2.default_args(dp[0], "unused slot ")
        r2 = a2.run(dp[0], d)
        sb, so = an.split(S)
        mp = {}
        allc = tm.band(*conds)
        terms = [allc]
        for x in cache.literals(conds):
            y = x.a[0] if x.op == "not" else x
            if y.op == "bleaf" and y.id in an.exitvia:
                info, n = an.exitvia[y.id]
                others = [g for k, g in enumerate(info.exit_guards) if (k != n) == (x.op == "not")]
                terms.append(subst(tm.bor(*others), info.smap))
        cond = tm.band(*terms)
        for _ in range(3):
            for x in tm.walk([cond]):
                if x.op == "leaf" and x.a[0] == "ld" and x.a[1] is sb:
                    o = sub(x.a[2], so)
                    if o.op == "c" and 0 <= o.a[0] < lay.size:
                        mp[x] = a2.load(r2.mem, add(d[0], o), "?", 8)
            cond = subst(cond, mp)
        ctx.ob("unused-slot", "matched slot %d" % nm, cond is FALSE,
               "a never-filled (default constructed) slot can satisfy the match condition", loc)
    if nf == 0 or nm == 0:
        if all(o[2] for o in ctx.obs):
            raise CheckError("lookup has no inserting (%d) or no reusing (%d) path" % (nf, nm))
    # ---- inserted slots
    for n, (conds, S, call) in enumerate(fresh):
        ok = True
        bad = ""
        cf = [f for f in prog.by_q.get("catima::calculate_DataPoint", []) if f.defined][0]
        am = cache.arg_of(prog, cf)
        hassret = "sret" in cf.args[0]
        for cl, num in am.items():
            agg = call.a[1 + num - (1 if hassret else 0)]
            fl = [(o, s, nm_) for o, s, nm_ in cache.fields(prog, cl) if not nm_.endswith("_M_end_of_storage")]
            if not isinstance(agg, tm.T) or agg.op != "agg" or len(agg.a) != len(fl):
                raise CheckError("arguments of the table computation not understood")
            for (o, s, nm_), v in zip(fl, agg.a):
                w = tm.num(an.load(m0, add(look.am[cl], const(o)), "?", s))
                if under(v, conds) is not w and not (cl == "Projectile" and nm_ == "T"):
                    ok, bad = False, "%s.%s is %s" % (cl, nm_, short(v))
        ctx.ob("fresh-key", "inserted slot %d" % (n + 1), ok, "table computed with a different key: " + bad, loc)
        for tname, to in lay.tables.items():
            v = under(an.load(mem, add(S, const(to)), "ptr", 8), conds)
            ctx.ob("fresh-key", "table %s of inserted slot %d" % (tname, n + 1),
                   v is tm.mk("fld", call, to) or (v.op == "leaf" and v.a[0] == "ownbuf" and v.a[-1] is tm.mk("fld", call, to)),
                   "table %s of the inserted slot is %s" % (tname, short(v)), loc)
        for s, so, b, bo in pairs():
            v = under(an.load(mem, add(S, const(so)), "?", 8), conds)
            tab = under(an.load(mem, add(S, const(bo)), "ptr", 8), conds)
            ctx.ob("own-table", "%s of inserted slot %d" % (s, n + 1),
                   is_interp(v) and v.a[1] is gobj and v.a[2] is tab,
                   "interpolator %s is %s, expected one over the energy grid and the slot's own %s" % (s, short(v), b), loc)
    # ---- cursor
    iv = an.load(mem, add(this, const(cur[0])), "ptr", 8)
    ialts = [(c, v) for c, v in alternatives(iv) if not infeasible(an, c)]
    strong = all(v is start or v is index or differ(c, sub(v, finish)) for c, v in ialts)
    for n, (c, v) in enumerate(ialts):
        ok = v is start or v is index
        if not ok:
            S = sub(v, stride)
            ok = S is start or (S is index and (strong or differ(c, sub(index, finish))))
        ctx.ob("cursor", "position after a lookup, case %d" % (n + 1), ok,
               "position becomes %s, which is not proven to be inside the store" % short(v), loc)
    for n, (c, S, call) in enumerate(fresh):
        ok = S is start or (S is index and (strong or differ(c, sub(index, finish))))
        ctx.ob("cursor", "insertion %d" % (n + 1), ok, "slot %s is written without being proven inside the store" % short(S), loc)
    # ---- construction and reset
    for q in ("catima::Data::Data", "catima::Data::Reset"):
        f = [g for g in prog.by_q.get(q, []) if g.defined]
        if not f:
            raise CheckError("anchor not found: " + q)
        a3 = Analyzer(prog, models=cache.models(prog))
        ar = a3.default_args(f[0])
        r = a3.run(f[0], ar)
        s_ = a3.load(r.mem, add(ar[0], const(st[0])), "ptr", 8)
        e_ = a3.load(r.mem, add(ar[0], const(fin[0])), "ptr", 8)
        i_ = a3.load(r.mem, add(ar[0], const(cur[0])), "ptr", 8)
        n = sub(e_, s_)
        ok = n.op == "c" and n.a[0] >= lay.size and n.a[0] % lay.size == 0 and i_ is s_
        ctx.ob("store-size", q, ok, "after %s the store has size %s (slot size %d) and position %s" % (
            q, short(n), lay.size, short(i_)), f[0].where())
    # ---- copying
    for f in prog.functions.values():
        if not f.defined or f.qname not in ("catima::DataPoint::operator=", "catima::DataPoint::DataPoint") or len(f.params) != 2:
            continue
        a4 = Analyzer(prog, models=cache.models(prog))
        ar = a4.default_args(f)
        r = a4.run(f, ar)
        moving = "&&)" in f.dem
        m = Mem()
        for cl in ARGS:
            for o, s_, nm_ in cache.fields(prog, cl):
                if "_M_" in nm_:
                    continue
                v = a4.load(r.mem, add(ar[0], const(lay.key[cl] + o)), "?", s_)
                w = a4.load(m, add(ar[1], const(lay.key[cl] + o)), "?", s_)
                ctx.ob("copy", "%s: key %s.%s" % (f.dem, cl, nm_), v is w, "key member is %s after the assignment" % short(v), f.where())
        for s, so, b, bo in pairs():
            tab = a4.load(r.mem, add(ar[0], const(bo)), "ptr", 8)
            src = a4.load(m, add(ar[1], const(bo)), "ptr", 8)
            if not moving:
                okt = tab.op == "leaf" and tab.a[0] == "ownbuf"
                ctx.ob("copy", "%s: table %s" % (f.dem, b), okt, "table is %s" % short(tab), f.where())
            v = a4.load(r.mem, add(ar[0], const(so)), "?", 8)
            for c, x in alternatives(v):
                if is_interp(x):
                    ok = x.a[1].id == a4.obj("glob", gobj.a[2]).id and x.a[2] is tab
                elif moving and x is a4.load(m, add(ar[1], const(so)), "?", 8):
                    ok = tab is src
                else:
                    # stale interpolator is harmless only when the copied tables are empty
                    F = implied(a4, tm.band(*c))
                    ok = any(cache.holds(F, sub(a4.load(m, add(ar[1], const(o + 8)), "ptr", 8),
                                                a4.load(m, add(ar[1], const(o)), "ptr", 8))) for o in lay.tables.values())
                ctx.ob("copy", "%s: %s%s" % (f.dem, s, "" if is_interp(x) else " (empty source)"), ok,
                       "interpolator %s is %s while the slot's own table is %s" % (s, short(x), short(tab)), f.where())
    # ---- accessors, in both storage variants
    for nm_, opts in (("main", None), ("nospl", {"STORE_SPLINES": "OFF"})):
        pr = prog if nm_ == "main" else ctx.prog(nm_, opts, probes=["storage.cpp"])
        la = Layout(pr)
        if nm_ == "nospl" and la.splines:
            raise CheckError("STORE_SPLINES=OFF still stores interpolators")
        for b, bo in la.tables.items():
            f = pr.find("catima::get_%s_spline" % b)
            a5 = Analyzer(pr, models=cache.models(pr))
            ar = a5.default_args(f)
            r = a5.run(f, ar)
            g = a5.obj("glob", gobj.a[2])
            if nm_ == "main":
                want = add(ar[0], const(la.splines[b + "_spline"]))
                ok, got = r.ret is want, r.ret
            else:
                got = a5.load(r.mem, ar[0], "?", 8)
                dp = ar[1]
                ok = is_interp(got) and got.a[1] is g and got.a[2] is a5.load(Mem(), add(dp, const(bo)), "ptr", 8)
            ctx.ob("accessor", "%s (%s)" % (f.qname, nm_), ok, "accessor of %s returns %s" % (b, short(got)), f.where())


def is_interp(v):
    return v.op == "call" and v.a[0] == "Interpolator"


def differ(conds, d):
    """the conditions include d != 0"""
    w = cache.monic(d)
    return any(x.op == "not" and x.a[0].op in ("eq", "eqi") and cache.monic(x.a[0].a[0]) is w
               for x in cache.literals(conds))
