"""P01: every input of a tabulated value is compared exactly by the lookup."""
from .. import terms as tm
from ..build import CheckError
from ..cache import Lookup, Support, ARGS, Layout
from ..terms import const, add


def check(ctx):
    prog = ctx.prog(probes=["storage.cpp"])
    ctx.rule("support-compared", "each attribute a tabulated value depends on is proven exactly equal on every path "
             "on which the lookup reuses a stored slot", 12)
    ctx.rule("key-recorded", "each such attribute is recorded unchanged in the slot's key by the table computation", 11)
    ctx.assume("equality of doubles is IEEE ==; the cache object is only reachable through its class")
    sup = Support(prog, ctx)
    ctx.count("table_store_sites", sup.table_stores)
    need = {"Projectile": 3, "Config": 6, "component": 3}
    for c, n in need.items():
        have = len([k for k in sup.items if k[0] == c])
        if have < n:
            ctx.notes.append("support of %s: %d" % (c, have))
    if len(sup.items) < 12:
        raise CheckError("only %d attributes found to influence the tables: %s" % (len(sup.items), sorted(sup.items.values())))
    look = Lookup(prog, ctx)
    lay = look.lay
    an = look.an
    reuse = []
    for conds, S in look.alts:
        m = [look.am[c] for c in ARGS]
        v = an.load(look.res.mem, S, "?", 8)
        facts = look.key_facts(S, conds)
        if any(facts.values()):
            reuse.append((S, facts))
    if not reuse:
        raise CheckError("no path of the lookup reuses a stored slot")
    ctx.count("reuse_paths", len(reuse))
    loc = look.f.where()
    for it, name in sorted(sup.items.items(), key=lambda x: x[1]):
        bad = [S for S, fa in reuse if not fa.get(it)]
        ctx.ob("support-compared", name, not bad,
               "the tables depend on %s, but the lookup can reuse a slot without requiring it to be exactly equal "
               "(slot %s)" % (name, tm.pretty(bad[0], 3)[:200] if bad else ""), loc)
    # the key stored in a slot is the request
    sa, ret = sup.an, sup.ret
    for it, name in sorted(sup.items.items(), key=lambda x: x[1]):
        if it[0] in ARGS:
            o = it[1]
            v = sa.load(sup.res.mem, add(ret, const(lay.key[it[0]] + o)), "?", 8)
            w = tm.leaf("ld", sup.objs[it[0]], const(o))
            ctx.ob("key-recorded", name, v is w, "slot key holds %s instead of the request's %s" % (tm.pretty(v, 4), name),
                   sup.f.where())
        elif it[0] == "ncomponents":
            for d in (0, 8):
                o = sup.atoms_off + d
                v = sa.load(sup.res.mem, add(ret, const(lay.key["Material"] + o)), "?", 8)
                w = tm.leaf("ld", sup.objs["Material"], const(o))
                ctx.ob("key-recorded", "components (%s)" % ("begin" if d == 0 else "end"), v is w,
                       "slot key's components are %s" % tm.pretty(v, 4), sup.f.where())
