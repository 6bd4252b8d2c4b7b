"""P05: a result depends on nothing but the arguments."""
import re

from .. import ast, terms as tm
from ..effects import Effects
from ..interp import Analyzer
from ..ir import operands
from ..report import pmap
from ..terms import add, const, leaf

RAW = "function(lowerinvoke),function(loop-simplify,lcssa)"     # nothing that folds uninitialised values away
INIT = re.compile(r"^(_GLOBAL__sub_I|__cxx_global_var_init)")
INPUT = ("Projectile", "Material", "Layers", "Config", "Target", "Phasespace", "DataPoint")
SOURCES = re.compile(
    r"^(rand|rand_r|srand|random|srandom|drand48|lrand48|time|clock|gettimeofday|clock_gettime|getenv|secure_getenv|"
    r"setlocale|getpid|fopen|fopen64|open|open64|fread|fgets|fscanf|scanf|getchar|read|getrandom|arc4random|"
    r"std::chrono::.*::now|std::random_device.*|std::mersenne_twister_engine.*|std::linear_congruential_engine.*|"
    r"std::basic_ifstream.*|std::basic_istream.*|std::getenv|std::this_thread::get_id)$")
SAMPLE = ["rand", "time", "getenv", "std::chrono::_V2::system_clock::now", "std::random_device::operator()"]


def is_ctor(g):
    p = g.qname.split("<")[0].split("::")
    return len(p) > 1 and p[-1].split("(")[0] == p[-2]


def undefined(t):
    """leaves of the value that were never assigned"""
    seen, st, out = set(), [t], []
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, tm.T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "leaf":
            if x.a[0] in ("undef", "undefval"):
                out.append(x)
            continue
        if x.op == "sel":
            arms = [x.a[0]]
            while arms:
                y = arms.pop()
                if y.op == "ite":
                    arms += y.a[1:]
                elif y.op == "arr0":
                    out.append(x)
        st.extend(x.a)
    return out


def guarded(prog, f, name):
    """blocks of f inside the one-time initialisation of the function-local static `name`; None if there is none"""
    gv = "_ZGV" + name[2:]
    f.cfg()
    for bn, b in enumerate(f.blocks):
        for i in b:
            if i["op"] == "call" and i["callee"][0] == "f" and i["callee"][1] == "__cxa_guard_acquire" \
                    and i["args"][0] == ["g", gv]:
                inside = set()
                for t in range(len(f.blocks)):
                    if t != bn and f.dominates(bn, t):
                        inside.add(t)
                rel = [n for n, bb in enumerate(f.blocks) for j in bb if j["op"] == "call" and j["callee"][0] == "f"
                       and j["callee"][1] == "__cxa_guard_release" and j["args"][0] == ["g", gv]]
                # after the release everything is reached again without initialising
                return {t for t in inside if any(f.dominates(t, r) for r in rel)} | {r for r in rel}
    return None


def tainted(f, blocks, name):
    """does anything computed for the one-time initialisation come from the function's arguments?"""
    byid = {i["id"]: i for b in f.blocks for i in b if "id" in i}
    stores = {}
    for b in f.blocks:
        for i in b:
            if i["op"] == "store" and i["ops"][1][0] == "i":
                stores.setdefault(i["ops"][1][1], []).append(i["ops"][0])
    st = [o for b in blocks for i in f.blocks[b] for o in operands(i)]
    seen = set()
    while st:
        o = st.pop()
        if not isinstance(o, (list, tuple)) or not o:
            continue
        if o[0] == "a":
            return True
        if o[0] == "i" and o[1] not in seen:
            seen.add(o[1])
            i = byid.get(o[1])
            if i is not None:
                st.extend(operands(i))
                if i["op"] == "alloca":
                    st.extend(stores.get(o[1], ()))
        elif o[0] in ("cgep", "agg", "ce"):
            st.extend(x for x in o[1:] if isinstance(x, list))
    return False


def check(ctx):
    ctx.rule("globals", "no function writes process-wide state other than the cache (one-time argument-free initialisation aside)", 60)
    ctx.rule("arguments", "no function writes through a parameter its caller only reads", 60)
    ctx.rule("sources", "nothing reachable from the library reads clocks, random numbers, the environment or files", 100)
    ctx.rule("assigned", "every returned or handed-over value has been assigned on all paths", 100)
    ctx.assume("pointers to caller objects are not hidden in freshly allocated memory (no container of pointers in the library)")
    prog = ctx.prog(probes=["storage.cpp", "api.cpp"])
    store = prog.glob("catima::_storage")
    eff = Effects(prog)
    ctx.count("effect_summaries_computed", eff.steps, add=False)
    mine = [f for f in prog.defined() if f.in_repo() and not INIT.match(f.dem) and "catlint_probe" not in f.dem]
    ctx.require(any(r[0] == ("g", store) for f in mine for r in eff.sum[f.name]["writes"]),
                "the analysis no longer sees the cache being written")
    once = {}
    for g, sites in eff.sites.items():
        for (fn, (b, n)), loc in sites.items():
            f = prog.functions[fn]
            if INIT.match(f.dem) or g == store:
                continue
            blocks = guarded(prog, f, g)
            if blocks is None or b not in blocks:
                once[g] = (f, loc, "is written by")
            elif tainted(f, blocks, g):
                once[g] = (f, loc, "keeps a value taken from the arguments of the first call of")
            else:
                once.setdefault(g, None)
    api = ast.declared(prog.data["flags"])
    ctx.count("functions_declared_in_headers", len(api), add=False)
    for f in mine:
        s = eff.sum[f.name]
        bad = None
        for (b, p), loc in s["writes"].items():
            if b[0] == "g" and b[1] != store and not b[1].startswith("_ZGV"):
                o = once.get(b[1])
                if o is None:
                    continue
                dem = prog.globals[b[1]]["dem"] if b[1] in prog.globals else b[1]
                bad = bad or ("%s %s %s (reached from %s)" % (dem, o[2], o[0].dem, f.dem), o[1])
        ctx.ob("globals", f.dem, bad is None, bad[0] if bad else "", bad[1] if bad else f.where())
        bad = None
        for (b, p), loc in s["writes"].items():
            if b[0] != "p":
                continue
            nm, ty = f.params[b[1]]
            if nm == "<ret>" or ty is None:
                continue
            pt = prog.pointee(ty)
            if pt is None or pt < 0:
                continue
            t = prog.types[ty]
            while t["tag"] in ("DW_TAG_typedef", "DW_TAG_const_type"):
                t = prog.types[t["base"]]
            if t["tag"] == "DW_TAG_rvalue_reference_type":
                continue
            raw = prog.types[t["base"]]
            isconst = False
            while raw["tag"] in ("DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type"):
                isconst = isconst or raw["tag"] == "DW_TAG_const_type"
                raw = prog.types[raw["base"]]
            if "lambda" in raw["name"] or raw["name"] == "":
                continue
            public = f.name in api and (f.d["rty"] != "void" or f.params[0][0] == "<ret>") and nm != "this" and raw["name"] in INPUT
            if isconst or public:
                bad = bad or ("writes into the object its caller passed as '%s'" % nm, loc)
        ctx.ob("arguments", f.dem, bad is None, bad[0] if bad else "", bad[1] if bad else f.where())

    for s in SAMPLE:
        ctx.require(SOURCES.match(s), "the list of outside sources no longer matches " + s)
    ext = {}
    for f in prog.defined():
        for i in f.calls():
            if i["callee"][0] == "f":
                g = prog.functions.get(i["callee"][1])
                if g is None or not g.defined:
                    ext.setdefault(i["callee"][1], []).append((f, i))
    ctx.count("external_functions_called", len(ext), add=False)
    for f in mine:
        r = prog.reach([f])
        names = [x.name if hasattr(x, "name") else x for x in r]
        bad = None
        for m in names:
            h = prog.functions[m]
            for i in h.calls():
                if i["callee"][0] != "f":
                    continue
                g = prog.functions.get(i["callee"][1])
                q = g.qname if g else i["callee"][1]
                if SOURCES.match(q):
                    bad = bad or ("%s is called in %s" % (q, h.dem), h.loc(i))
        ctx.ob("sources", f.dem, bad is None, bad[0] if bad else "", bad[1] if bad else f.where())

    raw = ctx.prog("raw", probes=["storage.cpp", "api.cpp"], pipe=RAW)
    fs = [f for f in raw.defined() if f.in_repo() and not INIT.match(f.dem) and "catlint_probe" not in f.dem]

    def one(f):
        an = Analyzer(raw, opaque_if=lambda g: g.in_repo() and g is not f and "operator()" not in g.dem and not is_ctor(g))
        args = an.default_args(f)
        r = an.run(f, args)
        out = []
        if r.ret is not None:
            out += [("the returned value", u) for u in undefined(r.ret)]
        if f.args and "sret" in f.args[0]:
            lay = an.layouts.get(args[0].id)
            offs = [const(o) for o, _ in lay] if lay and len(lay) < 60 else [leaf("arg", "any index")]
            for o in offs:
                out += [("the returned object", u) for u in undefined(an.load(r.mem, add(args[0], o), "?", 8))]
        if is_ctor(f) and args[0].id in an.names:
            fl = [(o, nm) for o, sz, nm, _ in raw.flat(an.names[args[0].id])]
            cls = raw.types[raw.strip(an.names[args[0].id])]["name"]
            if cls in ("Projectile", "Config", "Material", "Target", "Phasespace", "Result", "MultiResult", "Layers"):
                for o, nm in fl:
                    if (args[0].id, const(o).id) not in r.mem.d and not nm.endswith("[]") and "_M_impl" not in nm:
                        out.append(("field %s of the constructed %s" % (nm, cls), None))
        for e in an.events:
            for n, a in enumerate(e.args):
                out += [("argument %d of %s" % (n + 1, e.name.split("(")[0]), u) for u in undefined(a)]
            if e.extra is not None:
                out += [("an argument of %s" % e.name.split("(")[0], u) for u in undefined(e.extra)]
        return sorted({w for w, u in out}), an.callsites

    for f, (bad, n) in zip(fs, pmap(one, fs)):
        ctx.count("call_sites_followed", n)
        ctx.ob("assigned", f.dem, not bad, "%s can be unassigned" % ", ".join(bad[:3]) if bad else "", f.where())
