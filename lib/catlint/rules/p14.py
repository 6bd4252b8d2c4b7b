"""P14: every loop counts towards a fixed bound, every recursion counts down."""
import struct

from .. import build
from ..build import CheckError
from ..effects import Effects, pmatch
from ..report import pmap

# iterators and small accessors are inlined, so that what a loop counts is a value and not a memory cell
PIPE = build.PIPE + ",cgscc(inline),function(sroa,early-cse<memssa>,simplifycfg,loop-simplify,lcssa)"
INLINE = (r"_ZNK?9__gnu_cxx(17__normal_iterator|(ne|eq|mi|lt|le|gt|ge|pl)I)|_ZN?K?St.*(begin|end|size|data|empty|front|back)Ev$|_ZSt(5begin|3end|6cbegin|4cend|4size|3min|3max|5clamp|4next|4prev|3abs)I"
          r"|_ZNK?St16reverse_iterator|_ZNK?St7complex|_ZSt(dv|ml|pl|mi)Id|_ZNK?St(6vector|5array).*ixE|_ZNSt14__array_traits|_ZNK?St(17_Rb_tree|14_List|20_List)\w*iterator")
PURE = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr", "sext", "zext", "trunc", "fadd", "fsub", "fmul", "fdiv", "fneg",
        "icmp", "fcmp", "select", "sitofp", "uitofp", "fptosi", "fptoui", "getelementptr", "ptrtoint", "inttoptr", "freeze", "bitcast", "fpext", "fptrunc"}
INVERSE = {"slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "eq": "ne", "ne": "eq",
           "olt": "uge", "uge": "olt", "ogt": "ule", "ule": "ogt", "ole": "ugt", "ugt": "ole", "oge": "ult", "ult_": "oge", "oeq": "une", "une": "oeq", "one": "ueq", "ueq": "one"}
FINV = dict(INVERSE, ult="oge", ule="ogt", ugt="ole", uge="olt")
SWAP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "eq": "eq", "ne": "ne",
        "olt": "ogt", "ogt": "olt", "ole": "oge", "oge": "ole", "oeq": "oeq", "one": "one", "une": "une", "ueq": "ueq"}


def number(o):
    if o[0] == "ci":
        return o[1]
    if o[0] in ("cf", "cs"):
        return struct.unpack("<d", struct.pack("<Q", int(o[1], 16)))[0]
    return None


class LoopCheck:
    def __init__(self, prog, ef, f, loop):
        self.prog, self.ef, self.f, self.loop = prog, ef, f, loop
        self.block = {}
        for b, ins in enumerate(f.blocks):
            for i in ins:
                if "id" in i:
                    self.block[i["id"]] = b
        self.writes = None
        self.memo = {}

    def inside(self, o):
        return o[0] == "i" and self.block.get(o[1]) in self.loop.blocks

    # ---- values that do not change while the loop runs
    def fixed(self, o, depth=0):
        if not self.inside(o):
            return True
        if o[1] in self.memo:
            return self.memo[o[1]]
        self.memo[o[1]] = False
        i = self.f.insts[o[1]]
        r = False
        if depth < 20:
            ops = list(i.get("ops", ())) + ([i["base"]] if "base" in i else []) + [x[0] for x in i.get("vars", ())]
            if i["op"] in PURE:
                r = all(self.fixed(x, depth + 1) for x in ops)
            elif i["op"] == "load":
                r = self.fixed(i["ops"][0], depth + 1) and self.unwritten(self.ef.val(i["ops"][0], self.ef.frames[self.f.name]))
            elif i["op"] == "call" and i["callee"][0] == "f":
                g = self.prog.functions.get(i["callee"][1])
                s = self.ef.sum.get(i["callee"][1])
                if g is not None and s is not None and g.defined and not s["writes"]:
                    S = self.ef.frames[self.f.name]
                    r = all(self.fixed(a, depth + 1) for a in i["args"]) and all(self.unwritten(self.ef.val(a, S), True) for a in i["args"])
                elif g is not None and not g.defined and i["callee"][1].startswith("llvm.") and i["ty"] in ("double", "i32", "i64"):
                    r = all(self.fixed(a, depth + 1) for a in i["args"])
        self.memo[o[1]] = r
        return r

    def unwritten(self, places, whole=False):
        if self.writes is None:
            self.writes = self.ef.loop_writes(self.f, self.loop.blocks)
        for b, p in places:
            for b2, q in self.writes:
                if b == b2 and (whole or pmatch(p, q)):
                    return False
        return True

    # ---- what is counted
    def phis(self):
        return [i for i in self.f.blocks[self.loop.header] if i["op"] == "phi"]

    def steps(self, o, phi, seen=()):
        """increments of phi on the ways to value o; None if it is not phi plus constants"""
        if o == ["i", phi["id"]]:
            return {0}
        if o[0] != "i" or not self.inside(o) or o[1] in seen:
            return None
        i = self.f.insts[o[1]]
        seen = seen + (o[1],)
        if i["op"] in ("add", "fadd"):
            for a, b in (i["ops"], i["ops"][::-1]):
                c = number(b)
                if c is not None:
                    r = self.steps(a, phi, seen)
                    return None if r is None else {x + c for x in r}
            return None
        if i["op"] in ("sub", "fsub"):
            c = number(i["ops"][1])
            r = self.steps(i["ops"][0], phi, seen) if c is not None else None
            return None if r is None else {x - c for x in r}
        if i["op"] == "getelementptr" and not i.get("vars"):
            r = self.steps(i["base"], phi, seen)
            return None if r is None else {x + i["off"] for x in r}
        if i["op"] in ("sext", "zext", "trunc", "freeze"):
            return self.steps(i["ops"][0], phi, seen)
        if i["op"] in ("sitofp", "uitofp"):
            return self.steps(i["ops"][0], phi, seen)
        if i["op"] in ("phi", "select"):
            out = set()
            for x in ([x for _, x in i["in"]] if i["op"] == "phi" else i["ops"][1:]):
                r = self.steps(x, phi, seen)
                if r is None:
                    return None
                out |= r
            return out
        return None

    def direction(self, phi):
        out = set()
        for b, o in phi["in"]:
            if b in self.loop.blocks:
                r = self.steps(o, phi)
                if r is None:
                    return 0, out
                out |= r
        if out and min(out) > 0:
            return 1, out
        if out and max(out) < 0:
            return -1, out
        return 0, out

    # ---- conditions
    def conjuncts(self, o, truth, depth=0):
        """comparisons (pred, a, b) that hold if condition o has this truth value"""
        if o[0] != "i" or depth > 8:
            return []
        i = self.f.insts[o[1]]
        if i["op"] in ("icmp", "fcmp"):
            p = i["pred"]
            if not truth:
                p = (FINV if i["op"] == "fcmp" else INVERSE).get(p)
            return [(p, i["ops"][0], i["ops"][1], i["op"])] if p else []
        if i["op"] == "xor" and number(i["ops"][1]) is not None:
            return self.conjuncts(i["ops"][0], not truth, depth + 1)
        if i["op"] == "and" and truth or i["op"] == "or" and not truth:
            return [c for x in i["ops"] for c in self.conjuncts(x, truth, depth + 1)]
        if i["op"] == "select":
            s, a, b = i["ops"]
            if truth and number(b) == 0:
                return self.conjuncts(s, True, depth + 1) + self.conjuncts(a, True, depth + 1)
            if not truth and number(a) is not None and number(a) & 1:
                return self.conjuncts(s, False, depth + 1) + self.conjuncts(b, False, depth + 1)
        if i["op"] == "phi":
            rest = [(b, x) for b, x in i["in"] if not (number(x) is not None and bool(number(x) & 1) != truth)]
            if len(rest) == 1:
                return self.conjuncts(rest[0][1], truth, depth + 1)
        return []

    def root(self, o, depth=0):
        """where a pointer comes from: the object whose begin or end it is"""
        while depth < 12:
            depth += 1
            if o[0] != "i":
                return o
            i = self.f.insts[o[1]]
            if i["op"] == "getelementptr":
                o = i["base"]
            elif i["op"] == "load":
                o = i["ops"][0]
            elif i["op"] in ("call",) and i["args"]:
                o = i["args"][0]
            elif i["op"] == "phi" and len({str(x) for _, x in i["in"]}) == 1:
                o = i["in"][0][1]
            else:
                return o
        return o

    def bounded(self):
        """-> reason or None"""
        f, L = self.f, self.loop
        for e in sorted(L.blocks):
            t = f.blocks[e][-1]
            if t["op"] != "br" or not t.get("cond") or len(t["succ"]) != 2:
                continue
            stay = [s in L.blocks for s in t["succ"]]
            if all(stay) or not any(stay) or not all(f.dominates(e, l) for l in L.latches):
                continue
            for p, a, b, op in self.conjuncts(t["cond"], stay[0]):
                for p2, x, y in ((p, a, b), (SWAP.get(p), b, a)):
                    if p2 is None or not self.fixed(y):
                        continue
                    for phi in self.phis():
                        k = self.steps(x, phi)
                        if k is None:
                            continue
                        d, steps = self.direction(phi)
                        if not d:
                            continue
                        starts = [o for bl, o in phi["in"] if bl not in L.blocks]
                        if self.ends(p2, d, steps, phi, x, y, starts, op):
                            return "counts %s to %s, decided at %s" % ("up" if d > 0 else "down", number(y) if number(y) is not None else "a fixed bound", f.loc(t))
        return None

    def ends(self, p, d, steps, phi, x, y, starts, op):
        if phi["ty"] in ("double", "float"):
            n = number(y)
            if n is None or any(number(s) is None for s in starts):
                return False
            if abs(n) / min(abs(s) for s in steps) > 2.0 ** 50:
                return False
            return p in (("olt", "ole", "ult", "ule") if d > 0 else ("ogt", "oge", "ugt", "uge"))
        if op == "fcmp":  # the bound may be not-a-number
            return p in (("olt", "ole") if d > 0 else ("ogt", "oge"))
        if p in (("slt", "sle", "ult", "ule") if d > 0 else ("sgt", "sge", "ugt")):
            return True
        if p == "ne":
            if phi["ty"] == "ptr":
                return len(steps) == 1 and all(self.root(s) == self.root(y) for s in starts)
            n = number(y)
            return len(steps) == 1 and n is not None and all(number(s) is not None and (n - number(s)) % min(abs(k) for k in steps) == 0 and (n - number(s)) * d >= 0 for s in starts)
        return False


def recursion(prog, f):
    """self calls: -> [(call, reason or None)]"""
    out = []
    f.cfg()
    for b, ins in enumerate(f.blocks):
        for i in ins:
            if i["op"] != "call" or i["callee"] != ["f", f.name]:
                continue
            why = None
            for k, a in enumerate(i["args"]):
                d = f.insts.get(a[1]) if a[0] == "i" else None
                if d is None or d["op"] not in ("add", "sub") or d["ops"][0] != ["a", k]:
                    continue
                c = number(d["ops"][1])
                if c is None or c == 0:
                    continue
                step = c if d["op"] == "add" else -c
                # a guard on the parameter on the way to the call
                g = b
                lc = LoopCheck(prog, None, f, type("L", (), {"blocks": set(), "latches": [], "header": 0})())
                while g is not None:
                    t = f.blocks[g][-1]
                    if t["op"] == "br" and t.get("cond") and len(t["succ"]) == 2 and g != b or t["op"] == "br" and t.get("cond") and g == b and False:
                        for s, truth in ((t["succ"][0], True), (t["succ"][1], False)):
                            if f.dominates(s, b) and f.pred[s] == [g]:
                                for p, x, y, op in lc.conjuncts(t["cond"], truth):
                                    for p2, u, v in ((p, x, y), (SWAP.get(p), y, x)):
                                        if u == ["a", k] and number(v) is not None and (p2 in ("sgt", "sge", "ugt", "ne") if step < 0 else p2 in ("slt", "sle", "ult", "ne")):
                                            why = "parameter %d counts %s to %s" % (k, "down" if step < 0 else "up", number(v))
                    g = f.idom.get(g) if g != 0 else None
                    if g == 0 and b == 0:
                        break
            out.append((i, why))
    return out


def cycles(prog):
    """functions of the repository that can call themselves through others"""
    fs = {f.name: f for f in prog.defined() if f.in_repo() or "_p14" in f.dem}
    succ = {n: [c for c in prog.callees(f) if c in fs] for n, f in fs.items()}
    out = []
    for n in fs:
        seen, work = set(), [c for c in succ[n] if c != n]
        while work:
            c = work.pop()
            if c in seen:
                continue
            seen.add(c)
            if c != n:
                work += succ[c]
        if n in seen:
            out.append(fs[n])
    return out


def place(f, loop):
    """first position in the repository of a loop, None for a loop inlined from the standard library"""
    for b in [loop.header] + sorted(loop.blocks):
        for i in reversed(f.blocks[b]):
            if i.get("loc") and i["loc"][1] and not f.loc(i).startswith("/"):
                return f.loc(i)
    return None


def again(ctx, deep, f):
    """the function's loops with everything it calls inlined (counters kept in helpers)"""
    if not deep:
        prog = ctx.prog("deep", probes=["s14.cpp"], pipe=PIPE, inline=".*")
        deep += [prog, Effects(prog)]
    prog, ef = deep
    g = prog.functions.get(f.name)
    if g is None or not g.defined:
        return None
    g.cfg()
    if irreducible(g) or not g.loops:
        return None
    own = [l for l in g.loops.values() if place(g, l)]
    if own and all(LoopCheck(prog, ef, g, l).bounded() for l in own):
        return "counted in a function it calls"
    return None


def check(ctx):
    ctx.rule("loop", "the loop counts towards a bound that does not change, and the count is tested in every round", 25)
    ctx.rule("recursion", "a self call passes a counter one step closer to the limit tested before the call", 2)
    ctx.rule("mutual recursion", "no function of the library calls itself through others", 1)
    prog = ctx.prog("inlined", probes=["s14.cpp"], pipe=PIPE, inline=INLINE)
    ef = Effects(prog)
    selftest, deep = {}, []
    for f in prog.defined():
        own = f.in_repo()
        if not (own or "_p14" in f.dem):
            continue
        f.cfg()
        if irreducible(f):
            raise CheckError("%s: loop with several entries" % f.dem)
        found = []
        for h, loop in sorted(f.loops.items()):
            why = LoopCheck(prog, ef, f, loop).bounded()
            if why is None:
                why = again(ctx, deep, f)
            found.append(("loop", place(f, loop) or f.where(), why))
        for i, why in recursion(prog, f):
            found.append(("recursion", f.loc(i), why))
        for n, (rule, loc, why) in enumerate(found):
            if "spec_p14" in f.dem:
                selftest[f.qname] = selftest.get(f.qname, True) and why is not None
            elif own:
                ctx.ob(rule, "%s, %s %d at %s" % (f.dem, rule, n, loc), why is not None, why or "no bound found that is independent of the calculation", loc)
    ctx.require(len(selftest) == 12, "self test of the loop analysis incomplete (%d)" % len(selftest))
    for n, ok in selftest.items():
        ctx.require(ok != ("bad" in n), "self test of the loop analysis: %s judged %s" % (n, ok))
    cyc = [f for f in cycles(prog) if f.in_repo()]
    ctx.ob("mutual recursion", "call graph", not cyc, ", ".join(f.dem for f in cyc[:4]), cyc[0].where() if cyc else "")
    ctx.assume("loops inside the standard library end; comparing, copying and clearing containers is finite")


def irreducible(f):
    for b in f.rpo:
        for s in f.succ[b]:
            if f.rpo_idx[s] <= f.rpo_idx[b] and not f.dominates(s, b):
                return True
    return False
