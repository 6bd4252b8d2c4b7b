"""Gated value numbering of the compiler IR.

Every function body is traversed once in control-flow order; each SSA name and each memory cell is
given a value term over the inputs (see terms.py).  Control-flow joins become gated terms, loops are
unrolled when their trip count is a small constant and otherwise summarised (induction variables in
closed form, additive accumulators as sums, other recurrences as uninterpreted recurrences).
Nothing of the analysed program is executed.
"""
import re
import struct
from fractions import Fraction

from . import terms as tm
from .build import CheckError
from .terms import T, ZERO, ONE, TRUE, FALSE, const, leaf, add, sub, mul, div, neg, ite, band, bor, bnot, gt0, ge0, eq0

UNROLL = 64
MAXDEPTH = 60

LIBM1 = {"exp": "exp", "log": "log", "sqrt": "sqrt", "log10": "log10", "sin": "sin", "cos": "cos", "tan": "tan",
         "atan": "atan", "asin": "asin", "acos": "acos", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh",
         "fabs": "fabs", "floor": "floor", "ceil": "ceil", "round": "round", "trunc": "trunc", "lround": "round",
         "cbrt": "cbrt", "log2": "log2", "exp2": "exp2", "erf": "erf", "lgamma": "lgamma", "tgamma": "tgamma",
         "expm1": "expm1", "log1p": "log1p", "nearbyint": "rint", "rint": "rint"}
LIBM2 = {"pow": "pow", "fmod": "fmod", "atan2": "atan2", "fmax": "fmax", "fmin": "fmin", "hypot": "hypot",
         "copysign": "copysign", "cabs": "hypot"}


class Ev:
    __slots__ = ("guard", "name", "args", "loc", "loops", "fn", "extra")

    def __init__(self, guard, name, args, loc, loops, fn, extra=None):
        self.guard, self.name, self.args, self.loc, self.loops, self.fn, self.extra = guard, name, args, loc, loops, fn, extra


class LoopInfo:
    def __init__(self):
        self.k = None
        self.trip = None
        self.fn = None
        self.loc = None
        self.recs = []
        self.stores = []
        self.exits = 0
        self.guard = TRUE


class Mem:
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d if d is not None else {}

    def copy(self):
        return Mem(dict(self.d))


class Result:
    def __init__(self, ret, mem, guard):
        self.ret, self.mem, self.guard = ret, mem, guard


def expand(g, limit=64):
    """products of sums multiplied out, as long as few terms result"""
    c, m = tm._lin(g)
    r, n = const(c), 0
    for t, q in m.items():
        parts = [const(q)]
        for x, e in t.a[0] if t.op == "prod" else [(t, 1)]:
            if e < 1 or e > 3 or x.op != "lin":
                parts = [mul(y, tm.ipow(x, e)) for y in parts]
                continue
            xc, xm = tm._lin(x)
            xs = [tm.scale(y, k) for y, k in xm.items()] + ([const(xc)] if xc else [])
            for _ in range(e):
                parts = [mul(y, z) for y in parts for z in xs]
                if len(parts) > limit:
                    return g
        n += len(parts)
        if n > limit:
            return g
        for y in parts:
            r = add(r, y)
    return r if r is g else expand(r, limit)


class Analyzer:
    def __init__(self, prog, opaque=(), models=None, integrate=True, cells=None, opaque_if=None):
        self.prog = prog
        self.opaque = [re.compile(p) for p in opaque]
        self.opaque_if = opaque_if
        self.models = dict(models or {})
        self.integrate = integrate
        self.preset = cells or {}
        self.events = []
        self.loops = []
        self.loopstack = []
        self.guardstack = [TRUE]
        self.peel = 0
        self.tables = False         # arrays that are initialised keep their contents (nothing writes them: P05)
        self.stack = []
        self.fresh = 0
        self.ptrs = set()
        self.layouts = {}
        self.names = {}
        self.bound_memo = {}
        self.visited = set()
        self.callsites = 0
        self.unmodelled = {}
        self.reads = {}
        self.trace_reads = None
        self.recfinal = {}      # id of a recurrence's final value -> (LoopInfo, mu, initial, next)
        self.exitvia = {}       # id of an "exitvia" leaf -> (LoopInfo, exit number)

    # ------------------------------------------------------------ helpers
    def newid(self):
        self.fresh += 1
        return self.fresh

    def obj(self, kind, name, ditype=None, aty=None):
        t = leaf("obj", kind, name)
        self.ptrs.add(t.id)
        if t.id not in self.layouts:
            lay = None
            if ditype is not None and ditype >= 0:
                lay = [(o, s) for o, s, n, _ in self.prog.flat(ditype)]
                self.names[t.id] = ditype
            elif aty:
                m = re.match(r'^%"?(?:struct|class)\.([^"]+?)"?$', aty)
                if m:
                    nm = m.group(1)
                    nm = re.sub(r"\.\d+$", "", nm)
                    ti = self.prog.type_by_name(nm.split("::")[-1]) if "<" not in nm else None
                    if ti is not None:
                        lay = [(o, s) for o, s, n, _ in self.prog.flat(ti)]
                        self.names[t.id] = ti
            self.layouts[t.id] = lay
        return t

    def pretty_leaf(self, t):
        if t.a and t.a[0] == "ld":
            base, off = t.a[1], t.a[2]
            if isinstance(base, T) and base.id in self.names and off.op == "c":
                return "%s.%s" % (self.base_name(base), self.prog.field_name(self.names[base.id], int(off.a[0])))
            return "%s[%s]" % (self.base_name(base), tm.pretty(off, 4))
        if t.a and t.a[0] == "obj":
            return self.base_name(t)
        if t.a and t.a[0] == "arg":
            return str(t.a[1])
        return None

    def base_name(self, b):
        if b.op == "leaf" and b.a[0] == "obj":
            n = b.a[2]
            if b.a[1] == "glob" and n in self.prog.globals:
                return self.prog.globals[n]["dem"]
            return str(n)
        return tm.pretty(b, 3)

    # ------------------------------------------------------------ memory
    def split(self, addr):
        """address -> (base term, offset term)"""
        if addr.op == "leaf" or addr.op in ("call", "sym", "fld"):
            return addr, ZERO
        if addr.op == "lin":
            cands = [x for x, k in addr.a[1] if k == 1 and x.id in self.ptrs]
            objs = [x for x in cands if x.op == "leaf" and x.a[0] == "obj"]
            b = objs[0] if objs else (cands[0] if cands else None)
            if b is None:
                b2 = [x for x, k in addr.a[1] if k == 1 and x.op == "ite"]
                if b2:
                    return b2[0], sub(addr, b2[0])
                b3 = [x for x, k in addr.a[1] if k == 1]
                if not b3:
                    return addr, ZERO
                b = b3[0]
            return b, sub(addr, b)
        return addr, ZERO

    def load(self, mem, addr, ty="double", size=8):
        base, off = self.split(addr)
        if base.op == "ite":
            c, x, y = base.a
            return ite(c, self.load(mem, add(x, off), ty, size), self.load(mem, add(y, off), ty, size))
        if off.op == "ite":
            c, x, y = off.a
            return ite(c, self.load(mem, add(base, x), ty, size), self.load(mem, add(base, y), ty, size))
        if size > 1 and ty[:1] == "i" and off.op == "c" and (lay := self.layouts.get(base.id)):
            # several small fields moved as one integer (classes passed or returned in registers)
            o0 = int(off.a[0])
            fs = [(o, n) for o, n in lay if o0 <= o < o0 + size and n < size]
            if len(fs) > 1:
                ps = []
                for o, n in fs:
                    ps += [const(o - o0), tm.num(self.load(mem, add(base, const(o)), "?", n))]
                return tm.mk("pack", *ps)
        v = mem.d.get((base.id, off.id))
        if v is not None and ty == "i64" and off.op == "c" and v.op != "pack":
            # two adjacent fields of four bytes moved together
            v4 = mem.d.get((base.id, add(off, const(4)).id))
            if v4 is not None and self.layouts.get(base.id) is None:
                return tm.mk("pack", ZERO, tm.num(v), const(4), tm.num(v4))
        if v is None:
            arr = mem.d.get((base.id, "arr"))
            if arr is None and off.op != "c" and base.op == "leaf" and base.a[:2] == ("obj", "alloca") \
                    and (base.id, "b") in mem.d:
                arr = self.toarr(mem, base)
            if arr is not None:
                v = self.select(arr, base, off, ty, size)
            else:
                v = self.default(base, off, ty, size, mem)
        if self.trace_reads is not None:
            self.trace_reads(base, off)
        if ty == "ptr":
            self.ptrs.add(v.id)
        return self.cast_to(v, ty, size)

    def cast_to(self, v, ty, size):
        if ty == "i1":
            return tm.tobool(v)
        return v

    def default(self, base, off, ty, size, mem=None):
        if mem is not None:
            dv = mem.d.get((base.id, "default"))
            if dv is not None:
                return dv
        if base.op == "leaf" and base.a[0] == "obj":
            kind, name = base.a[1], base.a[2]
            key = (base.id, off.id)
            if key in self.preset:
                return self.preset[key]
            if kind == "glob":
                g = self.prog.globals.get(name)
                if g and (g["const"] or self.tables and not g["decl"] and (g.get("dims") or g["ty"].startswith("<{")) and g.get("init")) and off.op == "c":
                    return self.ginit(g, int(off.a[0]), ty, size)
            if kind == "alloca":
                return leaf("undef", base, off)
        elif base.op == "leaf" and base.a[0] == "ld" and off is not ZERO and base.a[2].op == "c" and base.a[1].id in self.names:
            # an element addressed from the end of a vector is the same element addressed from its begin
            b2, o2 = base.a[1], int(base.a[2].a[0])
            if self.prog.field_name(self.names[b2.id], o2).endswith("_M_finish"):
                st = leaf("ld", b2, const(o2 - 8))
                if mem is None or (st.id, "b") not in mem.d:
                    return leaf("ld", st, add(off, sub(base, st)))
        return leaf("ld", base, off)

    def ginit(self, g, off, ty, size):
        if "_initmap" not in g:
            g["_initmap"] = {o: c for o, c in g.get("init", [])}
        c = g["_initmap"].get(off)
        if c is None:
            return ZERO if ty != "ptr" else ZERO
        return self.operand_const(c)

    def select(self, arr, base, off, ty, size):
        t = arr
        while t.op == "st":
            prev, o, v = t.a
            if o is off:
                return v
            d = sub(o, off)
            if d.op == "c":
                t = prev
                continue
            break
        if t.op == "fill":
            ini, trip, h, pairs = t.a
            for o, v in reversed(pairs):
                c, m = tm._lin(o)
                q = m[h]
                dc, dm = tm._lin(sub(off, sub(o, tm.scale(h, q))))
                if any((x / q).denominator != 1 for x in dm.values()):
                    return tm.mk("sel", t, off, base)
                if (dc / q).denominator != 1:
                    continue
                ix = tm.scale(sub(off, sub(o, tm.scale(h, q))), 1 / q)
                return ite(band(ge0(ix, True), gt0(sub(trip, ix), True)), tm.subst(v, {h: ix}), self.select(ini, base, off, ty, size))
            return self.select(ini, base, off, ty, size)
        if t.op == "arr0":
            if len(t.a) > 1:
                return t.a[1]
            return self.default(base, off, ty, size)
        c, m = tm._lin(off)
        if len(m) == 1 and choice(next(iter(m))):
            (h, q), = m.items()
            g, x, y = h.a
            return ite(g, *[self.select(t, base, add(const(c), tm.scale(z, q)), ty, size) for z in (x, y)])
        return tm.mk("sel", t, off, base)

    def store(self, mem, addr, val, size=8):
        base, off = self.split(addr)
        if base.op == "ite" or off.op == "ite":
            if base.op == "ite":
                c, x, y = base.a
                xa, ya = add(x, off), add(y, off)
            else:
                c, x, y = off.a
                xa, ya = add(base, x), add(base, y)
            ox = self.load(mem, xa, "?", size)
            self.store(mem, xa, ite(c, val, ox), size)
            oy = self.load(mem, ya, "?", size)
            self.store(mem, ya, ite(c, oy, val), size)
            return
        if tm.is_bool(val):
            val = tm.num(val)
        ps = unpack(val) if off.op == "c" else None
        if not ps and size > 1 and off.op == "c" and (lay := self.layouts.get(base.id)):
            o0 = int(off.a[0])
            fs = [(o, n) for o, n in lay if o0 <= o < o0 + size and n < size]
            if len(fs) > 1:
                ps = [(o - o0, val if val is ZERO else tm.mk("part", val, const(o - o0))) for o, n in fs]
        if ps:
            for o, v in ps:
                self.store(mem, add(addr, const(o)), v, 1)
            return
        if off.op == "c":
            arr = mem.d.get((base.id, "arr"))
            if arr is not None:
                mem.d[(base.id, "arr")] = tm.mk("st", arr, off, val)
                # exact cells stay authoritative for constant offsets written last
            mem.d[(base.id, off.id)] = val
            mem.d.setdefault((base.id, "b"), base)
        else:
            arr = mem.d.get((base.id, "arr"))
            if arr is None:
                arr = self.toarr(mem, base)
            for k in [k for k in mem.d if k[0] == base.id and isinstance(k[1], int)]:
                del mem.d[k]
            mem.d[(base.id, "arr")] = tm.mk("st", arr, off, val)
            mem.d.setdefault((base.id, "b"), base)

    def layout(self, base):
        return self.layouts.get(base.id)

    def copy_bytes(self, mem, dst, src, n):
        db, do = self.split(dst)
        sb, so = self.split(src)
        if db.op == "ite":
            c, x, y = db.a
            m1 = mem.copy()
            self.copy_bytes(m1, add(x, do), src, n)
            m2 = mem.copy()
            self.copy_bytes(m2, add(y, do), src, n)
            mem.d = self.merge([(c, m1), (bnot(c), m2)]).d
            return
        if sb.op == "ite":
            c, x, y = sb.a
            m1 = mem.copy()
            self.copy_bytes(m1, dst, add(x, so), n)
            m2 = mem.copy()
            self.copy_bytes(m2, dst, add(y, so), n)
            mem.d = self.merge([(c, m1), (bnot(c), m2)]).d
            return
        offs = None
        if do.op == "c" and self.layout(db):
            offs = [(o - int(do.a[0]), s) for o, s in self.layout(db) if int(do.a[0]) <= o < int(do.a[0]) + n]
        if not offs and so.op == "c" and self.layout(sb):
            offs = [(o - int(so.a[0]), s) for o, s in self.layout(sb) if int(so.a[0]) <= o < int(so.a[0]) + n]
        extra = set()
        for b, o in ((sb, so),):
            if o.op == "c":
                for k in mem.d:
                    if k[0] == b.id and isinstance(k[1], int):
                        t = OFFS.get(k[1])
                        if t is not None and t.op == "c" and o.a[0] <= t.a[0] < o.a[0] + n:
                            extra.add(int(t.a[0] - o.a[0]))
        if not offs:
            offs = [(i, 8) for i in range(0, n, 8)] if not extra else []
        have = {o for o, _ in offs}
        for e in sorted(extra):
            if e not in have:
                offs.append((e, 8))
        vals = [(o, self.load(mem, add(src, const(o)), "?", s), s) for o, s in offs]
        for o, v, s in vals:
            a = add(dst, const(o))
            self.store(mem, a, v, s)
            sbase, soff = self.split(add(src, const(o)))

    # ------------------------------------------------------------ merging
    def merge(self, edges):
        """edges: [(relative guard, Mem)] mutually exclusive"""
        if len(edges) == 1:
            return edges[0][1].copy()
        keys = set()
        first = edges[0][1].d
        same = all(e[1].d is first for e in edges)
        if same:
            return Mem(dict(first))
        for _, m in edges:
            keys.update(m.d.keys())
        out = {}
        for k in keys:
            vs = [m.d.get(k) for _, m in edges]
            v0 = vs[0]
            if v0 is not None and all(v is v0 for v in vs):
                out[k] = v0
                continue
            if k[1] == "b":
                out[k] = next(v for v in vs if v is not None)
                continue
            if k[1] == "default":
                if all(v is not None for v in vs):
                    out[k] = self.fold(edges, vs)
                else:
                    out[k] = next(v for v in vs if v is not None)
                continue
            base = next(m.d[(k[0], "b")] for _, m in edges if (k[0], "b") in m.d)
            if k[1] == "arr":
                vals = [v if v is not None else self.toarr(m, base) for v, (_, m) in zip(vs, edges)]
                out[k] = self.fold(edges, vals, raw=True)
                continue
            off = OFFS.get(k[1])
            vals = []
            for v, (_, m) in zip(vs, edges):
                if v is None:
                    arr = m.d.get((base.id, "arr"))
                    v = self.select(arr, base, off, "?", 8) if arr is not None else self.default(base, off, "?", 8, m)
                vals.append(v)
            out[k] = self.fold(edges, vals)
        # exact cells of bases in array mode on some edge are dropped (the array term is authoritative)
        for k in [k for k in out if k[1] == "arr"]:
            for kk in [x for x in out if x[0] == k[0] and isinstance(x[1], int)]:
                pass
        return Mem(out)

    def toarr(self, m, base):
        dv = m.d.get((base.id, "default"))
        arr = tm.mk("arr0", base) if dv is None else tm.mk("arr0", base, dv)
        for k, v in sorted(((k, v) for k, v in m.d.items() if k[0] == base.id and isinstance(k[1], int)),
                           key=lambda x: x[0][1]):
            arr = tm.mk("st", arr, OFFS[k[1]], v)
        return arr

    def fold(self, edges, vals, raw=False):
        v = vals[-1]
        for (g, _), x in list(zip(edges, vals))[-2::-1]:
            if x is v:
                continue
            if raw:
                v = joinarr(g, x, v)
            else:
                v = ite(g, x, v)
                if x.id in self.ptrs or (v.id in self.ptrs):
                    self.ptrs.add(v.id)
        return v

    # ------------------------------------------------------------ operands
    def operand_const(self, o):
        k = o[0]
        if k == "ci":
            v = int(o[1])
            if o[2] == 1:
                return TRUE if v else FALSE
            return const(v)
        if k in ("cf", "cs"):
            d = struct.unpack("<d", struct.pack("<Q", int(o[1], 16)))[0]
            return const(d)
        if k == "null":
            return ZERO
        if k == "zero":
            return ZERO
        if k == "undef":
            return leaf("undefval", o[1] if len(o) > 1 else "")
        if k == "f":
            t = leaf("fn", o[1])
            self.ptrs.add(t.id)
            return t
        if k == "g":
            n = self.prog.same_global(o[1]) if self.tables else o[1]
            g = self.prog.globals.get(n)
            return self.obj("glob", n, g.get("ditype") if g else None)
        if k == "cgep":
            return add(self.operand_const(o[1]), const(int(o[2])))
        if k == "agg":
            return tm.mk("agg", *[self.operand_const(x) for x in o[1:]])
        if k == "ce":
            return leaf("ce", repr(o))
        raise CheckError("operand kind %s" % k)

    def val(self, fr, o):
        k = o[0]
        if k == "i":
            return fr["v"][o[1]]
        if k == "a":
            return fr["args"][o[1]]
        return self.operand_const(o)

    # ------------------------------------------------------------ entry
    def default_args(self, f, tag=None):
        out = []
        for a, (n, ty) in zip(f.args, f.params):
            nm = n if tag is None else tag + n
            if "sret" in a:
                out.append(self.obj("arg", nm, None, a["sret"]))
            elif a["ty"] == "ptr":
                pt = self.prog.pointee(ty) if ty is not None else None
                if pt is None and ty is not None and self.prog.is_class(ty):
                    pt = self.prog.strip(ty)
                out.append(self.obj("arg", nm, pt))
            else:
                out.append(leaf("arg", nm))
        return out

    def run(self, f, args=None, mem=None):
        tm.set_namer(self.pretty_leaf)
        if args is None:
            args = self.default_args(f)
        mem = mem or Mem()
        return self.call_fn(f, args, mem)

    def call_fn(self, f, args, mem):
        if len(self.stack) > MAXDEPTH:
            raise CheckError("inline depth at %s" % f.dem)
        f.cfg()
        self.visited.add(f.name)
        self.stack.append(f)
        fr = {"f": f, "args": list(args), "v": {}, "ret": [], "id": self.newid(), "loc": set()}
        try:
            self.region(fr, None, [(None, TRUE, mem, None)])
        finally:
            self.stack.pop()
        rets = fr["ret"]
        if not rets:
            return Result(None, mem, FALSE)
        gs = [g for g, _, _ in rets]
        rel = factor(gs)
        edges = [(g, m) for g, (_, _, m) in zip(rel, rets)]
        m = self.merge(edges)
        if self.stack:
            # the frame's own variables are dead now
            for k in [k for k in m.d if k[0] in fr["loc"]]:
                del m.d[k]
        v = None
        if rets[0][1] is not None:
            v = self.fold(edges, [r[1] for r in rets])
        return Result(v, m, bor(*gs))

    # ------------------------------------------------------------ CFG walk
    def region(self, fr, loop, entry):
        """Processes the blocks of `loop` (None = whole function) in RPO, inner loops collapsed.
        entry: [(pred, guard, mem, phivals)].  Returns (exit edges, back edges)."""
        f = fr["f"]
        head = loop.header if loop else 0
        inc = {head: list(entry)}
        exits, backs = [], []
        done = set()
        for b in f.rpo:
            if loop is not None and b not in loop.blocks:
                continue
            if b in done:
                continue
            L = f.loop_of.get(b)
            inner = None
            if L is not loop:
                inner = L
                while inner.parent is not loop:
                    inner = inner.parent
            if b not in inc or not inc[b]:
                if inner is not None:
                    done |= inner.blocks
                continue
            if inner is not None:
                done |= inner.blocks
                outs = self.do_loop(fr, inner, inc[b])
            else:
                done.add(b)
                outs = self.do_block(fr, b, inc[b], b == head and loop is not None)
            for src, dst, g, mem, *ph in outs:
                if g is FALSE:
                    continue
                if loop is not None and dst == head:
                    backs.append((src, g, mem))
                    continue
                # two exits of an inner loop can hand the same value, taken in different rounds, to one block
                ph = ph[0] if ph else self.phi_inputs(fr, src, dst)
                if loop is not None and dst not in loop.blocks:
                    exits.append((src, dst, g, mem, ph))
                else:
                    inc.setdefault(dst, []).append((src, g, mem, ph))
        return exits, backs

    def phi_inputs(self, fr, src, dst):
        f = fr["f"]
        out = {}
        for i in f.blocks[dst]:
            if i["op"] != "phi":
                break
            for b, o in i["in"]:
                if b == src:
                    out[i["id"]] = self.val(fr, o)
        return out

    def do_block(self, fr, b, edges, loophead):
        f = fr["f"]
        gs = [e[1] for e in edges]
        rel = factor(gs)
        guard = bor(*gs)
        medges = [(g, e[2]) for g, e in zip(rel, edges)]
        mem = self.merge(medges)
        insts = f.blocks[b]
        n = 0
        if not loophead or edges[0][3] is not None:
            for i in insts:
                if i["op"] != "phi":
                    break
                vals = [e[3][i["id"]] for e in edges]
                fr["v"][i["id"]] = self.fold(medges, vals)
        self.guardstack.append(guard)
        try:
            for i in insts:
                if i["op"] == "phi":
                    continue
                r = self.inst(fr, i, mem)
                if r == "dead":
                    return []
        finally:
            self.guardstack.pop()
        t = insts[-1]
        op = t["op"]
        if op == "ret":
            v = self.val(fr, t["ops"][0]) if t.get("ops") else None
            fr["ret"].append((guard, v, mem))
            return []
        if op == "br":
            if "cond" not in t:
                return [(b, t["succ"][0], guard, mem)]
            c = tm.tobool(self.val(fr, t["cond"]))
            s = t["succ"]
            if s[0] == s[1]:
                return [(b, s[0], guard, mem)]
            return [(b, s[0], band(guard, c), mem), (b, s[1], band(guard, bnot(c)), mem)]
        if op == "switch":
            c = self.val(fr, t["cond"])
            outs = {}
            rest = guard
            for v, d in t["cases"]:
                e = eq0(sub(c, const(int(v))), True)
                outs[d] = bor(outs.get(d, FALSE), band(guard, e))
                rest = band(rest, bnot(e))
            outs[t["default"]] = bor(outs.get(t["default"], FALSE), rest)
            return [(b, d, g, mem) for d, g in outs.items()]
        if op == "unreachable":
            return []
        raise CheckError("terminator %s in %s" % (op, f.dem))

    # ------------------------------------------------------------ loops
    def const_trip(self, fr, L, inits):
        f = fr["f"]
        for b in L.blocks:
            t = f.term(b)
            if t["op"] != "br" or "cond" not in t:
                continue
            if all(s in L.blocks for s in t["succ"]):
                continue
            c = t["cond"]
            if c[0] != "i":
                continue
            ci = f.insts[c[1]]
            if ci["op"] != "icmp":
                continue
            x, y = ci["ops"]
            for u, v, swap in ((x, y, False), (y, x, True)):
                if v[0] == "ci":
                    lim = int(v[1])
                else:
                    try:
                        tv = self.val(fr, v) if v[0] != "i" or (v[1] in fr["v"] and f.block_of[v[1]] not in L.blocks) else None
                    except KeyError:
                        tv = None
                    if tv is None or tv.op != "c":
                        continue
                    lim = int(tv.a[0])
                # u = phi or phi+c
                u0 = u
                extra = 0
                while u0[0] == "i" and f.insts[u0[1]]["op"] in ("sext", "zext", "trunc"):
                    u0 = f.insts[u0[1]]["ops"][0]
                if u0[0] == "i" and f.insts[u0[1]]["op"] == "add" and f.insts[u0[1]]["ops"][1][0] == "ci":
                    extra = int(f.insts[u0[1]]["ops"][1][1])
                    u0 = f.insts[u0[1]]["ops"][0]
                if u0[0] != "i" or u0[1] not in inits:
                    continue
                ini = inits[u0[1]]
                if ini.op != "c":
                    continue
                phi = f.insts[u0[1]]
                step = None
                for pb, o in phi["in"]:
                    if pb in L.blocks and o[0] == "i":
                        s = f.insts[o[1]]
                        if s["op"] == "add" and s["ops"][1][0] == "ci" and s["ops"][0] == ["i", u0[1]]:
                            step = int(s["ops"][1][1])
                        if s["op"] == "sub" and s["ops"][1][0] == "ci" and s["ops"][0] == ["i", u0[1]]:
                            step = -int(s["ops"][1][1])
                if not step:
                    continue
                n = abs((lim - int(ini.a[0]) - extra) / step)
                return n
        return None

    def do_loop(self, fr, L, edges):
        f = fr["f"]
        gs = [e[1] for e in edges]
        rel = factor(gs)
        guard = bor(*gs)
        medges = [(g, e[2]) for g, e in zip(rel, edges)]
        mem0 = self.merge(medges)
        phis = [i["id"] for i in f.blocks[L.header] if i["op"] == "phi"]
        inits = {p: self.fold(medges, [e[3][p] for e in edges]) for p in phis}
        n = self.const_trip(fr, L, inits)
        if n is not None and n <= UNROLL:
            r = self.unroll(fr, L, guard, mem0, inits)
            if r is not None:
                return r
        if self.peel and (n is None or n <= self.peel):
            r = self.peeled(fr, L, guard, mem0, inits)
            if r is not None:
                return r
        return self.summarise(fr, L, guard, mem0, inits, phis)

    def peeled(self, fr, L, guard, mem, inits):
        """unrolls a loop whose exit is decided in every iteration; None (and no trace) when it is not"""
        f = fr["f"]
        nex = len({(b, s) for b in L.blocks for s in f.term_succ(b) if s not in L.blocks})
        keep = dict(fr["v"]), len(fr["ret"]), len(self.events), len(self.loops)
        allex = []
        cur = [(None, guard, mem.copy(), inits)]
        for it in range(self.peel + 1):
            exits, backs = self.region(fr, L, cur)
            allex += exits
            if not backs:
                return self.join_exits(fr, allex)
            if len({(e[0], e[1]) for e in exits}) >= nex:
                break
            cur = [(src, g, m, self.phi_inputs(fr, src, L.header)) for src, g, m in backs]
        fr["v"].clear()
        fr["v"].update(keep[0])
        del fr["ret"][keep[1]:], self.events[keep[2]:], self.loops[keep[3]:]
        return None

    def unroll(self, fr, L, guard, mem, inits):
        f = fr["f"]
        allex = []
        cur = [(None, guard, mem, inits)]
        for it in range(UNROLL + 2):
            exits, backs = self.region(fr, L, cur)
            for src, dst, g, m, ph in exits:
                allex.append((src, dst, g, m, ph))
            if not backs:
                return self.join_exits(fr, allex)
            ph = []
            for src, g, m in backs:
                ph.append((src, g, m, self.phi_inputs(fr, src, L.header)))
            cur = ph
        raise CheckError("loop at %s did not unroll" % f.where())

    def join_exits(self, fr, allex):
        """several exits along the same CFG edge (from different iterations) are merged into one"""
        by = {}
        for src, dst, g, m, ph in allex:
            by.setdefault((src, dst), []).append((g, m, ph))
        outs = []
        for (src, dst), es in by.items():
            rel = factor([e[0] for e in es])
            edges = [(g, e[1]) for g, e in zip(rel, es)]
            m = self.merge(edges)
            keys = es[0][2].keys()
            ph = {k: self.fold(edges, [e[2][k] for e in es]) for k in keys}
            g = bor(*[e[0] for e in es])
            outs.append((src, dst, g, m, ph))
        # rebind: values flowing out pass only through the LCSSA phis at dst
        res = []
        for src, dst, g, m, ph in outs:
            self.pend(fr, src, dst, ph)
            res.append((src, dst, g, m, ph))
        return res

    def pend(self, fr, src, dst, ph):
        """make phi_inputs(src,dst) return ph by binding the incoming operands"""
        f = fr["f"]
        for i in f.blocks[dst]:
            if i["op"] != "phi":
                break
            for b, o in i["in"]:
                if b == src and o[0] == "i":
                    fr["v"][o[1]] = ph[i["id"]]

    def summarise(self, fr, L, guard, mem0, inits, phis):
        f = fr["f"]
        info = LoopInfo()
        info.fn = f
        info.loc = f.loc(f.term(L.header))
        lid = self.newid()
        k = leaf("k#", lid)
        info.k = k
        info.guard = band(*self.guardstack[1:], guard) if len(self.guardstack) > 1 else guard
        mus = {}          # key -> mu leaf ; key = ('phi',id) or ('cell',base,off)
        closed = {}       # key -> closed form in k
        for p in phis:
            mus[("phi", p)] = leaf("mu#", lid, p)
            if inits[p].id in self.ptrs:
                self.ptrs.add(mus[("phi", p)].id)
        bases = {}
        saved_ev, saved_loops = len(self.events), len(self.loops)
        rounds = 0
        fresh0 = self.fresh
        while True:
            rounds += 1
            self.fresh = fresh0     # objects created in the body keep their names from round to round
            if rounds > 14:
                raise CheckError("loop summary does not stabilise at %s" % info.loc)
            del self.events[saved_ev:]
            del self.loops[saved_loops:]
            info.stores = []
            mem = mem0.copy()
            cur = {}
            for key, mu in mus.items():
                cur[key] = closed.get(key, mu)
                if key[0] == "cell":
                    mem.d[(key[1], key[2])] = cur[key]
                    mem.d.setdefault((key[1], "b"), bases[key[1]])
                if key[0] == "arr":
                    mem.d[(key[1], "arr")] = cur[key]
                    for kk in [x for x in mem.d if x[0] == key[1] and isinstance(x[1], int)]:
                        del mem.d[kk]
                    mem.d.setdefault((key[1], "b"), bases[key[1]])
            phv = {p: cur[("phi", p)] for p in phis}
            self.loopstack.append(info)
            try:
                exits, backs = self.region(fr, L, [(None, TRUE, mem, phv)])
            finally:
                self.loopstack.pop()
            if not backs:
                break
            rel = factor([g for _, g, _ in backs])
            bed = [(g, m) for g, (_, _, m) in zip(rel, backs)]
            bmem = self.merge(bed)
            nxt = {}
            for p in phis:
                nxt[("phi", p)] = self.fold(bed, [self.phi_inputs_cached(fr, s, L.header)[p] for s, _, _ in backs])
            # new modified cells
            new = False
            for ck, v in bmem.d.items():
                if ck[1] == "b":
                    continue
                if ck[1] == "arr":
                    if ("arr", ck[0]) not in mus and mem.d.get(ck) is not v:
                        mus[("arr", ck[0])] = tm.mk("arrmu", lid, bmem.d[(ck[0], "b")])
                        bases[ck[0]] = bmem.d[(ck[0], "b")]
                        new = True
                    elif ("arr", ck[0]) in mus:
                        nxt[("arr", ck[0])] = v
                    continue
                old = mem.d.get(ck)
                if old is v:
                    continue
                base = bmem.d[(ck[0], "b")]
                if base.op == "leaf" and base.a[:2] == ("obj", "alloca") and base.a[3:] == () and self.is_local_to(base, L, fr):
                    continue
                key = ("cell", ck[0], ck[1])
                if key in mus:
                    nxt[key] = v
                    continue
                if ck[1] == "default":
                    continue
                if ("arr", ck[0]) in mus:
                    continue
                mus[key] = leaf("mu#", lid, base, OFFS[ck[1]])
                bases[ck[0]] = base
                ini0 = self.load(mem0, add(base, OFFS[ck[1]]), "?", 8)
                if ini0.id in self.ptrs or v.id in self.ptrs:
                    self.ptrs.add(mus[key].id)
                new = True
            if new:
                continue
            # classification
            ch = False
            for key, mu in mus.items():
                if key in closed or key[0] == "arr":
                    continue
                ini = inits[key[1]] if key[0] == "phi" else self.load(mem0, add(bases[key[1]], OFFS[key[2]]), "?", 8)
                nx = nxt.get(key, mu)
                if nx is mu:
                    closed[key] = ini
                    ch = True
                    continue
                d = sub(nx, mu)
                if not self.variant(d, mus.values(), k):
                    closed[key] = add(ini, mul(d, k))
                    if ini.id in self.ptrs:
                        self.ptrs.add(closed[key].id)
                    ch = True
            if not ch:
                break
        if not backs:
            return self.join_exits(fr, [(s, d, band(guard, g), m, ph) for s, d, g, m, ph in exits])
        # exit analysis
        info.exits = len(exits)
        inits_all = {}
        for key, mu in mus.items():
            if key[0] == "phi":
                inits_all[key] = inits[key[1]]
            elif key[0] == "cell":
                inits_all[key] = self.load(mem0, add(bases[key[1]], OFFS[key[2]]), "?", 8)
            else:
                inits_all[key] = self.toarr(mem0, bases[key[1]]) if (key[1], "arr") not in mem0.d else mem0.d[(key[1], "arr")]
        backg = bor(*[g for _, g, _ in backs])
        trip = None
        if len(exits) == 1:
            trip = solve_trip(backg, k, lambda t: self.variant(t, mus.values(), k, True))
        sub1 = {}
        open_mu = [key for key in mus if key not in closed]
        if trip is not None:
            kex = trip
        else:
            kex = None
        # accumulators
        acc = {}
        for key in open_mu:
            mu = mus[key]
            if key[0] == "arr":
                continue
            nx = nxt.get(key, mu)
            d = accum(nx, mu)
            if d is not None and mu.id not in self.bound(d) and not any(
                    x[0] == "arr" and mus[x].id in self.bound(d) for x in open_mu):
                acc[key] = d
        # a recurrence is identified by what it computes: initial value and step, with the recurrences it depends on
        # identified in the same way (a few levels deep)
        H = 1
        for key in open_mu:
            H = max(H, self.height(nxt.get(key, mus[key])) + 1)
        for e in exits:
            H = max(H, self.height(e[2]) + 1)
        color = {mus[key]: leaf("bmu", "array") if key[0] == "arr" else leaf("bmu", inits_all[key]) for key in open_mu}
        for _ in range(4):
            m = dict(color)
            m[k] = leaf("bk", H)
            memo = {}
            color = {mus[key]: color[mus[key]] if key[0] == "arr" else
                     leaf("bmu", inits_all[key], tm.subst(nxt.get(key, mus[key]), m, memo)) for key in open_mu}
        color[k] = leaf("bk", H)
        if kex is None:
            # canonical exit iteration: first k for which the loop leaves; identified by contents
            memo = {}
            kex = tm.mk("leaf", "kexit", tuple(tm.subst(g, color, memo) for _, _, g, _, _ in exits))
        info.trip = kex

        def at(key, kk, stack=()):
            """value before iteration kk"""
            mu, ini = mus[key], inits_all[key]
            if key in acc and key not in stack:
                d = acc[key]
                m = {mus[x]: at(x, k, stack + (key,)) for x in open_mu if mus[x].id in self.bound(d)}
                return add(ini, self.mksum(kk, tm.subst(d, m) if m else d, k))
            return tm.mk("fn", "rec", kk, ini, color[mu])
        final = {}
        for key in open_mu:
            mu = mus[key]
            ini = inits_all[key]
            if key[0] == "arr":
                final[key] = tm.mk("loopw", lid, ini)
                info.stores.append((bases[key[1]], mu, nxt.get(key, mu), ini))
                fl = self.filled(nxt.get(key, mu), mu, k, ini, bases[key[1]], lambda t: tm.subst(t, {
                    mus[x]: at(x, k) for x in open_mu if x[0] != "arr" and mus[x].id in self.bound(t)}))
                if fl is not None:
                    h = leaf("bk", max(self.height(t) for p in fl for t in p) + 1)
                    final[key] = tm.mk("fill", ini, kex, h, tuple(
                        (tm.subst(o, {k: h}), tm.subst(v, {k: h})) for o, v in fl))
            else:
                nx = nxt.get(key, mu)
                final[key] = at(key, kex)
                if key not in acc:
                    self.recfinal[final[key].id] = (info, mu, ini, nx)
                if ini.id in self.ptrs or mu.id in self.ptrs:
                    self.ptrs.add(final[key].id)
            info.recs.append((key, mu, ini, nxt.get(key, mu), final[key]))
        smap = {mus[key]: final[key] for key in open_mu}
        smap[k] = kex
        for key, c in closed.items():
            pass
        self.loops.append(info)
        info.body_next = {key: nxt.get(key, mus[key]) for key in mus}
        res = []
        memo = {}
        single = len(exits) == 1
        info.smap = smap
        info.exit_guards = [e[2] for e in exits]
        info.back_guard = backg
        info.via = []
        if not single:
            for n, e in enumerate(exits[:-1]):
                lf = tm.boolleaf("exitvia", kex, tm.subst(e[2], color), n)
                self.exitvia[lf.id] = (info, n)
                info.via.append(lf)
        for n, (s, dst, g, m, ph) in enumerate(exits):
            if single:
                g2 = guard
            else:
                g2 = band(guard, info.via[n] if n < len(exits) - 1 else bnot(bor(*info.via)))
            d2 = {}
            for ck, v in m.d.items():
                d2[ck] = v if ck[1] == "b" else self.sub_(v, smap, memo)
            ph2 = {p: self.sub_(v, smap, memo) for p, v in ph.items()}
            res.append((s, dst, g2, Mem(d2), ph2))
        return self.join_exits(fr, res)

    def sub_(self, t, m, memo):
        r = tm.subst(t, m, memo)
        if t.id in self.ptrs:
            self.ptrs.add(r.id)
        return r

    def is_local_to(self, base, L, fr):
        return False

    def phi_inputs_cached(self, fr, src, dst):
        return self.phi_inputs(fr, src, dst)

    def bound(self, t):
        """set of open loop symbols (k#, mu#) inside t"""
        r = self.bound_memo.get(t.id)
        if r is not None:
            return r
        s = set()
        st = [(t, False)]
        while st:
            x, done = st.pop()
            if x.id in self.bound_memo:
                continue
            if done:
                u = set()
                if x.op in ("leaf", "bleaf") and x.a and x.a[0] in ("k#", "mu#"):
                    u.add(x.id)
                if x.op == "arrmu":
                    u.add(x.id)
                for y in tm.children(x):
                    u |= self.bound_memo[y.id]
                self.bound_memo[x.id] = frozenset(u)
            else:
                st.append((x, True))
                for y in tm.children(x):
                    if y.id not in self.bound_memo:
                        st.append((y, False))
        return self.bound_memo[t.id]

    def variant(self, t, mus, k, onlymu=False):
        b = self.bound(t)
        if k is not None and not onlymu and k.id in b:
            return True
        return any(m.id in b for m in mus)

    def filled(self, t, mu, k, ini, base, val):
        """array stores of one iteration as [(offset, value)], or None"""
        out = []
        strides = set()
        x = t
        while x.op == "st":
            strides.add(tm._lin(x.a[1])[1].get(k))
            x = x.a[0]
        while t.op == "st":
            t, o, v = t.a
            c, m = tm._lin(o)
            if m.get(k) in (None, 0) or any(k.id in self.bound(x) for x in m if x is not k) or mu.id in self.bound(o):
                return None
            # an element that only its own iteration writes still has its old value there
            if len(strides) == 1:
                v = tm.subst(v, {tm.mk("sel", mu, o, base): self.select(ini, base, o, "?", 8)})
            v = val(v)
            if mu.id in self.bound(v) or self.bound(v) - {k.id} - self.outer():
                return None
            out.append((o, v))
        return out[::-1] if t is mu and out else None

    def outer(self):
        return {x for l in self.loopstack for x in (l.k.id,)}

    def height(self, t):
        h = 0
        for x in tm.walk([t]):
            if x.op == "leaf" and x.a and x.a[0] == "bk":
                h = max(h, x.a[1])
        return h

    def mksum(self, trip, g, k):
        """sum_{k<trip} g(k), linear parts split, invariant factors pulled out"""
        c, m = tm._lin(expand(g))
        r = mul(const(c), trip)
        for t, q in m.items():
            inv_, var = ONE, ONE
            if t.op == "prod":
                for x, e in t.a[0]:
                    if k.id in self.bound(x):
                        var = mul(var, tm.ipow(x, e))
                    else:
                        inv_ = mul(inv_, tm.ipow(x, e))
            elif k.id in self.bound(t):
                var = t
            else:
                inv_ = t
            if var is ONE:
                s = trip
            else:
                rev = tm.subst(var, {k: sub(sub(trip, ONE), k)})
                if nodes(rev) < nodes(var):
                    var = rev
                s = tm.mk("sum", trip, tm.subst(var, {k: leaf("bk", self.height(var) + 1)}))
            r = add(r, tm.scale(mul(inv_, s), q))
        return r

    # ------------------------------------------------------------ instructions
    def inst(self, fr, i, mem):
        f = fr["f"]
        op = i["op"]
        V = fr["v"]
        o = i.get("ops")
        if op in ("br", "switch", "ret", "unreachable"):
            return
        if op == "alloca":
            V[i["id"]] = self.obj("alloca", "%s.%s.%s" % (fr["id"], f.qname, i["id"]), None, i.get("aty"))
            fr["loc"].add(V[i["id"]].id)
            return
        if op == "load":
            V[i["id"]] = self.load(mem, self.val(fr, o[0]), i["ty"], i.get("sz", 8))
            return
        if op == "store":
            self.store(mem, self.val(fr, o[1]), self.val(fr, o[0]), i.get("sz", 8))
            return
        if op == "getelementptr":
            a = add(self.val(fr, i["base"]), const(int(i["off"])))
            for v, s in i.get("vars", ()):
                a = add(a, tm.scale(self.val(fr, v), Fraction(int(s))))
            V[i["id"]] = a
            b, _ = self.split(self.val(fr, i["base"]))
            self.ptrs.add(b.id)
            return
        if op in ("call", "invoke"):
            r = self.call(fr, i, mem)
            if r == "dead":
                return "dead"
            V[i["id"]] = r
            if i["ty"] == "ptr" and r is not None:
                self.ptrs.add(r.id)
            return
        a = self.val(fr, o[0])
        b = self.val(fr, o[1]) if len(o) > 1 else None
        if op in ("fadd", "add"):
            r = add(num(a), num(b))
        elif op in ("fsub", "sub"):
            r = sub(num(a), num(b))
        elif op in ("fmul", "mul"):
            r = mul(num(a), num(b))
        elif op == "fdiv":
            r = div(a, b)
        elif op == "fneg":
            r = neg(a)
        elif op in ("sdiv", "udiv"):
            if i.get("exact") or (b.op == "c" and divisible(a, b.a[0])):
                r = div(a, b)
            elif a.op == "c" and b.op == "c" and b.a[0] != 0:
                q = a.a[0] / b.a[0]
                r = const(int(q))
            else:
                r = tm.fn("idiv", a, b)
        elif op in ("srem", "urem"):
            if a.op == "c" and b.op == "c" and b.a[0] != 0:
                q = int(a.a[0] / b.a[0])
                r = const(a.a[0] - q * b.a[0])
            else:
                r = tm.fn("irem", a, b)
        elif op in ("ashr", "lshr"):
            if op == "lshr" and b.op == "c" and (ps := unpack(a)) and (hi := [v for k, v in ps if 8 * k == b.a[0]]):
                r = hi[0]
            elif i.get("exact") and b.op == "c":
                r = div(a, const(2 ** int(b.a[0])))
            elif a.op == "c" and b.op == "c":
                r = const(int(a.a[0]) >> int(b.a[0]))
            else:
                r = tm.fn("idiv", a, const(2 ** int(b.a[0]))) if b.op == "c" else tm.fn(op, a, b)
        elif op == "shl":
            r = mul(a, const(2 ** int(b.a[0]))) if b.op == "c" else tm.fn("shl", a, b)
        elif op in ("and", "or", "xor"):
            if i["ty"] == "i1":
                a, b = tm.tobool(a), tm.tobool(b)
                r = band(a, b) if op == "and" else bor(a, b) if op == "or" else ite(a, bnot(b), b)
            elif a.op == "c" and b.op == "c":
                x, y = int(a.a[0]), int(b.a[0])
                r = const(x & y if op == "and" else x | y if op == "or" else x ^ y)
            elif op == "and" and b.op == "c" and (int(b.a[0]) == 1) and a.op == "ite" and a.a[1] is ONE and a.a[2] is ZERO:
                r = a
            else:
                r = tm.fn(op, num(a), num(b))
        elif op in ("fcmp", "icmp"):
            r = self.compare(op, i["pred"], a, b, i.get("oty"))
        elif op in ("sext", "zext", "sitofp", "uitofp", "fpext", "fptrunc", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            if op == "trunc" and i["ty"] == "i1":
                r = tm.tobool(a)
            elif op == "trunc" and (ps := unpack(a)):
                r = ps[0][1]
            elif op in ("zext", "uitofp") and tm.is_bool(a):
                r = tm.num(a)
            elif op == "sext" and tm.is_bool(a):
                r = neg(tm.num(a))
            elif op == "sext" and a.op == "c" and False:
                r = a
            elif op == "zext" and a.op == "c" and a.a[0] < 0:
                w = int(re.sub(r"\D", "", i.get("sty", "i32")) or 32)
                r = const(a.a[0] + 2 ** w)
            else:
                r = a
        elif op in ("fptosi", "fptoui"):
            r = tm.fn("trunc", a) if not isint(a) else a
        elif op == "select":
            c = tm.tobool(a)
            x, y = b, self.val(fr, o[2])
            r = ite(c, x, y)
            if i["ty"] == "ptr":
                self.ptrs.add(r.id)
        elif op == "extractvalue":
            r = self.extract(a, i["ix"])
        elif op == "insertvalue":
            r = self.insert(a, b, i["ix"])
        elif op in ("insertelement", "extractelement", "shufflevector"):
            r = tm.fn(op, *[self.val(fr, x) for x in o])
        elif op == "frem":
            r = tm.fn("fmod", a, b)
        else:
            raise CheckError("instruction %s at %s" % (op, f.loc(i)))
        V[i["id"]] = r

    def extract(self, a, ix):
        for n in ix:
            if a.op == "agg":
                a = a.a[n]
            elif a.op == "ite":
                a = ite(a.a[0], self.extract(a.a[1], [n]), self.extract(a.a[2], [n]))
            else:
                a = tm.mk("fld", a, n)
        return a

    def insert(self, a, b, ix):
        n = ix[0]
        if a.op == "agg":
            xs = list(a.a)
        else:
            xs = []
        while len(xs) <= n:
            xs.append(tm.mk("fld", a, len(xs)) if a.op not in ("agg",) and a.a[:1] != ("undefval",) else leaf("undefval", ""))
        xs[n] = b if len(ix) == 1 else self.insert(xs[n], b, ix[1:])
        return tm.mk("agg", *xs)

    def compare(self, op, pred, a, b, oty):
        if op == "icmp":
            if tm.is_bool(a) or tm.is_bool(b):
                a, b = tm.num(a), tm.num(b)
            d = sub(a, b)
            if pred in ("eq", "ne"):
                r = eq0(d, True)
                return r if pred == "eq" else bnot(r)
            if pred in ("sgt", "ugt"):
                return gt0(d, True)
            if pred in ("slt", "ult"):
                return gt0(neg(d), True)
            if pred in ("sge", "uge"):
                return bnot(gt0(neg(d), True))
            if pred in ("sle", "ule"):
                return bnot(gt0(d, True))
        if pred in ("ord",):
            return TRUE if a is b or b.op == "c" else bnot(tm.boolleaf("isnan", a, b))
        if pred in ("uno",):
            return tm.boolleaf("isnan", a, b) if not (a.op == "c" and b.op == "c") else FALSE
        d = sub(a, b)
        if isint(a) and isint(b):
            intg = True
        else:
            intg = False
        p = pred[1:] if pred[0] in "ou" and len(pred) == 3 else pred
        if p == "eq":
            return eq0(d, intg)
        if p == "ne":
            return bnot(eq0(d, intg))
        if p == "gt":
            return gt0(d, intg)
        if p == "lt":
            return gt0(neg(d), intg)
        if p == "ge":
            return bnot(gt0(neg(d), intg))
        if p == "le":
            return bnot(gt0(d, intg))
        raise CheckError("predicate %s" % pred)

    # ------------------------------------------------------------ calls
    def call(self, fr, i, mem):
        f = fr["f"]
        cal = i["callee"]
        args = [self.val(fr, a) for a in i.get("args", ())]
        if cal[0] != "f":
            ct = self.val(fr, cal)
            return self.indirect(fr, i, ct, args, mem)
        return self.direct(fr, i, cal[1], args, mem)

    def indirect(self, fr, i, ct, args, mem):
        if ct.op == "leaf" and ct.a[0] == "fn":
            return self.direct(fr, i, ct.a[1], args, mem)
        if ct.op == "ite":
            c, x, y = ct.a
            m1, m2 = mem.copy(), mem.copy()
            a = self.indirect(fr, i, x, args, m1)
            b = self.indirect(fr, i, y, args, m2)
            mem.d = self.merge([(c, m1), (bnot(c), m2)]).d
            return ite(c, a, b) if a is not None else None
        self.unmodelled["indirect@" + fr["f"].loc(i)] = 1
        return tm.mk("call", "indirect", ct, *args)

    def direct(self, fr, i, name, args, mem):
        f = fr["f"]
        self.callsites += 1
        g = self.prog.functions.get(name)
        dem = g.dem if g else name
        q = g.qname if g else name
        if name.startswith("llvm."):
            return self.intrinsic(fr, i, name, args, mem)
        base = q[5:] if q.startswith("std::") else q
        if base in LIBM1 and len(args) == 1:
            return tm.fn(LIBM1[base], args[0])
        if base in LIBM2 and len(args) == 2:
            return tm.fn(LIBM2[base], *args)
        if re.match(r"^_?abs$", base) and len(args) == 1 and i["ty"] != "ptr":
            if i["ty"].startswith("i"):
                x = args[0]
                return ite(gt0(x, True), x, neg(x))
            return tm.fn("fabs", args[0])
        for key, fnm in self.models.items():
            if key == q or key == dem or (key.startswith("re:") and re.search(key[3:], dem)):
                r = fnm(self, fr, i, g, args, mem)
                if r is not NotImplemented:
                    return r
        for key, fnm in STD_MODELS:
            if key.search(q):
                r = fnm(self, fr, i, g, args, mem)
                if r is not NotImplemented:
                    return r
        if self.integrate and re.search(r"::integrate$|::integrate<", q) and g is not None and len(args) == 4:
            r = self.model_integrate(fr, i, g, args, mem)
            if r is not NotImplemented:
                return r
        if g is None or not g.defined or any(p.search(dem) for p in self.opaque) or g in self.stack \
                or (self.opaque_if is not None and self.opaque_if(g)):
            if g is not None and (g.d.get("noreturn") or i.get("noreturn")):
                self.event(fr, i, "noreturn:" + q, args)
                return "dead"
            return self.opaque_call(fr, i, g, name, args, mem)
        vals = self.byval(g, args, mem)
        res = self.call_fn(g, vals, mem)
        if res.guard is FALSE:
            return "dead"
        mem.d = res.mem.d
        for v, a in zip(vals, args):
            if v is not a:
                for k in [k for k in mem.d if k[0] == v.id]:
                    del mem.d[k]
        return res.ret

    def byval(self, g, args, mem):
        out = []
        for a, d in zip(args, g.args):
            if d.get("byval"):
                o = self.obj("alloca", "%s.byval" % self.newid())
                b, _ = self.split(a)
                lay = self.layout(b)
                sz = d.get("sretsz") or d.get("byval")
                n = int(sz) if not isinstance(sz, bool) else 64
                self.layouts[o.id] = lay if lay and self.split(a)[1] is ZERO else None
                if b.id in self.names:
                    self.names[o.id] = self.names[b.id]
                self.copy_bytes(mem, o, a, n)
                out.append(o)
            else:
                out.append(a)
        return out

    def event(self, fr, i, name, args, extra=None):
        g = band(*self.guardstack)
        self.events.append(Ev(g, name, list(args), fr["f"].loc(i), list(self.loopstack), fr["f"], extra))

    def contents(self, g, n, a, mem):
        """value of an argument: scalars by value, small class objects by contents, others by address"""
        if g is not None and n < len(g.params):
            ty = g.params[n][1]
            if g.args[n]["ty"] == "ptr" and ty is not None:
                pt = self.prog.pointee(ty)
                if pt is None and self.prog.is_class(ty):
                    pt = self.prog.strip(ty)
                if pt is not None and pt >= 0 and self.prog.is_class(pt):
                    flat = self.prog.flat(self.prog.resolve_decl(pt))
                    tot = sum(s for _, s, _, _ in flat)
                    if flat and tot <= 400 and len(flat) <= 40:
                        vals = [self.load(mem, add(a, const(o)), "?", s) for o, s, nm, _ in flat
                                if not nm.endswith("_M_end_of_storage")]
                        return tm.mk("agg", *[tm.num(v) for v in vals])
        return a

    def opaque_call(self, fr, i, g, name, args, mem):
        q = g.qname if g is not None else name
        hasret = i["ty"] not in ("void",)
        idx = 0
        sret = None
        key = g.dem if g is not None else name
        vals = []
        for n, a in enumerate(args):
            if g is not None and n < len(g.args) and "sret" in g.args[n] or (i.get("sret") and n == 0):
                sret = a
                continue
            vals.append(self.contents(g, n, a, mem))
        key = canon_name(key)
        t = tm.mk("call", key, *[tm.num(v) for v in vals])
        self.event(fr, i, key, args, t)
        if g is None or not (g.defined and g.in_repo()):
            self.unmodelled.setdefault(q, fr["f"].loc(i))
        if sret is not None:
            sb, so = self.split(sret)
            lay = self.layout(sb)
            if lay and so is ZERO:
                for o, s in lay:
                    self.store(mem, add(sret, const(o)), tm.mk("fld", t, o), s)
                    self.ptrs.add(tm.mk("fld", t, o).id)
            else:
                sz = int(g.args[0].get("sretsz", 64)) if g is not None else 64
                for o in range(0, min(sz, 512), 8):
                    self.store(mem, add(sret, const(o)), tm.mk("fld", t, o), 8)
                    self.ptrs.add(tm.mk("fld", t, o).id)
            return None
        return t if hasret else None

    def intrinsic(self, fr, i, name, args, mem):
        n = name[5:]
        if n.startswith(("dbg.", "lifetime.", "assume", "expect", "stackrestore", "stacksave", "donothing", "experimental.noalias")):
            if n.startswith("expect"):
                return args[0]
            return None
        if n.startswith(("memcpy", "memmove")):
            sz = args[2]
            if sz.op == "c":
                self.copy_bytes(mem, args[0], args[1], int(sz.a[0]))
            else:
                self.event(fr, i, "memcpy", args)
            return None
        if n.startswith("memset"):
            sz = args[2]
            db, do = self.split(args[0])
            v = args[1]
            if sz.op == "c" and do.op == "c":
                lay = self.layout(db)
                lo, hi = int(do.a[0]), int(do.a[0]) + int(sz.a[0])
                if lay:
                    offs = [o for o, s in lay if lo <= o < hi]
                elif hi - lo <= 1024:
                    offs = list(range(lo, hi, 8))
                else:
                    offs = []
                    mem.d[(db.id, "default")] = v
                    mem.d[(db.id, "b")] = db
                for k in [k for k in mem.d if k[0] == db.id and isinstance(k[1], int) and OFFS[k[1]].op == "c"
                          and lo <= OFFS[k[1]].a[0] < hi]:
                    mem.d[k] = v
                for o in offs:
                    self.store(mem, add(db, const(o)), v)
            else:
                self.event(fr, i, "memset", args)
            return None
        if n.startswith(("fmuladd", "fma.")):
            return add(mul(args[0], args[1]), args[2])
        for k in ("fabs", "floor", "ceil", "sqrt", "exp", "log", "pow", "sin", "cos", "round", "trunc", "log10", "copysign", "rint", "nearbyint"):
            if n.startswith(k + "."):
                return tm.fn("rint" if k == "nearbyint" else k, *args)
        if n.startswith("powi."):
            return tm.fn("pow", *args)
        if n.startswith(("maxnum", "smax", "umax", "maximum")):
            return ite(gt0(sub(args[0], args[1]), n[0] in "su"), args[0], args[1])
        if n.startswith(("minnum", "smin", "umin", "minimum")):
            return ite(gt0(sub(args[1], args[0]), n[0] in "su"), args[0], args[1])
        if n.startswith("abs."):
            return ite(gt0(args[0], True), args[0], neg(args[0]))
        if n.startswith("trap"):
            return "dead"
        if n.startswith("is.constant"):
            return FALSE
        if n.startswith("is.fpclass"):
            return tm.boolleaf("fpclass", *args)
        if n.startswith("lround") or n.startswith("llround"):
            return tm.fn("round", args[0])
        raise CheckError("intrinsic %s" % name)

    def model_integrate(self, fr, i, g, args, mem):
        """integral of a callable: the integrand is valued at a bound symbol"""
        this, fobj, a, b = args
        body = self.apply_callable(fr, i, g, fobj, mem)
        if body is None:
            return NotImplemented
        val, bv = body
        cls = re.sub(r"::integrate.*$", "", g.qname)
        self.event(fr, i, "integrate:" + cls, [this, a, b, val])
        # linear: pull factors not depending on the bound symbol
        c, m = tm._lin(val)
        r = mul(const(c), sub(b, a))
        for t, q in m.items():
            inv_, var = ONE, ONE
            items = t.a[0] if t.op == "prod" else ((t, 1),)
            for x, e in items:
                if tm.contains(x, lambda y: y is bv):
                    var = mul(var, tm.ipow(x, e))
                else:
                    inv_ = mul(inv_, tm.ipow(x, e))
            if var is ONE:
                s = sub(b, a)
            else:
                h = leaf("bk", self.height(var) + 1)
                s = tm.mk("integral", cls, a, b, tm.subst(var, {bv: h}))
            r = add(r, tm.scale(mul(inv_, s), q))
        return r

    def apply_callable(self, fr, i, g, fobj, mem):
        # the call operator invoked inside the integrator
        tgt = None
        for c in g.calls():
            cal = c["callee"]
            if cal[0] == "f":
                h = self.prog.functions.get(cal[1])
                if h is not None and ("operator()" in h.dem) and c.get("args") and c["args"][0][0] in ("a", "i"):
                    tgt = h
                    break
        if tgt is None or not tgt.defined:
            return None
        bv = leaf("x#", self.newid())
        m = mem.copy()
        before = dict(m.d)
        args = [fobj, bv]
        if len(tgt.args) != 2:
            return None
        r = self.call_fn(tgt, args, m)
        # cells the integrand writes have unspecified contents afterwards
        for k, v in r.mem.d.items():
            if k[1] == "b" or before.get(k) is v:
                continue
            if isinstance(k[1], int):
                base = r.mem.d[(k[0], "b")]
                if base.op == "leaf" and base.a[:2] == ("obj", "alloca") and (k[0], "b") not in before and k not in before:
                    continue
                mem.d[k] = leaf("after-integrate", v)
                mem.d[(k[0], "b")] = base
        return r.ret, bv


class _Offs:
    def __getitem__(self, i):
        return tm_by_id(i)

    def get(self, i, d=None):
        try:
            return tm_by_id(i)
        except KeyError:
            return d


_byid = {}
_seen = 0


def unpack(t):
    if t.op == "pack":
        return [(int(t.a[n].a[0]), t.a[n + 1]) for n in range(0, len(t.a), 2)]
    if t.op == "ite":
        x, y = unpack(t.a[1]), unpack(t.a[2])
        if x and y and [o for o, _ in x] == [o for o, _ in y]:
            return [(o, ite(t.a[0], v, w)) for (o, v), (_, w) in zip(x, y)]
    return None


def tm_by_id(i):
    t = _byid.get(i)
    if t is None:
        for x in list(tm._tab.values())[len(_byid):]:
            _byid[x.id] = x
        t = _byid.get(i)
        if t is None:
            for x in tm._tab.values():
                _byid[x.id] = x
            t = _byid[i]
    return t


OFFS = _Offs()


def nodes(t):
    """size of a term, every shared part once"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, tm.T) and x.id not in seen:
            seen.add(x.id)
            todo.extend(x.a)
    return len(seen)


def num(t):
    return tm.num(t) if tm.is_bool(t) else t


def isint(t):
    """conservatively: term known to be integer valued"""
    if t.op == "c":
        return t.a[0].denominator == 1
    if t.op == "fn" and t.a[0] in ("trunc", "floor", "ceil", "round", "idiv", "irem", "rint"):
        return True
    if t.op == "lin":
        return t.a[0].denominator == 1 and all(k.denominator == 1 and isint(x) for x, k in t.a[1])
    return False


def divisible(a, c):
    if c == 0:
        return False
    k, m = tm._lin(a)
    return all((v / c).denominator == 1 for v in m.values()) and (k / c).denominator == 1 and bool(m)


def factor(gs):
    """removes conjuncts common to all guards"""
    if len(gs) == 1:
        return [TRUE]
    sets = [set(x.id for x in (g.a if g.op == "and" else (g,))) for g in gs]
    com = set.intersection(*sets)
    if not com:
        return list(gs)
    return [band(*[x for x in (g.a if g.op == "and" else (g,)) if x.id not in com]) for g in gs]


def choice(t, depth=6):
    """a number picked from a few constants by conditions"""
    return t.op == "ite" and depth > 0 and all(x.op == "c" or choice(x, depth - 1) for x in t.a[1:])


def joinarr(g, x, y):
    """array that is x if g, else y"""
    if x is y:
        return x
    if x.op == "st" and y.op == "st" and x.a[1] is y.a[1]:
        return tm.mk("st", joinarr(g, x.a[0], y.a[0]), x.a[1], ite(g, x.a[2], y.a[2]))
    # stored on one side only: the other side keeps the old element
    for p, q, first in ((x, y, True), (y, x, False)):
        ch, t = [], p
        while t.op == "st" and t is not q:
            ch.append(t)
            t = t.a[0]
        if t is q and ch and t.op in ("arrmu", "arr0"):
            base = t.a[1] if t.op == "arrmu" else t.a[0]
            for c in reversed(ch):
                old = tm.mk("sel", q, c.a[1], base)
                t = tm.mk("st", t, c.a[1], ite(g, c.a[2], old) if first else ite(g, old, c.a[2]))
            return t
    return tm.mk("ite", g, x, y)


def accum(nx, mu):
    """nx = mu + g  (also through gated terms); returns g or None"""
    if nx is mu:
        return ZERO
    if nx.op == "ite":
        a = accum(nx.a[1], mu)
        b = accum(nx.a[2], mu)
        if a is None or b is None:
            return None
        return ite(nx.a[0], a, b)
    c, m = tm._lin(nx)
    if m.get(mu) == 1:
        return sub(nx, mu)
    # exactly one gated summand carrying mu with coefficient 1
    for t, q in m.items():
        if q == 1 and t.op == "ite":
            g = accum(t, mu)
            if g is not None and mu not in m:
                return add(g, sub(nx, t))
    return None


def solve_trip(cont, k, has_mu):
    """number of iterations after which `cont` (continue condition as a function of k) fails"""
    if has_mu(cont):
        return None
    inner = cont
    negd = False
    if inner.op == "not":
        inner = inner.a[0]
        negd = True
    if inner.op in ("gti", "gt") and not negd:
        c, m = tm._lin(inner.a[0])
        q = m.get(k)
        if q is None or q >= 0:
            return None
        rest = sub(inner.a[0], tm.scale(k, q))
        if tm.contains(rest, lambda x: x is k):
            return None
        if q == -1:
            return rest
        return tm.fn("ceil", tm.scale(rest, -1 / q)) if not divisible(rest, -q) else tm.scale(rest, -1 / q)
    if inner.op in ("gti", "gt") and negd:
        # continue while not (d > 0): d increasing in k:  q*k + rest <= 0
        c, m = tm._lin(inner.a[0])
        q = m.get(k)
        if q is None or q <= 0:
            return None
        rest = sub(inner.a[0], tm.scale(k, q))
        if tm.contains(rest, lambda x: x is k):
            return None
        if q == 1 and inner.op == "gti":
            return add(neg(rest), ONE)
        return None
    if inner.op in ("eqi", "eq") and negd:
        c, m = tm._lin(inner.a[0])
        q = m.get(k)
        if q is None:
            return None
        rest = sub(inner.a[0], tm.scale(k, q))
        if tm.contains(rest, lambda x: x is k):
            return None
        return tm.scale(rest, -1 / q)
    return None


def canon_name(dem):
    return re.sub(r"\s+", " ", re.sub(r"\[abi:\w+\]", "", dem))


# ---------------------------------------------------------------- standard library models
def _noop(an, fr, i, g, args, mem):
    return None if i["ty"] == "void" else (args[0] if args else ZERO)


def _vec_copy(an, fr, i, g, args, mem):
    for o in (0, 8, 16):
        an.store(mem, add(args[0], const(o)), an.load(mem, add(args[1], const(o)), "ptr", 8))
    return args[0] if i["ty"] == "ptr" else None


def _vec_resize(an, fr, i, g, args, mem):
    if len(args) < 2:
        return NotImplemented
    m = re.search(r"vector<([\w:]+)", g.dem)
    el = {"double": 8, "int": 4, "float": 4}.get(m.group(1) if m else "", None)
    if el is None and m:
        ti = an.prog.type_by_name(m.group(1).split("::")[-1])
        el = an.prog.types[an.prog.resolve_decl(ti)]["size"] if ti is not None else None
    an.event(fr, i, g.qname, args)
    if el is None:
        return None
    d = leaf("vecdata", an.split(args[0])[0], an.split(args[0])[1])
    an.ptrs.add(d.id)
    mem.d[(d.id, "default")] = ZERO
    mem.d[(d.id, "b")] = d
    an.store(mem, args[0], d)
    an.store(mem, add(args[0], const(8)), add(d, tm.scale(args[1], Fraction(el))))
    an.store(mem, add(args[0], const(16)), add(d, tm.scale(args[1], Fraction(el))))
    return None


def _vec_event(an, fr, i, g, args, mem):
    n = g.qname
    vals = list(args)
    if re.search(r"push_back|emplace_back", n) and len(args) > 1:
        pt = an.prog.pointee(g.params[1][1]) if g.params[1][1] is not None else None
        if pt is not None and an.prog.is_class(pt):
            vals[1] = an.contents(g, 1, args[1], mem)
        else:
            vals[1] = an.load(mem, args[1], "double", 8)
    an.event(fr, i, n, vals)
    if "push_back" in n or "emplace_back" in n:
        cnt = len([e for e in an.events if "_back" in e.name])
        e8 = add(args[0], const(8))
        an.store(mem, e8, tm.mk("fn", "grown", an.load(mem, e8, "ptr", 8)))
    return None if i["ty"] == "void" else leaf("evret", an.newid())


def _memcmp(an, fr, i, g, args, mem):
    """zero exactly when every member (or 8-byte word) is equal"""
    a, b, n = args
    if n.op != "c":
        return NotImplemented
    ab, ao = an.split(a)
    offs = None
    for base, off in (an.split(a), an.split(b)):
        lay = an.layout(base)
        if lay and off.op == "c":
            o0 = int(off.a[0])
            offs = [(o - o0, s) for o, s in lay if o0 <= o < o0 + int(n.a[0])]
            break
    if offs is None:
        offs = [(o, 8) for o in range(0, int(n.a[0]), 8)]
    ds = [sub(an.load(mem, add(a, const(o)), "?", s), an.load(mem, add(b, const(o)), "?", s)) for o, s in offs]
    return tm.fn("memcmp", *ds)


def _opnew(an, fr, i, g, args, mem):
    o = an.obj("heap", "%d" % an.newid())
    mem.d[(o.id, "b")] = o
    return o


STD_MODELS = [
    (re.compile(r"^memcmp$|^std::memcmp$|^bcmp$"), _memcmp),
    (re.compile(r"^operator new(\[\])?$"), _opnew),
    (re.compile(r"^operator delete(\[\])?$|^std::__throw|^__cxa_(guard|atexit|begin|end)|^__clang_call_terminate"), _noop),
    (re.compile(r"^std::vector<.*>::~vector$|^catima::(Material|Layers|DataPoint)::~\w+$|^std::allocator<.*>::(~?allocator)"
                r"|^std::vector<.*>::shrink_to_fit$"), _noop),
    (re.compile(r"^std::vector<.*>::vector$"), lambda an, fr, i, g, args, mem:
        _vec_copy(an, fr, i, g, args, mem) if len(args) >= 2 and re.search(r"::vector\(std::vector<.*> const&\)", g.dem) else NotImplemented),
    (re.compile(r"^std::vector<.*>::operator=$"), lambda an, fr, i, g, args, mem:
        _vec_copy(an, fr, i, g, args, mem) if "const&)" in g.dem else NotImplemented),
    (re.compile(r"^std::vector<.*>::resize$"), _vec_resize),
    (re.compile(r"^std::vector<.*>::reserve$"), _noop),
    (re.compile(r"^std::vector<.*>::(push_back|emplace_back|clear|insert|erase|pop_back|assign)$|^std::vector<.*>::emplace_back<"), _vec_event),
    (re.compile(r"^std::operator(<<|==|!=)|^std::basic_ostream|^std::ostream"), lambda an, fr, i, g, args, mem:
        args[0] if "<<" in g.qname or "ostream" in g.qname else NotImplemented),
]
