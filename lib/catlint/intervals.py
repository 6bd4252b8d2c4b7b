"""Interval analysis of the IR: integers as ranges, floating-point values as ranges plus a not-a-number flag, pointers as sets of
(object, offset range, extent of the innermost array).  Calls are followed; every array access is reported to a callback."""
import math
import re
import struct

from .build import CheckError

INF = math.inf
BIG = 1 << 130


class Int:
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def key(self):
        return ("i", self.lo, self.hi)

    def __repr__(self):
        return "[%s, %s]" % (self.lo, self.hi)


class Flt:
    __slots__ = ("lo", "hi", "nan")

    def __init__(self, lo, hi, nan):
        self.lo, self.hi, self.nan = lo, hi, nan      # lo > hi: only not-a-number

    def key(self):
        return ("f", self.lo, self.hi, self.nan)

    def __repr__(self):
        return "[%g, %g]%s" % (self.lo, self.hi, " or nan" if self.nan else "")


class Ptr:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = frozenset(t)       # of (base, off lo, off hi, rel lo, rel hi, size) ; rel/size None when unknown

    def key(self):
        return ("p", self.t)

    def __repr__(self):
        return "ptr%s" % sorted(map(str, self.t))


class Top:
    def key(self):
        return ("top",)

    def __repr__(self):
        return "?"


TOP = Top()
FTOP = Flt(-INF, INF, True)


def width(ty):
    m = re.match(r"i(\d+)$", ty)
    return int(m.group(1)) if m else None


def top(ty):
    w = width(ty)
    if w == 1:
        return Int(0, 1)
    if w:
        return Int(-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if ty in ("double", "float"):
        return FTOP
    return TOP


def join(a, b):
    if a is b:
        return a
    if isinstance(a, Int) and isinstance(b, Int):
        return Int(min(a.lo, b.lo), max(a.hi, b.hi))
    if isinstance(a, Flt) and isinstance(b, Flt):
        if a.lo > a.hi:
            return Flt(b.lo, b.hi, a.nan or b.nan)
        if b.lo > b.hi:
            return Flt(a.lo, a.hi, a.nan or b.nan)
        return Flt(min(a.lo, b.lo), max(a.hi, b.hi), a.nan or b.nan)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if len(a.t | b.t) > 12:
            return TOP
        return Ptr(a.t | b.t)
    return TOP


def same(a, b):
    return a is b or a.key() == b.key()


def fits(v, w):
    if v.lo < -(1 << (w - 1)) or v.hi > (1 << (w - 1)) - 1:
        if w == 1 and v.lo >= 0 and v.hi <= 1:
            return v
        return top("i%d" % w)
    return v


def fcorners(op, a, b):
    nan = a.nan or b.nan
    vals = []
    if a.lo > a.hi or b.lo > b.hi:
        return Flt(INF, -INF, True)
    bs = [b.lo, b.hi]
    if op == "/" and b.lo <= 0 <= b.hi:
        if a.lo == a.hi == 0 and not (b.lo == 0 == b.hi):
            return Flt(0.0, 0.0, True)
        # sign of the quotient when the divisor cannot be negative
        if b.lo == 0 and a.lo >= 0:
            return Flt(0.0 if b.hi == INF else a.lo / b.hi if b.hi > 0 else INF, INF, nan or a.lo == 0 or a.hi == INF and b.hi == INF)
        return FTOP
    for x in (a.lo, a.hi):
        for y in bs:
            try:
                v = x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else x / y
            except OverflowError:
                v = INF if (x > 0) == (y > 0) else -INF
            except ZeroDivisionError:
                return FTOP
            if v != v:
                if op == "*" and (x == 0 or y == 0):
                    nan = True
                    v = 0.0
                elif op == "/":
                    nan = True
                    vals += [0.0 if min(a.lo, b.lo) >= 0 else -INF, INF]
                    continue
                else:
                    nan = True
                    vals += [-INF, INF]
                    continue
            vals.append(v)
    if op == "*" and (INF in (abs(a.lo), abs(a.hi)) and b.lo <= 0 <= b.hi or INF in (abs(b.lo), abs(b.hi)) and a.lo <= 0 <= a.hi):
        nan = True
    return Flt(min(vals), max(vals), nan)


def mono(f, v, lo=-INF, hi=INF, outside=True):
    """monotone function with domain [lo, hi]"""
    if v.lo > v.hi:
        return v
    nan = v.nan or v.lo < lo or v.hi > hi
    a, b = max(v.lo, lo), min(v.hi, hi)
    if a > b:
        return Flt(INF, -INF, True)
    return Flt(f(a), f(b), nan)


def flog(x):
    return -INF if x == 0 else INF if x == INF else math.log(x)


def fexp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def ffloor(x):
    return x if math.isinf(x) else float(math.floor(x))


UNARY = {"log": lambda v: mono(flog, v, 0.0), "exp": lambda v: mono(fexp, v), "sqrt": lambda v: mono(lambda x: x if x == INF else math.sqrt(x), v, 0.0),
         "log10": lambda v: mono(lambda x: -INF if x == 0 else INF if x == INF else math.log10(x), v, 0.0),
         "floor": lambda v: mono(ffloor, v), "ceil": lambda v: mono(lambda x: x if math.isinf(x) else float(math.ceil(x)), v),
         "trunc": lambda v: mono(lambda x: x if math.isinf(x) else float(math.trunc(x)), v),
         "rint": lambda v: mono(lambda x: x if math.isinf(x) else float(round(x)), v), "nearbyint": lambda v: mono(lambda x: x if math.isinf(x) else float(round(x)), v),
         "round": lambda v: mono(lambda x: x if math.isinf(x) else math.copysign(float(math.floor(abs(x) + 0.5)), x), v)}


def unary(name, v):
    if name == "fabs":
        if v.lo > v.hi:
            return v
        lo = 0.0 if v.lo <= 0 <= v.hi else min(abs(v.lo), abs(v.hi))
        return Flt(lo, max(abs(v.lo), abs(v.hi)), v.nan)
    return UNARY[name](v)


OPPOSITE = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
FOPP = {"oeq": "une", "une": "oeq", "one": "ueq", "ueq": "one", "olt": "uge", "uge": "olt", "ogt": "ule", "ule": "ogt", "ole": "ugt", "ugt": "ole",
        "oge": "ult", "ult": "oge", "ord": "uno", "uno": "ord"}


class Dead(Exception):
    """no execution reaches this state"""


class Intervals:
    def __init__(self, prog, objects=None, fields=None, models=None, report=None, maxdepth=14, opaque=None, covered=None):
        """objects: global name -> {offset: value}; fields: 'Class.member' -> abstract value; report(f, inst, what, ok, detail)"""
        self.prog = prog
        self.objects = objects or {}
        self.fields = fields or {}
        self.models = models or {}
        self.sink = report or (lambda *a: None)
        self.maxdepth = maxdepth
        self.memo = {}
        self.stack = []
        self.steps = 0
        self.contexts = 0
        self.covered = covered or (lambda g, args: False)     # accesses in this call are judged elsewhere, for wider arguments
        self.mute = 0
        self.consts = {}
        self.locals = {}
        self.opaque = opaque or (lambda g: False)
        self.bytype = {}
        for n in self.objects:
            t = prog.strip(prog.globals[n].get("ditype", -1))
            if t is not None and t >= 0:
                self.bytype.setdefault(prog.types[t]["name"], []).append(n)

    def report(self, *a):
        if not self.mute:
            self.sink(*a)

    # ---- operands
    def gptr(self, name, off=0):
        g = self.prog.globals.get(name)
        size = g["size"] if g else None
        return Ptr([(("g", name), off, off, off, off, size)])

    def val(self, env, op):
        k = op[0]
        if k == "i":
            return env.get(("i", op[1]), TOP)
        if k == "a":
            return env.get(("a", op[1]), TOP)
        if k == "ci":
            v = op[1]
            return Int(v & 1, v & 1) if op[2] == 1 else Int(v, v)
        if k in ("cf", "cs"):
            x = hexf(op[1], k)
            return Flt(x, x, False) if x == x else Flt(INF, -INF, True)
        if k == "zero":
            return TOP
        if k == "g":
            return self.gptr(op[1])
        if k == "cgep":
            b = self.val(env, op[1])
            return self.shift(b, op[2]) if isinstance(b, Ptr) else TOP
        return TOP

    def typed(self, v, ty):
        """value of the right kind for the type"""
        w = width(ty)
        if w == 64 and isinstance(v, Ptr):
            return v            # an address as a number
        if w and not isinstance(v, Int) or ty in ("double", "float") and not isinstance(v, Flt):
            return top(ty)
        return v

    def shift(self, p, lo, hi=None):
        hi = lo if hi is None else hi
        return Ptr([(b, a + lo, c + hi, None if r is None else r + lo, None if r is None else s + hi, z) for b, a, c, r, s, z in p.t])

    # ---- objects of unknown identity, by debug type
    def object(self, ti, tag):
        prog = self.prog
        n = prog.types[prog.strip(ti)]["name"] if ti is not None and ti >= 0 and prog.strip(ti) >= 0 else None
        if n in self.bytype:
            return Ptr([(("g", g), 0, 0, 0, 0, prog.globals[g]["size"]) for g in self.bytype[n]])
        return Ptr([(("obj", prog.strip(ti) if ti is not None and ti >= 0 else -1, tag), 0, 0, None, None, None)])

    def arg(self, f, k, tag=None):
        ty = f.args[k]["ty"]
        if ty == "ptr":
            dt = f.params[k][1] if k < len(f.params) else None
            pt = self.prog.pointee(dt) if dt is not None else None
            if pt is None and dt is not None and self.prog.is_class(dt):
                pt = dt
            return self.object(pt, (f.name, k))
        return top(ty)

    # ---- memory
    def load(self, f, i, mem, p, ty, sz):
        if not isinstance(p, Ptr):
            return top(ty)
        out = None
        for b, lo, hi, r, s, z in p.t:
            v = self.load1(mem, b, lo, hi, ty, sz)
            out = v if out is None else join(out, v)
        out = top(ty) if out is None else out
        return self.typed(out, ty)

    def load1(self, mem, b, lo, hi, ty, sz):
        prog = self.prog
        if b[0] == "al":
            if lo == hi:
                v = mem.get((b, lo))
                if v is not None and v[1] == sz:
                    return v[0]
                if v is None:
                    n = self.local_type(b)
                    if n is not None:
                        return self.member(("obj", n, b), lo, ty)
            return top(ty)
        if b[0] == "g":
            if b[1] in self.objects:
                o = self.objects[b[1]]
                vs = [v for k, v in o.items() if lo <= k <= hi]
                if vs and (hi - lo) // 8 + 1 == len(vs):
                    out = vs[0]
                    for v in vs[1:]:
                        out = join(out, v)
                    return out
                return top(ty)
            g = prog.globals.get(b[1])
            if g and g.get("const") and g.get("init") is not None:
                t = self.table(b[1])
                if t is not None and lo >= 0 and hi + sz <= g["size"] and lo % t[1] == 0 and sz == t[1]:
                    vs = t[0][lo // t[1]:hi // t[1] + 1]
                    if vs and isinstance(vs[0], int):
                        return Int(min(vs), max(vs))
                    if vs and isinstance(vs[0], float):
                        return Flt(min(vs), max(vs), any(x != x for x in vs))
            return top(ty)
        if b[0] == "obj" and b[1] >= 0 and lo == hi:
            return self.member(b, lo, ty)
        return top(ty)

    def local_type(self, b):
        """class of a local object"""
        if b[1] not in self.prog.functions:
            return None
        if b not in self.locals:
            i = self.prog.functions[b[1]].insts.get(b[2], {})
            m = re.match(r"%?\"?(?:struct|class)\.([\w:]+?)(?:\.\d+)?\"?$", i.get("aty", ""))
            self.locals[b] = self.prog.type_by_name(m.group(1).split("::")[-1]) if m else None
        return self.locals[b]

    def member(self, b, off, ty):
        prog = self.prog
        n = prog.types[b[1]]["name"]
        try:
            f = prog.field_name(b[1], off).split(".")[-1]
        except Exception:
            f = ""
        v = self.fields.get("%s.%s" % (n, f))
        if v is not None:
            if ty in ("double", "float") and isinstance(v, Int):
                return Flt(float(v.lo), float(v.hi), False)
            return v
        if ty == "ptr":
            for o, s, nm, t in prog.flat(b[1]):
                if o == off and t is not None:
                    pt = prog.pointee(t)
                    if pt is not None and pt >= 0:
                        return self.object(pt, (b, off))
            return self.object(None, (b, off))
        return top(ty)

    def table(self, name):
        if name not in self.consts:
            g = self.prog.globals[name]
            el = g.get("elsz") or 0
            out = None
            if el in (1, 2, 4, 8) and isinstance(g["init"], list):
                n = g["size"] // el
                out = [0 if g.get("elty", "").startswith("i") else 0.0] * n
                for off, op in g["init"]:
                    if off % el or off // el >= n:
                        out = None
                        break
                    if op[0] == "ci":
                        v = op[1]
                        out[off // el] = v & ((1 << (8 * el)) - 1) if v < 0 else v
                    elif op[0] in ("cf", "cs"):
                        out[off // el] = hexf(op[1], op[0])
                    else:
                        out = None
                        break
            self.consts[name] = (out, el) if out is not None else None
        return self.consts[name]

    def store(self, mem, p, v, sz):
        if not isinstance(p, Ptr):
            return
        for b, lo, hi, r, s, z in p.t:
            if b[0] != "al":
                continue
            if len(p.t) == 1 and lo == hi:
                for k in [k for k in mem if k[0] == b and k[1] < lo + sz and lo < k[1] + mem[k][1]]:
                    del mem[k]
                mem[(b, lo)] = (v, sz)
            else:
                for k in [k for k in mem if k[0] == b]:
                    if k[1] + mem[k][1] > lo and k[1] < hi + sz:
                        if mem[k][1] == sz and lo == hi == k[1]:
                            mem[k] = (join(mem[k][0], v), sz)
                        else:
                            del mem[k]

    def havoc(self, mem, v):
        if isinstance(v, Ptr):
            bs = {t[0] for t in v.t}
            for k in [k for k in mem if k[0] in bs]:
                x = mem.pop(k)
                self.havoc(mem, x[0])

    # ---- one function
    def call(self, f, args, mem, caller=None):
        """-> (return value, memory)"""
        if len(self.stack) >= self.maxdepth or f.name in self.stack:
            for a in args:
                self.havoc(mem, a)
            return self.typed(TOP, f.d["rty"]), mem
        bases = set()
        work = [a for a in args if isinstance(a, Ptr)]
        while work:
            p = work.pop()
            for t in p.t:
                if t[0][0] == "al" and t[0] not in bases:
                    bases.add(t[0])
                    work += [v for (b, o), (v, s) in mem.items() if b == t[0] and isinstance(v, Ptr)]
        sub = {k: v for k, v in mem.items() if k[0] in bases}
        key = (f.name, self.mute > 0, tuple(a.key() for a in args), frozenset((k, v[0].key(), v[1]) for k, v in sub.items()))
        hit = self.memo.get(key)
        if hit is None:
            self.contexts += 1
            self.stack.append(f.name)
            try:
                hit = self.body(f, args, dict(sub))
            finally:
                self.stack.pop()
            self.memo[key] = hit
        ret, m2 = hit
        if ret is None and m2 is None:
            raise Dead()
        for k in [k for k in mem if k[0] in bases]:
            del mem[k]
        mem.update(m2)
        return ret, mem

    def body(self, f, args, mem):
        f.cfg()
        env = {("a", n): a for n, a in enumerate(args)}
        entry = {0: (env, mem)}
        visits = {}
        rets = []
        edge = {}
        users = self.users(f)
        heads = {s for b in f.rpo for s in f.succ[b] if f.rpo_idx[s] <= f.rpo_idx[b]}
        thr = self.thresholds(f)
        work = {0}
        final = {}
        n = 0
        while work:
            b = min(work, key=lambda x: f.rpo_idx[x])
            work.discard(b)
            n += 1
            if n > 4000:
                raise CheckError("interval analysis of %s does not settle" % f.dem)
            if b == 0:
                st = entry[0]
            else:
                st = self.merge(f, b, edge)
                if st is None:
                    continue
                if b in heads:
                    old = entry.get(b)
                    visits[b] = visits.get(b, 0) + 1
                    if old is not None:
                        st = self.widen(old, st, visits[b], thr)
                        if self.eqstate(old, st):
                            continue
                elif b in entry and self.eqstate(entry[b], st):
                    continue
                entry[b] = st
            try:
                outs, ret = self.block(f, b, dict(st[0]), dict(st[1]), users)
            except Dead:
                outs, ret = {}, None
            for s in f.succ[b]:
                new = outs.get(s)
                if new is None:
                    if (b, s) in edge and edge[(b, s)] is not None:
                        edge[(b, s)] = None
                        work.add(s)
                    continue
                old = edge.get((b, s))
                if old is None or not self.eqstate(old, new):
                    edge[(b, s)] = new
                    work.add(s)
            if ret is not None:
                final[b] = ret
            else:
                final.pop(b, None)
        out, om = None, None
        for v, m in final.values():
            out = v if out is None else join(out, v)
            om = m if om is None else self.joinmem(om, m)
        if om is None:
            return None, None
        return out, {k: v for k, v in om.items() if not (k[0][0] == "al" and k[0][1] == f.name)}

    def users(self, f):
        u = getattr(f, "_users", None)
        if u is None:
            u = {}
            for i in f.insts.values():
                if i["op"] in ("add", "sub", "sext", "zext", "trunc", "mul", "sitofp", "fptosi", "select"):
                    for o in i["ops"]:
                        if o[0] in ("i", "a"):
                            u.setdefault((o[0], o[1]), []).append(i)
            f._users = u
        return u

    def thresholds(self, f):
        t = getattr(f, "_thr", None)
        if t is None:
            s = {0, 1, -1}
            for i in f.insts.values():
                for o in i.get("ops", ()) or ():
                    if o[0] == "ci" and o[2] > 1:
                        s |= {o[1] - 1, o[1], o[1] + 1}
            t = f._thr = sorted(s)
        return t

    def merge(self, f, b, edge):
        st = None
        ins = [(p, edge.get((p, b))) for p in f.pred[b]]
        ins = [(p, e) for p, e in ins if e is not None]
        if not ins:
            return None
        phis = [i for i in f.blocks[b] if i["op"] == "phi"]
        outs = []
        for p, (env, mem) in ins:
            e2 = dict(env)
            vals = []
            for i in phis:
                v = TOP
                for blk, op in i["in"]:
                    if blk == p:
                        v = self.typed(self.val(env, op), i["ty"])
                vals.append((("i", i["id"]), v))
            e2.update(vals)
            outs.append((e2, mem))
        env, mem = outs[0]
        for e2, m2 in outs[1:]:
            env = {k: (v if same(v, e2[k]) else join(v, e2[k])) for k, v in env.items() if k in e2}
            mem = self.joinmem(mem, m2)
        return env, mem

    def joinmem(self, a, b):
        return {k: (v if same(v[0], b[k][0]) else (join(v[0], b[k][0]), v[1])) for k, v in a.items() if k in b and b[k][1] == v[1]}

    def eqstate(self, a, b):
        return a[0].keys() == b[0].keys() and all(same(v, b[0][k]) for k, v in a[0].items()) and \
            a[1].keys() == b[1].keys() and all(v[1] == b[1][k][1] and same(v[0], b[1][k][0]) for k, v in a[1].items())

    def widen(self, old, new, n, thr):
        def w(a, b):
            if same(a, b):
                return a
            j = join(a, b)
            if n < 4 or same(j, a):
                return j
            if isinstance(j, Int):
                lo, hi = j.lo, j.hi
                if lo < a.lo:
                    c = [t for t in thr if t <= lo]
                    lo = c[-1] if c and n < 40 else -BIG
                if hi > a.hi:
                    c = [t for t in thr if t >= hi]
                    hi = c[0] if c and n < 40 else BIG
                return Int(lo, hi)
            if isinstance(j, Flt):
                return Flt(j.lo if j.lo >= a.lo else -INF, j.hi if j.hi <= a.hi else INF, j.nan)
            return TOP
        env = {k: w(old[0][k], v) for k, v in new[0].items() if k in old[0]}
        env.update({k: v for k, v in new[0].items() if k not in old[0]})
        env = {k: v for k, v in env.items() if k in old[0]} if n > 1 else env
        mem = {}
        for k, v in new[1].items():
            o = old[1].get(k)
            if o is not None and o[1] == v[1]:
                mem[k] = (w(o[0], v[0]), v[1])
        return env, mem

    # ---- blocks
    def block(self, f, b, env, mem, users):
        outs = {}
        for i in f.blocks[b]:
            op = i["op"]
            self.steps += 1
            if op == "phi":
                continue
            if op == "br":
                c = i.get("cond")
                if c is None or len(i["succ"]) == 1:
                    outs[i["succ"][0]] = (env, mem)
                    return outs, None
                for k, s in enumerate(i["succ"]):
                    e = self.assume(f, env, c, k == 0, users)
                    if e is not None:
                        if s in outs:
                            e = {x: join(v, e[x]) for x, v in outs[s][0].items() if x in e}
                        outs[s] = (e, mem)
                return outs, None
            if op == "switch":
                v = self.val(env, i["cond"])
                for cv, s in i["cases"]:
                    if isinstance(v, Int) and not v.lo <= cv <= v.hi:
                        continue
                    e = dict(env)
                    if i["cond"][0] in ("i", "a"):
                        e[(i["cond"][0], i["cond"][1])] = Int(cv, cv)
                    if s in outs:
                        e = {x: join(y, e[x]) for x, y in outs[s][0].items() if x in e}
                    outs[s] = (e, mem)
                s = i["default"]
                e = dict(env)
                if s in outs:
                    e = {x: join(y, e[x]) for x, y in outs[s][0].items() if x in e}
                outs[s] = (e, mem)
                return outs, None
            if op == "ret":
                v = self.typed(self.val(env, i["ops"][0]), f.d["rty"]) if i["ops"] else TOP
                return {}, (v, mem)
            if op == "unreachable":
                return {}, None
            v = self.inst(f, i, env, mem)
            if i["ty"] != "void":
                env[("i", i["id"])] = self.typed(v if v is not None else TOP, i["ty"])
        return outs, None

    def inst(self, f, i, env, mem):
        op = i["op"]
        if op == "alloca":
            return Ptr([(("al", f.name, i["id"]), 0, 0, 0, 0, i.get("size"))])
        if op == "load":
            p = self.val(env, i["ops"][0])
            self.access(f, i, p, i["sz"])
            return self.load(f, i, mem, p, i["ty"], i["sz"])
        if op == "store":
            p = self.val(env, i["ops"][1])
            self.access(f, i, p, i["sz"])
            self.store(mem, p, self.typed(self.val(env, i["ops"][0]), i.get("vty", "?")), i["sz"])
            return None
        if op == "getelementptr":
            return self.gep(f, i, env)
        if op in ("call", "invoke"):
            return self.docall(f, i, env, mem)
        if op == "select":
            return self.select(f, i, env, self.users(f))
        if op == "icmp":
            return self.icmp(self.val(env, i["ops"][0]), self.val(env, i["ops"][1]), i["pred"])
        if op == "fcmp":
            return self.fcmp(self.val(env, i["ops"][0]), self.val(env, i["ops"][1]), i["pred"])
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = [self.val(env, o) for o in i["ops"]]
            if not isinstance(a, Flt) or not isinstance(b, Flt):
                return top(i["ty"])
            return fcorners({"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/"}[op], a, b)
        if op == "fneg":
            a = self.val(env, i["ops"][0])
            return Flt(-a.hi, -a.lo, a.nan) if isinstance(a, Flt) else FTOP
        return self.ints(i, [self.val(env, o) for o in i["ops"]] if "ops" in i else [])

    def select(self, f, i, env, users, depth=0):
        c = self.val(env, i["ops"][0])
        out = None
        for k in (0, 1):
            if isinstance(c, Int) and c.lo == c.hi and (c.lo == 1) != (k == 0):
                continue
            e = self.assume(f, env, i["ops"][0], k == 0, users, depth)
            if e is None:
                continue
            v = self.typed(self.val(e, i["ops"][1 + k]), i["ty"])
            out = v if out is None else join(out, v)
        if out is None:
            raise Dead()
        return out

    def ints(self, i, v):
        op, ty = i["op"], i["ty"]
        w = width(ty)
        if op in ("ptrtoint", "inttoptr") and isinstance(v[0], Ptr):
            return v[0]
        if op == "sub" and isinstance(v[0], Ptr) and isinstance(v[1], Ptr) and len(v[0].t) == len(v[1].t) == 1:
            (a, la, ha, *_), = v[0].t
            (b, lb, hb, *_), = v[1].t
            if a == b:
                return Int(la - hb, ha - lb)
        if op in ("sitofp", "uitofp") and isinstance(v[0], Int):
            a = v[0]
            if op == "uitofp" and a.lo < 0:
                return Flt(0.0, 2.0 ** 64, False)
            return Flt(float(a.lo), float(a.hi), False)
        if op in ("fptosi", "fptoui") and isinstance(v[0], Flt):
            a = v[0]
            t = top(ty)
            lim = (0, (1 << w) - 1) if op == "fptoui" else (t.lo, t.hi)
            if a.nan or a.lo > a.hi or not (a.lo > lim[0] - 1 and a.hi < lim[1] + 1):
                return t
            return fits(Int(math.trunc(a.lo), math.trunc(a.hi)), w)
        if op in ("fpext", "fptrunc") and isinstance(v[0], Flt):
            return v[0] if op == "fpext" else FTOP
        if w is None:
            return top(ty)
        if not all(isinstance(x, Int) for x in v) or not v:
            return top(ty)
        a = v[0]
        if op == "sext":
            return a if width(i["sty"]) > 1 else Int(-a.hi, -a.lo)
        if op == "zext":
            s = width(i["sty"])
            return a if a.lo >= 0 else Int(0, (1 << s) - 1)
        if op == "trunc":
            return fits(a, w)
        b = v[1] if len(v) > 1 else None
        if op == "add":
            return fits(Int(a.lo + b.lo, a.hi + b.hi), w)
        if op == "sub":
            return fits(Int(a.lo - b.hi, a.hi - b.lo), w)
        if op == "mul":
            c = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
            return fits(Int(min(c), max(c)), w)
        if op == "sdiv" and (b.lo > 0 or b.hi < 0):
            c = [int(x / y) if abs(x) < 1 << 50 else (abs(x) // abs(y)) * (1 if (x > 0) == (y > 0) else -1) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
            return fits(Int(min(c), max(c)), w)
        if op == "udiv" and a.lo >= 0 and b.lo > 0:
            return Int(a.lo // b.hi, a.hi // b.lo)
        if op in ("srem", "urem") and b.lo == b.hi and b.lo > 0:
            return Int(0 if a.lo >= 0 else -(b.lo - 1), b.lo - 1) if op == "srem" or a.lo >= 0 else top(ty)
        if op == "and":
            if w == 1:
                return Int(a.lo & b.lo, a.hi & b.hi)
            if b.lo == b.hi and b.lo >= 0:
                return Int(0, b.lo)
            if a.lo >= 0 and b.lo >= 0:
                return Int(0, min(a.hi, b.hi))
        if op == "or" and w == 1:
            return Int(a.lo | b.lo, a.hi | b.hi)
        if op == "xor" and w == 1 and b.lo == b.hi == 1:
            return Int(1 - a.hi, 1 - a.lo)
        if op == "shl" and b.lo == b.hi and 0 <= b.lo < 64:
            return fits(Int(a.lo << b.lo, a.hi << b.lo), w)
        if op in ("lshr", "ashr") and b.lo == b.hi and 0 <= b.lo < 64 and (a.lo >= 0 or op == "ashr"):
            return Int(a.lo >> b.lo, a.hi >> b.lo)
        return top(ty)

    def icmp(self, a, b, pred):
        if not isinstance(a, Int) or not isinstance(b, Int):
            return Int(0, 1)
        if pred[0] == "u" and (a.lo < 0 or b.lo < 0):
            return Int(0, 1)
        p = pred[1:] if pred[0] in "us" else pred
        if p == "eq" and a.lo == a.hi == b.lo == b.hi or p == "lt" and a.hi < b.lo or p == "le" and a.hi <= b.lo or \
                p == "gt" and a.lo > b.hi or p == "ge" and a.lo >= b.hi or p == "ne" and (a.hi < b.lo or b.hi < a.lo):
            return Int(1, 1)
        if p == "ne" and a.lo == a.hi == b.lo == b.hi or p == "lt" and a.lo >= b.hi or p == "le" and a.lo > b.hi or \
                p == "gt" and a.hi <= b.lo or p == "ge" and a.hi < b.lo or p == "eq" and (a.hi < b.lo or b.hi < a.lo):
            return Int(0, 0)
        return Int(0, 1)

    def fcmp(self, a, b, pred):
        if not isinstance(a, Flt) or not isinstance(b, Flt) or pred in ("false", "true"):
            return Int(0, 1)
        nan = a.nan or b.nan
        onlynan = a.lo > a.hi or b.lo > b.hi
        p = pred[1:]
        if pred in ("ord", "uno"):
            r = Int(0, 1) if nan and not onlynan else Int(1, 1) if (pred == "ord") != onlynan else Int(0, 0)
            return r
        u = pred[0] == "u"
        if onlynan:
            return Int(1, 1) if u else Int(0, 0)
        t = p == "eq" and a.lo == a.hi == b.lo == b.hi or p == "lt" and a.hi < b.lo or p == "le" and a.hi <= b.lo or \
            p == "gt" and a.lo > b.hi or p == "ge" and a.lo >= b.hi or p == "ne" and (a.hi < b.lo or b.hi < a.lo)
        f = p == "ne" and a.lo == a.hi == b.lo == b.hi or p == "lt" and a.lo >= b.hi or p == "le" and a.lo > b.hi or \
            p == "gt" and a.hi <= b.lo or p == "ge" and a.hi < b.lo or p == "eq" and (a.hi < b.lo or b.hi < a.lo)
        if t and (not nan or u):
            return Int(1, 1)
        if f and (not nan or not u):
            return Int(0, 0)
        return Int(0, 1)

    # ---- conditions
    def assume(self, f, env, c, truth, users, depth=0):
        """env refined by condition operand c being truth; None if impossible"""
        v = self.val(env, c)
        if isinstance(v, Int) and v.lo == v.hi and bool(v.lo) != truth:
            return None
        e = dict(env)
        try:
            self.refine(f, e, c, truth, users, 0, depth)
        except Dead:
            return None
        return e

    def refine(self, f, e, c, truth, users, depth, pd=0):
        if c[0] != "i" or depth > 6:
            return
        i = f.insts.get(c[1])
        if i is None:
            return
        op = i["op"]
        self.put(f, e, c, Int(1, 1) if truth else Int(0, 0), users, pd)
        if op == "xor" and i["ops"][1][0] == "ci":
            self.refine(f, e, i["ops"][0], not truth, users, depth + 1, pd)
        elif op == "and" and truth or op == "or" and not truth:
            for o in i["ops"]:
                self.refine(f, e, o, truth, users, depth + 1, pd)
        elif op == "select" and i["ty"] == "i1":
            s, a, b = i["ops"]
            if truth and b[0] == "ci" and b[1] == 0:
                self.refine(f, e, s, True, users, depth + 1, pd)
                self.refine(f, e, a, True, users, depth + 1, pd)
            elif not truth and a[0] == "ci" and a[1] & 1:
                self.refine(f, e, s, False, users, depth + 1, pd)
                self.refine(f, e, b, False, users, depth + 1, pd)
            elif truth and a[0] == "ci" and a[1] == 0:
                self.refine(f, e, s, False, users, depth + 1, pd)
                self.refine(f, e, b, True, users, depth + 1, pd)
            elif not truth and b[0] == "ci" and b[1] & 1:
                self.refine(f, e, s, True, users, depth + 1, pd)
                self.refine(f, e, a, False, users, depth + 1, pd)
        elif op == "phi" and i["ty"] == "i1":
            rest = [o for _, o in i["in"] if not (o[0] == "ci" and bool(o[1] & 1) != truth)]
            if len(rest) == 1 and rest[0][0] == "i":
                self.refine(f, e, rest[0], truth, users, depth + 1, pd)
        elif op == "icmp":
            p = i["pred"] if truth else OPPOSITE[i["pred"]]
            a, b = [self.val(e, o) for o in i["ops"]]
            if isinstance(a, Int) and isinstance(b, Int):
                if p[0] == "u" and p != "ult" and p != "ule" and (a.lo < 0 or b.lo < 0):
                    return
                if p in ("ult", "ule"):
                    # a <u b with b not negative means a is not negative either
                    if b.lo < 0:
                        return
                    a = Int(max(a.lo, 0), a.hi)
                q = p[1:] if p[0] in "us" else p
                na, nb = cut(a, b, q)
                self.put(f, e, i["ops"][0], na, users, pd)
                self.put(f, e, i["ops"][1], nb, users, pd)
        elif op == "fcmp":
            p = i["pred"] if truth else FOPP.get(i["pred"])
            a, b = [self.val(e, o) for o in i["ops"]]
            if p and isinstance(a, Flt) and isinstance(b, Flt):
                na, nb = fcut(a, b, p)
                self.put(f, e, i["ops"][0], na, users, pd)
                self.put(f, e, i["ops"][1], nb, users, pd)

    def put(self, f, e, o, v, users, depth):
        if o[0] not in ("i", "a"):
            if isinstance(v, Int) and v.lo > v.hi or isinstance(v, Flt) and v.lo > v.hi and not v.nan:
                raise Dead()
            return
        k = (o[0], o[1])
        old = e.get(k)
        if isinstance(v, Int):
            if isinstance(old, Int):
                v = Int(max(v.lo, old.lo), min(v.hi, old.hi))
            if v.lo > v.hi:
                raise Dead()
        elif isinstance(v, Flt):
            if v.lo > v.hi and not v.nan:
                raise Dead()
        if old is not None and same(old, v):
            return
        e[k] = v
        if depth > 5:
            return
        # what this value was computed from
        if o[0] == "i":
            i = f.insts.get(o[1])
            if i is not None and isinstance(v, Int):
                if i["op"] in ("sext", "trunc") and i["ops"][0][0] in ("i", "a") and (i["op"] == "sext" or False):
                    self.put(f, e, i["ops"][0], v, users, depth + 1)
                elif i["op"] == "zext" and isinstance(self.val(e, i["ops"][0]), Int) and self.val(e, i["ops"][0]).lo >= 0:
                    self.put(f, e, i["ops"][0], v, users, depth + 1)
                elif i["op"] in ("add", "sub") and i["ops"][1][0] == "ci":
                    c = i["ops"][1][1] if i["op"] == "add" else -i["ops"][1][1]
                    x = self.val(e, i["ops"][0])
                    w = width(i["ty"])
                    if isinstance(x, Int) and w and x.lo + c >= -(1 << (w - 1)) and x.hi + c < 1 << (w - 1):
                        self.put(f, e, i["ops"][0], Int(v.lo - c, v.hi - c), users, depth + 1)
        # what was computed from it
        for u in users.get(k, ()):
            ku = ("i", u["id"])
            if ku in e:
                if u["op"] == "select":
                    nv = self.select(f, u, e, users, depth + 2)
                else:
                    nv = self.ints(u, [self.val(e, x) for x in u["ops"]])
                ov = e[ku]
                if isinstance(nv, Int) and isinstance(ov, Int) and (nv.lo > ov.lo or nv.hi < ov.hi):
                    self.put(f, e, ku, Int(max(nv.lo, ov.lo), min(nv.hi, ov.hi)), users, depth + 1)

    # ---- addresses
    def gep(self, f, i, env):
        base = self.val(env, i["base"])
        lo = hi = i["off"]
        for o, stride in i.get("vars", ()):
            v = self.val(env, o)
            v = v if isinstance(v, Int) else top("i64")
            lo, hi = lo + v.lo * stride, hi + v.hi * stride
        dims = i["idx"]
        escape = self.only_position(f, i)
        last = None
        for n, (o, kind, cnt, stride) in enumerate(dims):
            v = self.val(env, o)
            v = v if isinstance(v, Int) else top("i64")
            if kind == "a" and cnt >= 0:
                ok = v.lo >= 0 and v.hi <= (cnt if escape else cnt - 1)
                self.report(f, i, n, ok, v, cnt, base)
                # executions with a bad index are reported; go on with the good ones
                v = Int(min(max(v.lo, 0), cnt), max(min(v.hi, cnt), 0))
            last = (kind, cnt, stride, v)
        if not isinstance(base, Ptr):
            return TOP
        out = []
        for b, a, c, r, s, z in base.t:
            nl, nh = a + lo, c + hi
            if len(dims) == 1:
                k, cnt, stride, v = last
                nr = (r + lo, s + hi, z) if r is not None else (None, None, None)
            else:
                k, cnt, stride, v = last
                if k == "a" and cnt >= 0 and stride <= 8:
                    nr = (v.lo * stride, v.hi * stride, cnt * stride)
                elif k == "a" and cnt >= 0:
                    nr = (0, 0, stride)
                else:
                    nr = (None, None, None)
            if b[0] in ("al", "g") and z is not None and nr[2] is None:
                pass
            out.append((b, nl, nh) + nr)
        if any(x[2] - x[1] > BIG for x in out):
            return TOP
        return Ptr(out)

    def only_position(self, f, i):
        """the address is only compared, subtracted or handed back: one past the end is a valid position"""
        c = getattr(f, "_uses", None)
        if c is None:
            c = {}
            for j in f.insts.values():
                for o in list(j.get("ops", ()) or ()) + [j.get("base")] + [x for _, x in (j.get("in") or ())] + list(j.get("args", ()) or ()):
                    if o and o[0] == "i":
                        c.setdefault(o[1], []).append(j)
            f._uses = c
        return all(j["op"] in ("ret", "icmp", "ptrtoint") for j in c.get(i["id"], ()))

    def access(self, f, i, p, sz):
        if not isinstance(p, Ptr):
            return
        for b, lo, hi, r, s, z in p.t:
            if r is None or z is None:
                continue
            if (r, s) != (0, 0):
                self.report(f, i, "extent", r >= 0 and s + sz <= z, Int(r, s), z, p)

    def minmax(self, f, i, what, args, mem, ty):
        """std::min, std::max, std::clamp: the reference handed back, as an object holding the value"""
        ty, sz = {"int": ("i32", 4), "unsigned int": ("i32", 4), "double": ("double", 8)}.get(ty, ("i64", 8))
        v = [self.load(f, i, mem, a, ty, sz) for a in args]

        def two(w, a, b):
            # max(a, b) is a < b ? b : a, so that a comes back if one of them is not a number
            if isinstance(a, Int):
                return Int(min(a.lo, b.lo), min(a.hi, b.hi)) if w == "min" else Int(max(a.lo, b.lo), max(a.hi, b.hi))
            if a.lo > a.hi or b.lo > b.hi:
                return a
            r = (min(a.lo, b.lo), min(a.hi, b.hi)) if w == "min" else (max(a.lo, b.lo), max(a.hi, b.hi))
            if b.nan:
                r = (min(r[0], a.lo), max(r[1], a.hi))
            return Flt(r[0], r[1], a.nan)
        if what == "clamp":
            r = two("min", two("max", v[0], v[1]), v[2])
        else:
            r = two(what, v[0], v[1])
        b = ("al", "std::" + what, f.name, i["id"])
        mem[(b, 0)] = (r, sz)
        return Ptr([(b, 0, 0, 0, 0, sz)])

    # ---- calls
    def docall(self, f, i, env, mem):
        cal = i["callee"]
        args = [self.val(env, a) for a in i["args"]]
        if cal[0] != "f":
            for a in args:
                self.havoc(mem, a)
            return top(i["ty"])
        name = cal[1]
        m = re.match(r"^(?:llvm\.)?(\w+?)(?:\.f64)?$", name)
        if m and (m.group(1) in UNARY or m.group(1) == "fabs") and len(args) == 1 and name in (m.group(1), "llvm.%s.f64" % m.group(1)):
            return unary(m.group(1), args[0]) if isinstance(args[0], Flt) else FTOP
        if name.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume")):
            return None
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            dst, src = args[0], args[1]
            n = args[2]
            if isinstance(dst, Ptr) and isinstance(src, Ptr) and len(dst.t) == 1 and len(src.t) == 1:
                (db, dl, dh, *_), = dst.t
                (sb, sl, sh, *_), = src.t
                if isinstance(n, Int) and n.lo == n.hi and dl == dh and sl == sh and db[0] == "al":
                    for k in [k for k in mem if k[0] == db and dl <= k[1] < dl + n.lo]:
                        del mem[k]
                    if sb[0] == "al":
                        for k, v in [(k, v) for k, v in mem.items() if k[0] == sb and sl <= k[1] and k[1] + v[1] <= sl + n.lo]:
                            mem[(db, dl + k[1] - sl)] = v
                    return None
            self.havoc(mem, dst)
            return None
        g = self.prog.functions.get(name)
        m = MINMAX.search(g.dem) if g is not None else None
        if m and len(args) in (2, 3) and all(isinstance(a, Ptr) for a in args):
            return self.minmax(f, i, m.group(1), args, mem, m.group(2))
        if g is not None:
            for k, fn in self.models.items():
                if re.search(k, g.dem):
                    r = fn(self, f, i, g, args, mem)
                    if r is not NotImplemented:
                        return r
        if g is None or not g.defined or self.opaque(g):
            for a in args:
                self.havoc(mem, a)
            return top(i["ty"])
        full = [self.typed(a, g.args[k]["ty"]) if k < len(g.args) else a for k, a in enumerate(args)]
        full = [self.arg(g, k) if isinstance(a, Top) and k < len(g.args) else a for k, a in enumerate(full)]
        own = self.covered(g, full)
        self.mute += own
        try:
            r, _ = self.call(g, full, mem)
        finally:
            self.mute -= own
        return r


MINMAX = re.compile(r"^(?:[\w ]+ const& )?std::(min|max|clamp)<(int|long|unsigned long|unsigned int|double)>\(")


def cut(a, b, q):
    if q == "lt":
        return Int(a.lo, min(a.hi, b.hi - 1)), Int(max(b.lo, a.lo + 1), b.hi)
    if q == "le":
        return Int(a.lo, min(a.hi, b.hi)), Int(max(b.lo, a.lo), b.hi)
    if q == "gt":
        y, x = cut(b, a, "lt")
        return x, y
    if q == "ge":
        y, x = cut(b, a, "le")
        return x, y
    if q == "eq":
        c = Int(max(a.lo, b.lo), min(a.hi, b.hi))
        return c, c
    # not equal: shave end points
    if b.lo == b.hi:
        a = Int(a.lo + (a.lo == b.lo), a.hi - (a.hi == b.lo))
    if a.lo == a.hi:
        b = Int(b.lo + (b.lo == a.lo), b.hi - (b.hi == a.lo))
    return a, b


def fcut(a, b, p):
    u = p[0] == "u"
    if p == "ord":
        return Flt(a.lo, a.hi, False), Flt(b.lo, b.hi, False)
    if p == "uno":
        if not a.nan and not b.nan:
            return Flt(INF, -INF, False), b
        if not b.nan:
            return Flt(INF, -INF, True), b
        return a, b
    q = p[1:]
    an, bn = (a.nan, b.nan) if u else (False, False)

    def lim(x, y, yn, q):
        # part of x compatible with x q y (y not nan); an unordered comparison with a possible nan leaves x as it is
        if u and yn:
            return x.lo, x.hi
        if q in ("lt", "le"):
            return x.lo, min(x.hi, y.hi)
        if q in ("gt", "ge"):
            return max(x.lo, y.lo), x.hi
        if q == "eq":
            return max(x.lo, y.lo), min(x.hi, y.hi)
        return x.lo, x.hi
    inv = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}
    la = lim(a, b, b.nan, q)
    lb = lim(b, a, a.nan, inv[q])
    if q in ("lt", "gt") and not (u and (a.nan or b.nan)) and a.lo == a.hi == b.lo == b.hi:
        la = lb = (INF, -INF)
    if q in ("lt", "gt") and a.lo == a.hi == b.lo == b.hi and u:
        la = (INF, -INF) if not b.nan else la
        lb = (INF, -INF) if not a.nan else lb
    # strictly ordered against a fixed number: one step away from it
    if q == "lt" and not (u and b.nan) and la[1] == b.hi and la[0] < la[1]:
        la = (la[0], math.nextafter(b.hi, -INF))
    if q == "gt" and not (u and b.nan) and la[0] == b.lo and la[0] < la[1]:
        la = (math.nextafter(b.lo, INF), la[1])
    return Flt(la[0], la[1], an), Flt(lb[0], lb[1], bn)


def hexf(s, kind):
    return struct.unpack("<d", struct.pack("<Q", int(s, 16)))[0]
