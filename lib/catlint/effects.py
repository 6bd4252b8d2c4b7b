"""Interprocedural write-effect analysis over access paths.

For every function: which memory it may write, named from its parameters and the globals. A pointer value is
(base, path): base ("p", i) parameter, ("g", name) global, ("l", id) local object, ("h", site) fresh memory; path is a
tuple of offsets, one more per pointer followed, the last one being where the pointer points now. An offset is (o, m):
any value congruent to o modulo m (m = 0: exactly o). Flow-insensitive, summaries to a fixpoint, paths cut at DEPTH.
"""
import re
from math import gcd

EMPTY = frozenset()
DEPTH = 4
ANY = (0, 1)
ZERO = (0, 0)
MEMW = re.compile(r"^llvm\.(memcpy|memmove|memset)|^(memcpy|memmove|memset)$")
ALLOC = re.compile(r"^operator new|^malloc$|^calloc$|^realloc$|^__cxa_allocate_exception$")


def onorm(o, m):
    return (o % m, m) if m else (o, 0)


def oadd(a, b):
    return onorm(a[0] + b[0], gcd(a[1], b[1]))


def ojoin(a, b):
    return onorm(a[0], gcd(gcd(a[1], b[1]), abs(a[0] - b[0])))


def omatch(a, b):
    m = gcd(a[1], b[1])
    d = a[0] - b[0]
    return d % m == 0 if m else d == 0


def pmatch(p, q):
    return len(p) == len(q) and all(omatch(a, b) for a, b in zip(p, q))


def shift(v, o):
    return (v[0], v[1][:-1] + (oadd(v[1][-1], o),))


def squeeze(vals):
    """keep at most four last offsets per object"""
    g = {}
    for b, p in vals:
        g.setdefault((b, p[:-1]), set()).add(p[-1])
    out = set()
    for (b, pre), offs in g.items():
        if len(offs) > 4:
            offs = sorted(offs)
            j = offs[0]
            for o in offs[1:]:
                j = ojoin(j, o)
            offs = [j]
        for o in offs:
            out.add((b, pre + (o,)))
    return frozenset(out)


class Frame:
    def __init__(self):
        self.v = {}
        self.c = {}         # base -> {path: values}
        self.cp = {}        # base -> {(path, source)}
        self.changed = False

    def setv(self, i, roots):
        o = self.v.get(i, EMPTY)
        if not roots <= o:
            n = squeeze(o | roots)
            if n != o:
                self.v[i] = n
                self.changed = True

    def put(self, loc, vals):
        if not vals:
            return
        d = self.c.setdefault(loc[0], {})
        o = d.get(loc[1], EMPTY)
        if not vals <= o:
            n = squeeze(o | vals)
            if n != o:
                d[loc[1]] = n
                self.changed = True

    def copy(self, dst, src, n):
        if dst == src or n is not None and n < 8:
            return
        s = self.cp.setdefault(dst[0], set())
        if (dst[1], src, n) not in s and len(s) < 200:
            s.add((dst[1], src, n))
            self.changed = True

    def load(self, loc, seen=None):
        seen = set() if seen is None else seen
        if loc in seen:
            return EMPTY
        seen.add(loc)
        out = set()
        b, p = loc
        for q, vals in self.c.get(b, {}).items():
            if pmatch(p, q):
                out |= vals
        for q, src, n in self.cp.get(b, ()):
            if len(q) == len(p) and pmatch(p[:-1], q[:-1]):
                d = oadd(p[-1], onorm(-q[-1][0], q[-1][1]))
                if d[1] == 0 and (d[0] < 0 or n is not None and d[0] + 8 > n):
                    continue
                if d[1] and n is not None and d[0] % d[1] + 8 > n:
                    continue
                out |= self.load(shift(src, d), seen)
        if b[0] in "pg":
            if len(p) < DEPTH:
                out.add((b, p + (ZERO,)))
            else:
                out.add((b, p[:-1] + (ANY,)))
        return squeeze(out)

    def loads(self, locs):
        out = EMPTY
        for l in locs:
            out |= self.load(l)
        return squeeze(out)


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.sum = {}
        self.fs = prog.defined()
        self.frames = {}
        self.sites = {}     # global -> {(function, (block, instruction)): location} where it is written
        for f in self.fs:
            self.sum[f.name] = {"writes": {}, "ret": EMPTY, "into": EMPTY, "cp": EMPTY}
        users = {}
        for f in self.fs:
            for c in prog.callees(f):
                users.setdefault(c, set()).add(f.name)
        work = [f.name for f in self.fs]
        inq = set(work)
        self.steps = 0
        while work:
            n = work.pop()
            inq.discard(n)
            self.steps += 1
            if self.local(self.prog.functions[n]):
                for u in users.get(n, ()):
                    if u not in inq:
                        inq.add(u)
                        work.append(u)

    def val(self, o, S):
        k = o[0]
        if k == "i":
            return S.v.get(o[1], EMPTY)
        if k == "a":
            return frozenset([(("p", o[1]), (ZERO,))])
        if k == "g":
            return frozenset([(("g", o[1]), (ZERO,))])
        if k == "cgep":
            return frozenset(shift(v, (o[2], 0)) for v in self.val(o[1], S))
        if k == "agg":
            r = EMPTY
            for x in o[1:]:
                if isinstance(x, list) and x and isinstance(x[0], str):
                    r |= self.val(x, S)
            return r
        return EMPTY

    def local(self, f):
        S = Frame()
        writes = {}
        ret = EMPTY

        def write(locs, vals, loc, own=True):
            for l in locs:
                if l[0][0] in "pg":
                    writes.setdefault(l, loc)
                    if l[0][0] == "g" and own:
                        self.sites.setdefault(l[0][1], {})[(f.name, cur[0])] = loc
                S.put(l, vals)

        cur = [None]
        S.changed = True
        rounds = 0
        while S.changed and rounds < 60:
            S.changed = False
            rounds += 1
            for bn, b in enumerate(f.blocks):
                for n, i in enumerate(b):
                    cur[0] = (bn, n)
                    op = i["op"]
                    if op == "alloca":
                        S.setv(i["id"], frozenset([(("l", i["id"]), (ZERO,))]))
                    elif op == "getelementptr":
                        m = 0
                        for _, sc in i.get("vars", ()):
                            m = gcd(m, abs(sc))
                        o = onorm(i["off"], m)
                        S.setv(i["id"], frozenset(shift(v, o) for v in self.val(i["base"], S)))
                    elif op == "load":
                        if i["ty"] == "ptr" or i["ty"][:1] in "{[%":
                            S.setv(i["id"], S.loads(self.val(i["ops"][0], S)))
                    elif op == "store":
                        write(self.val(i["ops"][1], S), self.val(i["ops"][0], S), f.loc(i))
                    elif op == "phi":
                        r = EMPTY
                        for _, o in i["in"]:
                            r |= self.val(o, S)
                        S.setv(i["id"], r)
                    elif op == "select":
                        S.setv(i["id"], self.val(i["ops"][1], S) | self.val(i["ops"][2], S))
                    elif op in ("bitcast", "inttoptr", "addrspacecast", "freeze", "extractvalue", "insertvalue"):
                        r = EMPTY
                        for o in i["ops"]:
                            r |= self.val(o, S)
                        S.setv(i["id"], r)
                    elif op in ("call", "invoke"):
                        self.call(f, i, S, write)
                    elif op == "ret":
                        for o in i.get("ops", ()):
                            ret |= self.val(o, S)
        self.frames[f.name] = S
        old = self.sum[f.name]
        ext = lambda s: squeeze(x for x in s if x[0][0] in "pg")
        w = {}
        for l in squeeze(writes):
            w[l] = next(writes[x] for x in writes if x[0] == l[0] and pmatch(x[1], l[1]))
        into = frozenset(((b, p), v) for b, d in S.c.items() if b[0] in "pg" for p, vs in d.items() for v in ext(vs))
        cp = frozenset(((b, p), s, n) for b, d in S.cp.items() if b[0] in "pg" for p, s, n in d if s[0][0] in "pg")
        new = {"writes": w, "ret": ext(ret), "into": into, "cp": cp}
        diff = set(w) != set(old["writes"]) or any(new[k] != old[k] for k in ("ret", "into", "cp"))
        self.sum[f.name] = new
        return diff

    def call(self, f, i, S, write):
        args = [self.val(a, S) for a in i.get("args", ())]
        cal = i["callee"]
        loc = f.loc(i)
        if cal[0] != "f":
            return
        n = cal[1]
        g = self.prog.functions.get(n)
        q = g.qname if g else n
        if MEMW.search(n) or MEMW.search(q):
            write(args[0], EMPTY, loc)
            if "set" not in n:
                ln = i["args"][2]
                for d in args[0]:
                    for s in args[1]:
                        S.copy(d, s, ln[1] if ln[0] == "ci" else None)
            S.setv(i["id"], args[0])
            return
        if ALLOC.search(q):
            S.setv(i["id"], frozenset([(("h", (f.name, i["id"])), (ZERO,))]))
            return
        s = self.sum.get(n)
        if s is None:
            return
        memo = {}

        def mp(v):
            if v in memo:
                return memo[v]
            (k, w), p = v
            if k == "p":
                if w >= len(args):
                    return EMPTY
                if w < len(g.args) and g.args[w].get("byval") and len(p) == 1:
                    cur = EMPTY
                else:
                    cur = frozenset(shift(a, p[0]) for a in args[w])
                    for o in p[1:]:
                        cur = frozenset(shift(a, o) for a in S.loads(cur))
            elif k == "g":
                cur = frozenset([v])
            else:
                cur = EMPTY
            memo[v] = cur = squeeze(cur)
            return cur

        for l in s["writes"]:
            write(mp(l), EMPTY, loc, l[0][0] == "p")
        for l, v in s["into"]:
            vals = mp(v)
            if vals:
                for d in mp(l):
                    S.put(d, vals)
        for l, v, ln in s["cp"]:
            for d in mp(l):
                for x in mp(v):
                    S.copy(d, x, ln)
        if i["ty"] == "ptr":
            rr = EMPTY
            for r in s["ret"]:
                rr |= mp(r)
            S.setv(i["id"], rr)

    def loop_writes(self, f, blocks):
        """memory named from parameters and globals that may be written in these blocks: place -> location"""
        S = self.frames[f.name]
        out = {}

        def write(locs, vals, loc, own=True):
            for l in locs:
                out.setdefault(l, loc)
        for b in blocks:
            for i in f.blocks[b]:
                if i["op"] == "store":
                    write(self.val(i["ops"][1], S), EMPTY, f.loc(i))
                elif i["op"] in ("call", "invoke"):
                    self.call(f, i, S, write)
        return out
