"""Program model over the dumped IR: functions, CFG, dominators, loops, call graph, debug types."""
import re
from .build import CheckError, REPO
import os


class Loop:
    __slots__ = ("header", "blocks", "latches", "parent", "depth", "children")

    def __init__(self, header):
        self.header = header
        self.blocks = set()
        self.latches = []
        self.parent = None
        self.depth = 1
        self.children = []


class Function:
    def __init__(self, prog, name, d):
        self.prog = prog
        self.name = name
        self.dem = d["dem"]
        self.decl = d["decl"]
        self.d = d
        self.args = d["args"]
        self.file = d.get("file", "")
        self.line = d.get("line", 0)
        self.blocks = d.get("blocks", [])
        self._cfg = False
        self.insts = {}
        self.block_of = {}
        for bi, b in enumerate(self.blocks):
            for i in b:
                self.insts[i["id"]] = i
                self.block_of[i["id"]] = bi
        # DI parameter list aligned with LLVM args (after sret)
        names = {}
        for p in d.get("params", []):
            names[p[0]] = (p[1], p[2])
        self.params = []
        k = 0
        for a in self.args:
            if "sret" in a:
                self.params.append(("<ret>", None))
            else:
                k += 1
                self.params.append(names.get(k, ("arg%d" % k, None)))

    @property
    def qname(self):
        return qualified(self.dem)

    @property
    def defined(self):
        return not self.decl

    def relfile(self):
        return rel(self.file)

    def where(self):
        return "%s:%d" % (rel(self.file), self.line)

    def loc(self, inst):
        l = inst.get("loc")
        if l:
            return "%s:%d" % (rel(l[0]), l[1])
        return self.where()

    def in_repo(self):
        return self.file.startswith(REPO + "/") or os.path.realpath(self.file).startswith(os.path.realpath(REPO) + "/")

    # ---- CFG
    def cfg(self):
        if self._cfg:
            return self
        n = len(self.blocks)
        self.succ = [self.term_succ(b) for b in range(n)]
        self.pred = [[] for _ in range(n)]
        # reverse post order
        seen = set()
        order = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    adv = True
                    break
            if not adv:
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.rpo_idx = {b: i for i, b in enumerate(self.rpo)}
        for b in self.rpo:
            for s in self.succ[b]:
                if b not in self.pred[s]:
                    self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        # natural loops
        loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    L = loops.setdefault(s, Loop(s))
                    L.latches.append(b)
                    L.blocks.add(s)
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in L.blocks:
                            continue
                        L.blocks.add(x)
                        work.extend(self.pred[x])
        self.loops = loops
        ls = sorted(loops.values(), key=lambda l: len(l.blocks))
        for i, l in enumerate(ls):
            for m in ls[i + 1:]:
                if l.header in m.blocks and l is not m:
                    l.parent = m
                    m.children.append(l)
                    break
        for l in ls[::-1]:
            l.depth = 1 if l.parent is None else l.parent.depth + 1
        self.loop_of = {}
        for l in ls[::-1]:
            for b in l.blocks:
                self.loop_of[b] = l
        self._cfg = True
        return self

    def _inter(self, idom, a, b):
        while a != b:
            while self.rpo_idx[a] > self.rpo_idx[b]:
                a = idom[a]
            while self.rpo_idx[b] > self.rpo_idx[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    def term(self, b):
        return self.blocks[b][-1]

    def term_succ(self, b):
        t = self.term(b)
        if t["op"] == "br":
            return list(t["succ"])
        if t["op"] == "switch":
            return [t["default"]] + [c[1] for c in t["cases"]]
        return []

    def calls(self):
        for b in self.blocks:
            for i in b:
                if i["op"] in ("call", "invoke"):
                    yield i


def rel(f):
    r = os.path.realpath(REPO)
    if f.startswith(REPO + "/"):
        return f[len(REPO) + 1:]
    if f.startswith(r + "/"):
        return f[len(r) + 1:]
    return f


def qualified(dem):
    """name without return type / parameter list: catima::dedx(...) -> catima::dedx"""
    depth = 0
    end = len(dem)
    i = len(dem) - 1
    # strip trailing qualifiers such as const, [abi:...]
    m = re.match(r"^(.*\))(?:\s+const)?(?:\s*\[.*\])?$", dem)
    s = m.group(1) if m else dem
    if not s.endswith(")"):
        return s
    i = len(s) - 1
    while i >= 0:
        if s[i] == ")":
            depth += 1
        elif s[i] == "(":
            depth -= 1
            if depth == 0:
                end = i
                break
        i -= 1
    s = s[:end]
    # strip return type of templates: cut at last space outside <> and ()
    depth = 0
    for j in range(len(s) - 1, -1, -1):
        ch = s[j]
        if ch in ">)":
            depth += 1
        elif ch in "<(":
            depth -= 1
        elif ch == " " and depth == 0:
            if s[:j].endswith("operator"):
                continue
            return s[j + 1:]
    return s


class Program:
    def __init__(self, data):
        self.data = data
        self.types = data["types"]
        self.globals = data["globals"]
        self.functions = {n: Function(self, n, d) for n, d in data["functions"].items()}
        self.by_q = {}
        for f in self.functions.values():
            self.by_q.setdefault(f.qname, []).append(f)
        self.gl_by_dem = {}
        for n, g in self.globals.items():
            self.gl_by_dem.setdefault(g["dem"], n)

    def defined(self):
        return [f for f in self.functions.values() if f.defined]

    def find(self, qname, params=None, required=True, defined=True):
        """params: list of substrings each required in the parameter list, or int = number of parameters."""
        c = [f for f in self.by_q.get(qname, []) if f.defined or not defined]
        if params is not None:
            if isinstance(params, int):
                c = [f for f in c if len(param_list(f.dem)) == params]
            else:
                c = [f for f in c if len(param_list(f.dem)) == len(params) and
                     all(re.search(p, q) for p, q in zip(params, param_list(f.dem)))]
        if len(c) == 1:
            return c[0]
        if not c:
            if required:
                raise CheckError("anchor not found: %s %s" % (qname, params or ""))
            return None
        raise CheckError("anchor ambiguous: %s %s -> %s" % (qname, params or "", [f.dem for f in c]))

    def glob(self, dem, required=True):
        n = self.gl_by_dem.get(dem)
        if n is None and required:
            raise CheckError("anchor not found: global %s" % dem)
        return n

    def same_global(self, n):
        """one name for the copies of a header's static variable in several translation units"""
        if not hasattr(self, "_same"):
            first = {}
            self._same = {}
            for k, g in sorted(self.globals.items(), key=lambda x: (len(x[0]), x[0])):
                if g.get("linkage") == 7 and not g.get("local") and g.get("difile", "").endswith(".h"):
                    self._same[k] = first.setdefault((g["difile"], g["diline"], g["diname"]), k)
        return self._same.get(n, n)

    # ---- call graph
    def callees(self, f):
        """directly called + address-taken functions referenced in f (names)."""
        out = {}
        for b in f.blocks:
            for i in b:
                for o in operands(i):
                    for n in fn_refs(o):
                        out.setdefault(n, i)
        return out

    def reach(self, roots):
        seen = {}
        work = [(r.name, None) for r in roots]
        while work:
            n, frm = work.pop()
            if n in seen:
                continue
            seen[n] = frm
            f = self.functions.get(n)
            if f is None or not f.defined:
                continue
            for c in self.callees(f):
                if c not in seen:
                    work.append((c, n))
        return seen

    # ---- debug types
    def strip(self, t):
        """strip typedef/const/volatile."""
        while t is not None and t >= 0:
            ty = self.types[t]
            if ty["tag"] in ("DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type", "DW_TAG_atomic_type"):
                t = ty.get("base", -1)
            else:
                return t
        return -1

    def pointee(self, t):
        t = self.strip(t)
        if t >= 0 and self.types[t]["tag"] in ("DW_TAG_pointer_type", "DW_TAG_reference_type", "DW_TAG_rvalue_reference_type"):
            return self.strip(self.types[t].get("base", -1))
        return None

    def type_by_name(self, name):
        best = None
        for i, t in enumerate(self.types):
            if t["name"] == name and t["tag"] in ("DW_TAG_structure_type", "DW_TAG_class_type", "DW_TAG_enumeration_type"):
                if t.get("members"):
                    return i
                best = i
        return best

    def resolve_decl(self, t):
        ty = self.types[t]
        if ty["tag"] in ("DW_TAG_structure_type", "DW_TAG_class_type") and not ty.get("members"):
            if ty.get("id"):
                for i, x in enumerate(self.types):
                    if x.get("id") == ty["id"] and x.get("members"):
                        return i
            r = self.type_by_name(ty["name"])
            if r is not None:
                return r
        return t

    def is_class(self, t):
        t = self.strip(t)
        return t is not None and t >= 0 and self.types[t]["tag"] in ("DW_TAG_structure_type", "DW_TAG_class_type")

    def flat(self, t, off=0, name="", maxn=64):
        """flattened scalar members [(offset, size, name, type id)]"""
        t = self.strip(t)
        if t is None or t < 0:
            return [(off, 8, name, -1)]
        t = self.resolve_decl(t)
        ty = self.types[t]
        if ty["tag"] in ("DW_TAG_structure_type", "DW_TAG_class_type"):
            out = []
            for m in ty.get("members", []):
                nm = m[0]
                full = (name + "." + nm) if name and nm else (name or nm)
                out += self.flat(m[2], off + m[1], full, maxn)
            return out
        if ty["tag"] == "DW_TAG_array_type":
            n = 1
            for m in ty.get("members", []):
                n *= max(m[1], 0)
            b = self.strip(ty["base"])
            es = self.types[b]["size"] if b >= 0 else 8
            if n > maxn:
                return [(off, es * n, name + "[]", t)]
            out = []
            for i in range(n):
                out += self.flat(ty["base"], off + i * es, "%s[%d]" % (name, i), maxn)
            return out
        if ty["tag"] == "DW_TAG_union_type":
            return [(off, ty["size"], name, t)]
        return [(off, ty["size"] or 8, name, t)]

    def field_name(self, t, off):
        for o, s, n, _ in self.flat(t):
            if o == off:
                return n
        for o, s, n, _ in self.flat(t):
            if o <= off < o + s:
                return "%s+%d" % (n, off - o)
        return "+%d" % off

    def enum(self, name):
        r = None
        for t in self.types:
            if t["tag"] == "DW_TAG_enumeration_type" and t["name"] == name and t.get("members"):
                r = {m[0]: m[1] for m in t["members"]}
                yield_scope = t.get("scope")
                if yield_scope == "catima":
                    return r
        return r


def param_list(dem):
    m = re.match(r"^(.*\))(?:\s+const)?(?:\s*\[.*\])?$", dem)
    s = m.group(1) if m else dem
    if not s.endswith(")"):
        return []
    depth = 0
    i = len(s) - 1
    while i >= 0:
        if s[i] == ")":
            depth += 1
        elif s[i] == "(":
            depth -= 1
            if depth == 0:
                break
        i -= 1
    inner = s[i + 1:-1]
    if not inner.strip():
        return []
    out, d, cur = [], 0, ""
    for ch in inner:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def operands(i):
    for k in ("ops", "args"):
        for o in i.get(k, ()):
            yield o
    for k in ("base", "cond", "callee"):
        if k in i:
            yield i[k]
    for v in i.get("vars", ()):
        yield v[0]
    for v in i.get("in", ()):
        yield v[1]


def fn_refs(o):
    if not isinstance(o, list) or not o:
        return
    if o[0] == "f":
        yield o[1]
    elif o[0] in ("ce", "cgep", "agg"):
        for x in o[1:]:
            if isinstance(x, list):
                yield from fn_refs(x)


def global_refs(o):
    if not isinstance(o, list) or not o:
        return
    if o[0] == "g":
        yield o[1]
    elif o[0] in ("ce", "cgep", "agg"):
        for x in o[1:]:
            if isinstance(x, list):
                yield from global_refs(x)
