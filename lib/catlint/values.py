"""Materials as values: building, copying and assigning them without following the element list."""
import re

from . import terms as tm
from .terms import add, const, leaf

A0, A1, A2, MM = 32, 40, 48, 16


def offsets(prog):
    """(begin, end, capacity, molar mass) positions inside Material, from its layout"""
    fl = prog.flat(prog.type_by_name("Material"))
    pos = {}
    for o, s, n, _ in fl:
        for k in ("_M_start", "_M_finish", "_M_end_of_storage"):
            if n.endswith(k):
                pos[k] = o
        if n.split(".")[-1] == "molar_mass":
            pos["mm"] = o
    return pos["_M_start"], pos["_M_finish"], pos["_M_end_of_storage"], pos["mm"]


def add_element(an, fr, i, g, args, mem):
    b, e, c, mm = offsets(an.prog)
    at = lambda o: add(args[0], const(o))
    old = an.load(mem, at(b), "?", 8)
    n = tm.fn("atoms+", old, *args[1:])
    for o in (b, e, c):
        an.store(mem, at(o), n)
    an.store(mem, at(mm), tm.fn("mass+", an.load(mem, at(mm), "double", 8), *args[1:]))
    return None


def copy(an, fr, i, g, args, mem):
    fl = an.prog.flat(an.prog.type_by_name("Material"))
    vals = [(o, an.load(mem, add(args[1], const(o)), "?", s), s) for o, s, n, _ in fl]
    for o, v, s in vals:
        an.store(mem, add(args[0], const(o)), v, s)
    return args[0] if i["ty"] == "ptr" else None


MODELS = {
    "catima::Material::add_element": add_element,
    r"re:^catima::Material::(Material|operator=)\(catima::Material( const&|&&)\)$": copy,
}


def find(prog, dem):
    fs = [f for f in prog.defined() if f.dem == dem]
    return fs[0] if fs else None


# ---- vectors as sequences: begin is a buffer named after the vector, end moves with the number of elements
def _elem(an, g):
    m = re.search(r"std::vector<([\w:]+)", g.dem)
    n = m.group(1) if m else ""
    if n in ("double", "int", "float"):
        return {"double": 8, "int": 4, "float": 4}[n], None
    ti = an.prog.type_by_name(n.split("::")[-1]) if n else None
    if ti is None:
        return None, None
    return an.prog.types[an.prog.resolve_decl(ti)]["size"], ti


def _buffer(an, mem, v):
    d = leaf("vecdata", *an.split(v))
    an.ptrs.add(d.id)
    mem.d.setdefault((d.id, "b"), d)
    return d


def vec_new(an, fr, i, g, args, mem):
    es, ti = _elem(an, g)
    if es is None:
        return NotImplemented
    d = _buffer(an, mem, args[0])
    n = tm.ZERO
    if len(args) >= 2 and "unsigned long" in g.dem.split("vector(")[-1]:
        n = tm.scale(args[1], es)
        val = an.load(mem, args[2], "double", 8) if len(args) >= 4 or "const&, " in g.dem else tm.ZERO
        mem.d[(d.id, "default")] = val
    elif len(args) >= 3 and "initializer_list" in g.dem:
        cnt = args[2]
        if cnt.op != "c" or ti is not None:
            return NotImplemented
        for j in range(int(cnt.a[0])):
            an.store(mem, add(d, const(j * es)), an.load(mem, add(args[1], const(j * es)), "double", es))
        n = const(int(cnt.a[0]) * es)
    for o, e in ((0, d), (8, add(d, n)), (16, add(d, n))):
        an.ptrs.add(e.id)
        an.store(mem, add(args[0], const(o)), e)
    return None


def vec_push(an, fr, i, g, args, mem):
    es, ti = _elem(an, g)
    if es is None or len(args) < 2:
        return NotImplemented
    end = an.load(mem, add(args[0], const(8)), "ptr", 8)
    if end.op == "c":
        return NotImplemented
    an.ptrs.add(end.id)
    if ti is None:
        an.store(mem, end, an.load(mem, args[1], "double", es), es)
    else:
        vals = [(o, s, an.load(mem, add(args[1], const(o)), "?", s)) for o, s, n, _ in an.prog.flat(an.prog.resolve_decl(ti))]
        for o, s, v in vals:
            an.store(mem, add(end, const(o)), v, s)
    e2 = add(end, const(es))
    an.ptrs.add(e2.id)
    an.store(mem, add(args[0], const(8)), e2)
    an.event(fr, i, g.qname, args)
    return end if i["ty"] == "ptr" else None


def vec_resize(an, fr, i, g, args, mem):
    es, ti = _elem(an, g)
    if es is None:
        return NotImplemented
    d = _buffer(an, mem, args[0])
    mem.d[(d.id, "default")] = an.load(mem, args[2], "double", 8) if len(args) > 2 else tm.ZERO
    e = add(d, tm.scale(args[1], es))
    an.ptrs.add(e.id)
    for o, x in ((0, d), (8, e), (16, e)):
        an.store(mem, add(args[0], const(o)), x)
    return None


def vec_insert(an, fr, i, g, args, mem):
    """appending the elements [first, last) of another sequence"""
    es, ti = _elem(an, g)
    if es is None or len(args) != 4:
        return NotImplemented
    end = an.load(mem, add(args[0], const(8)), "ptr", 8)
    val = lambda a: an.load(mem, a, "ptr", 8) if a.op == "leaf" and a.a[:2] == ("obj", "alloca") else a
    pos, first, last = [val(a) for a in args[1:]]
    if pos is not end:
        return NotImplemented
    base, off = an.split(end)
    sb, so = an.split(first)
    trip = tm.scale(tm.sub(last, first), tm.Fraction(1, es))
    arr = mem.d.get((base.id, "arr"))
    if arr is None:
        arr = an.toarr(mem, base)
    for k in [k for k in mem.d if k[0] == base.id and isinstance(k[1], int)]:
        del mem.d[k]
    h = leaf("bk", 1)
    fl = [(0, es)] if ti is None else [(o, s) for o, s, n, _ in an.prog.flat(an.prog.resolve_decl(ti))]
    step = tm.scale(h, es)
    pairs = [(add(add(off, step), const(o)), an.load(mem, add(add(first, step), const(o)), "?", s)) for o, s in fl]
    if max(an.height(v) for _, v in pairs) > 1:
        return NotImplemented
    mem.d[(base.id, "arr")] = tm.mk("fill", arr, trip, h, tuple(pairs))
    mem.d.setdefault((base.id, "b"), base)
    e2 = add(end, tm.sub(last, first))
    an.ptrs.add(e2.id)
    an.store(mem, add(args[0], const(8)), e2)
    return end if i["ty"] == "ptr" else None


SEQ = {
    r"re:std::vector<(double|catima::(Result|Material|Target)),.*>::insert<": vec_insert,
    r"re:^std::vector<(double|catima::(Result|Material|Target)),[^()]*>::vector\((?!std::vector)[^()]*\)$": vec_new,
    r"re:^(\w+&? )?std::vector<(double|catima::(Result|Material|Target)),.*>::(push_back|emplace_back)": vec_push,
    r"re:^std::vector<double,.*>::resize\(": vec_resize,
}
