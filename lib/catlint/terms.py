"""Hash-consed value terms in algebraic normal form, and fingerprint evaluation.

A term denotes the value an SSA name has as a function of the analysed function's inputs.  Sums and
products are kept in normal form; branches become gated `ite` terms; transcendental functions and
opaque calls are uninterpreted.  Two terms are compared by fingerprints in a prime field (polynomial
identity test): equal fingerprints mean equal as algebraic expressions.  Branch conditions are
evaluated over consistent truth assignments: comparisons of the same expression with constants are
decided from one position on the real (or integer) axis.
"""
import hashlib
import math
import random
from fractions import Fraction

P = (1 << 521) - 1
K = 3


class T:
    __slots__ = ("id", "op", "a", "__weakref__")

    def __init__(self, id, op, a):
        self.id = id
        self.op = op
        self.a = a

    def __repr__(self):
        return pretty(self)


_tab = {}
_n = 0


def mk(op, *a):
    global _n
    k = (op,) + tuple(x.id if isinstance(x, T) else ("v", x) for x in _flatkey(a))
    t = _tab.get(k)
    if t is None:
        t = T(_n, op, a)
        _n += 1
        _tab[k] = t
    return t


def _flatkey(a):
    for x in a:
        if isinstance(x, tuple):
            yield ("(", len(x))
            yield from _flatkey(x)
        else:
            yield x


# ---------------------------------------------------------------- constants
_ratcache = {}


def rat(d):
    """double -> simplest rational within rounding distance (0.1 -> 1/10, 1/3 -> 1/3)."""
    if d in _ratcache:
        return _ratcache[d]
    if d == 0:
        return Fraction(0)
    ex = Fraction(d)
    r = ex
    if ex.denominator != 1:
        # decimal literal with few digits first
        s = repr(d)
        digits = len(s.split("e")[0].replace(".", "").replace("-", "").lstrip("0"))
        if digits <= 15:
            r = Fraction(s)
        else:
            tol = abs(ex) / (1 << 52)
            c = ex.limit_denominator(100000)
            if c != 0 and abs(c - ex) <= tol:
                r = c
    _ratcache[d] = r
    return r


_snap = {}


def snap(v):
    """constants that differ only by rounding (in the source program or by the compiler's folding) are one constant"""
    if v.denominator <= 1000000:
        return v
    a = abs(v)
    x = a.numerator.bit_length() - a.denominator.bit_length()
    if abs(x) > 900:  # beyond the range of a double
        a2 = a / (1 << x) if x > 0 else a * (1 << -x)
        m, e = math.frexp(a2)
        e += x
    else:
        m, e = math.frexp(a)
    n = round(m * (1 << 44))
    if n == 1 << 44:
        n, e = 1 << 43, e + 1
    r = _snap.get((n, e)) or _snap.get((n + 1, e)) or _snap.get((n - 1, e))
    if r is None:
        if a.denominator.bit_length() + a.numerator.bit_length() > 1500:  # long products of constants
            k = 200 - x
            a = Fraction(int(a * (1 << k)), 1 << k) if k > 0 else Fraction(int(a / (1 << -k)) << -k)
        r = _snap[(n, e)] = a
    return r if v > 0 else -r


def const(v):
    if isinstance(v, float):
        if v != v:
            return mk("sym", "nan")
        if v in (float("inf"), float("-inf")):
            return mk("sym", "inf" if v > 0 else "-inf")
        v = rat(v)
    return mk("c", snap(Fraction(v)))


ZERO = const(0)
ONE = const(1)
TRUE = mk("true")
FALSE = mk("false")


def is_c(t):
    return t.op == "c"


def cval(t):
    return t.a[0]


def leaf(*key):
    return mk("leaf", *key)


# ---------------------------------------------------------------- numbers
def _lin(t):
    """-> (const, {term: coeff})"""
    if t.op == "c":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return Fraction(0), {t: Fraction(1)}


def _mklin(c, d):
    items = tuple(sorted(((t, snap(k)) for t, k in d.items() if k != 0), key=lambda x: x[0].id))
    if not items:
        return const(c)
    c = snap(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items)


def add(a, b):
    if a.op == "c" and b.op == "c":
        return const(a.a[0] + b.a[0])
    ca, da = _lin(a)
    cb, db = _lin(b)
    for t, k in db.items():
        da[t] = da.get(t, 0) + k
    return _mklin(ca + cb, da)


def scale(a, k):
    if k == 1:
        return a
    c, d = _lin(a)
    return _mklin(c * k, {t: v * k for t, v in d.items()})


def neg(a):
    return scale(a, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


def _monomial(t):
    """-> (coeff, {term: exp}) for t seen as a single monomial"""
    if t.op == "c":
        return t.a[0], {}
    if t.op == "prod":
        return Fraction(1), dict(t.a[0])
    if t.op == "lin" and t.a[0] == 0 and len(t.a[1]) == 1:
        x, k = t.a[1][0]
        c, d = _monomial(x)
        return c * k, d
    return Fraction(1), {t: 1}


def _mkprod(c, d):
    items = tuple(sorted(((t, e) for t, e in d.items() if e != 0), key=lambda x: x[0].id))
    if c == 0:
        return ZERO
    if not items:
        return const(c)
    if len(items) == 1 and items[0][1] == 1:
        r = items[0][0]
    elif any(t.op == "lin" and t.a[1][0][1] != 1 for t, e in items):
        # sums inside a product start with coefficient one
        d2 = {}
        for t, e in items:
            if t.op == "lin" and t.a[1][0][1] != 1:
                k = t.a[1][0][1]
                c, t = c * k ** e, scale(t, 1 / k)
            d2[t] = d2.get(t, 0) + e
        return _mkprod(c, d2)
    else:
        r = mk("prod", items)
    return scale(r, c)


def mul(a, b):
    if a.op == "c":
        return scale(b, a.a[0])
    if b.op == "c":
        return scale(a, b.a[0])
    ca, da = _monomial(a)
    cb, db = _monomial(b)
    for t, e in db.items():
        da[t] = da.get(t, 0) + e
    return _mkprod(ca * cb, da)


def inv(a):
    if a.op == "c":
        if a.a[0] == 0:
            return mk("sym", "inf")
        return const(1 / a.a[0])
    c, d = _monomial(a)
    # pull the leading coefficient of a sum out of the denominator
    if len(d) == 1 and list(d.values())[0] == 1:
        (t,) = d
        if t.op == "lin":
            k = t.a[1][0][1]
            if k != 1:
                return _mkprod(1 / (c * k), {scale(t, 1 / k): -1})
    return _mkprod(1 / c, {t: -e for t, e in d.items()})


def div(a, b):
    return mul(a, inv(b))


def ipow(a, n):
    if n == 0:
        return ONE
    if a.op == "c":
        if a.a[0] == 0 and n < 0:
            return mk("sym", "inf")
        return const(a.a[0] ** n)
    r = ONE
    base = a if n > 0 else inv(a)
    for _ in range(abs(n)):
        r = mul(r, base)
    return r


def fn(name, *args):
    """uninterpreted function with a few exact identities"""
    if name == "pow":
        x, y = args
        if y.op == "c" and y.a[0].denominator == 1 and abs(y.a[0]) <= 12:
            return ipow(x, int(y.a[0]))
        if y.op == "c" and y.a[0] == Fraction(1, 2):
            return fn("sqrt", x)
        if x == ONE:
            return ONE
        if x.op == "c" and y.op == "c" and x.a[0] <= 0:
            return mk("fn", "pow", x, y)
        return fn("exp", mul(y, fn("log", x)))
    if name == "exp":
        x = args[0]
        if x == ZERO:
            return ONE
        c, d = _monomial(x)
        if len(d) == 1 and list(d.values())[0] == 1:
            (t,) = d
            if t.op == "fn" and t.a[0] == "log":
                if c.denominator == 1 and abs(c) <= 12:
                    return ipow(t.a[1], int(c))
                if c == Fraction(1, 2):
                    return fn("sqrt", t.a[1])
                if c.denominator <= 12 and c.numerator != 1 and abs(c.numerator) <= 12:
                    return ipow(fn("exp", scale(t, Fraction(1, c.denominator))), c.numerator)
    if name == "log" and args[0] == ONE:
        return ZERO
    if name == "sqrt":
        x = args[0]
        if x.op == "c":
            if x.a[0] in (0, 1):
                return x
    if name == "fabs":
        x = args[0]
        if x.op == "c":
            return const(abs(x.a[0]))
        if x.op == "lin" and x.a[1] and min((t.id, k) for t, k in x.a[1])[1] < 0:
            x = neg(x)
        return ite(gt0(x), x, neg(x))
    if name in ("fmax", "fmin"):
        a, b = args
        c = gt0(sub(a, b))
        return ite(c, a, b) if name == "fmax" else ite(c, b, a)
    if name == "floor" and args[0].op == "c":
        v = args[0].a[0]
        return const(v.numerator // v.denominator)
    if name == "trunc" and args[0].op == "c":
        v = args[0].a[0]
        return const(int(v))
    if name == "round" and args[0].op == "c":
        v = args[0].a[0]
        n = (2 * abs(v) + 1).__floor__() // 2
        return const(n if v >= 0 else -n)
    return mk("fn", name, *args)


# ---------------------------------------------------------------- booleans
def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.a[0]
    if a.op == "and":
        return _or([bnot(x) for x in a.a])
    if a.op == "or":
        return _and([bnot(x) for x in a.a])
    return mk("not", a)


def _and(xs):
    s = {}
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.a if x.op == "and" else (x,)):
            s[y.id] = y
    for y in list(s.values()):
        if bnot(y).id in s:
            return FALSE
    # absorption of or-clauses
    for y in list(s.values()):
        if y.op == "or":
            if any(z.id in s for z in y.a):
                del s[y.id]
                continue
            rest = [z for z in y.a if bnot(z).id not in s]
            if len(rest) != len(y.a):
                del s[y.id]
                return _and(list(s.values()) + [_or(rest)])
    if not s:
        return TRUE
    v = sorted(s.values(), key=lambda t: t.id)
    return v[0] if len(v) == 1 else mk("and", *v)


def _or(xs):
    s = {}
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in (x.a if x.op == "or" else (x,)):
            s[y.id] = y
    for y in list(s.values()):
        if bnot(y).id in s:
            return TRUE
    # merge A&c | A&!c -> A ; factor common conjuncts
    ch = True
    while ch and len(s) > 1:
        ch = False
        vs = list(s.values())
        for i in range(len(vs)):
            for j in range(i + 1, len(vs)):
                m = _or_merge(vs[i], vs[j])
                if m is not None:
                    del s[vs[i].id]
                    del s[vs[j].id]
                    if m is TRUE:
                        return TRUE
                    for y in (m.a if m.op == "or" else (m,)):
                        s[y.id] = y
                    ch = True
                    break
            if ch:
                break
    if not s:
        return FALSE
    v = sorted(s.values(), key=lambda t: t.id)
    return v[0] if len(v) == 1 else mk("or", *v)


def _or_merge(x, y):
    a = {z.id: z for z in (x.a if x.op == "and" else (x,))}
    b = {z.id: z for z in (y.a if y.op == "and" else (y,))}
    da = [z for i, z in a.items() if i not in b]
    db = [z for i, z in b.items() if i not in a]
    if not da:
        return x
    if not db:
        return y
    if len(da) == 1 and len(db) == 1 and bnot(da[0]) is db[0]:
        return _and([z for i, z in a.items() if i in b])
    # (A & c) | (A & !c & D)  ->  A & (c | D)
    if len(da) == 1 and len(db) > 1 and any(bnot(da[0]) is z for z in db):
        com = [z for i, z in a.items() if i in b]
        rest = [z for z in db if z is not bnot(da[0])]
        return _and(com + [_or([da[0], _and(rest)])]) if com else None
    if len(db) == 1 and len(da) > 1 and any(bnot(db[0]) is z for z in da):
        com = [z for i, z in a.items() if i in b]
        rest = [z for z in da if z is not bnot(db[0])]
        return _and(com + [_or([db[0], _and(rest)])]) if com else None
    return None


def band(*xs):
    return _and(xs)


def bor(*xs):
    return _or(xs)


def _norm_dir(d):
    """scale so that the first coefficient is +-1; returns positive scaling only"""
    c, m = _lin(d)
    if not m:
        return d
    first = min(m.items(), key=lambda x: x[0].id)
    k = abs(first[1])
    return scale(d, 1 / k) if k != 1 else d


_closed = {}


def closed(t):
    """floating-point value of a formula of constants only, None for all others"""
    if t.op == "c":
        return flt(t.a[0])
    if t.id in _closed:
        return _closed[t.id]
    r = None
    try:
        if t.op == "lin":
            vs = [closed(x) for x, k in t.a[1]]
            if None not in vs:
                r = flt(t.a[0]) + sum(flt(k) * v for v, (x, k) in zip(vs, t.a[1]))
        elif t.op == "prod":
            vs = [closed(x) for x, e in t.a[0]]
            if None not in vs:
                r = 1.0
                for v, (x, e) in zip(vs, t.a[0]):
                    r *= v ** e
        elif t.op == "fn" and len(t.a) == 2 and t.a[0] in ("exp", "log", "sqrt", "log10", "log1p"):
            v = closed(t.a[1])
            if v is not None:
                r = getattr(math, t.a[0])(v)
    except (ValueError, OverflowError, ZeroDivisionError):
        r = None
    if r is not None and not math.isfinite(r):
        r = None
    _closed[t.id] = r
    return r


def gt0(d, integer=False):
    """d > 0"""
    if d.op == "c":
        return TRUE if d.a[0] > 0 else FALSE
    if d.op == "sym":
        if d.a[0] == "inf":
            return TRUE
        if d.a[0] == "-inf":
            return FALSE
    if integer:
        return mk("gti", d)
    v = closed(d)
    if v is not None and abs(v) > 1e-9:
        return TRUE if v > 0 else FALSE
    d = _norm_dir(d)
    c, m = _lin(d)
    first = min(m.items(), key=lambda x: x[0].id)
    # canonical orientation: the first coefficient is positive; d>0 <=> not(-d>=0)
    return mk("gt", d)


def ge0(d, integer=False):
    """d >= 0 (NaN-insensitive: not (-d > 0))"""
    if integer:
        return gt0(add(d, ONE), True)
    return bnot(gt0(neg(d)))


def eq0(d, integer=False):
    if d.op == "c":
        return TRUE if d.a[0] == 0 else FALSE
    if d.op == "ite":
        # eq over constant arms folds
        c, x, y = d.a
        if is_c(x) or is_c(y):
            return bor(band(c, eq0(x, integer)), band(bnot(c), eq0(y, integer)))
    if d.op == "lin" and len(d.a[1]) == 1 and d.a[1][0][0].op == "ite":
        k = d.a[1][0][1]
        c, x, y = d.a[1][0][0].a
        if is_c(x) or is_c(y):
            f = lambda z: eq0(add(const(d.a[0]), scale(z, k)), integer)
            return bor(band(c, f(x)), band(bnot(c), f(y)))
    c, m = _lin(d)
    first = min(m.items(), key=lambda x: x[0].id)
    d = scale(d, 1 / first[1])
    return mk("eqi" if integer else "eq", d)


def boolleaf(*key):
    return mk("bleaf", *key)


def is_bool(t):
    return t.op in ("true", "false", "not", "and", "or", "gt", "gti", "eq", "eqi", "bleaf", "bite")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if is_bool(a) and is_bool(b):
        return bor(band(c, a), band(bnot(c), b))
    if is_bool(a):
        a = num(a)
    if is_bool(b):
        b = num(b)
    # cofactor simplification
    if a.op == "ite":
        if a.a[0] is c:
            a = a.a[1]
        elif bnot(a.a[0]) is c:
            a = a.a[2]
    if b.op == "ite":
        if b.a[0] is c:
            b = b.a[2]
        elif bnot(b.a[0]) is c:
            b = b.a[1]
    if a is b:
        return a
    return mk("ite", c, a, b)


def num(b):
    """boolean -> 0/1"""
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    if not is_bool(b):
        return b
    return mk("ite", b, ONE, ZERO)


def tobool(t, integer=True):
    """number -> t != 0"""
    if is_bool(t):
        return t
    if t.op == "ite" and t.a[1] is ONE and t.a[2] is ZERO:
        return t.a[0]
    return bnot(eq0(t, integer))


# ---------------------------------------------------------------- traversal
def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _tupterms(x)


def _tupterms(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _tupterms(y)


def walk(roots):
    seen = set()
    st = list(roots)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        yield t
        st.extend(children(t))


def contains(t, pred):
    return any(pred(x) for x in walk([t]))


def subst(t, m, memo=None):
    """m: {term: term}"""
    if memo is None:
        memo = {}
    mi = {k.id: v for k, v in m.items()}
    lowest = min(mi) if mi else None

    def rec(t):
        if t.id in mi:
            return mi[t.id]
        r = memo.get(t.id)
        if r is not None:
            return r
        if lowest is not None and t.id < lowest and not t.a:
            return t
        r = rebuild(t, rec)
        memo[t.id] = r
        return r
    return rec(t)


def rebuild(t, f):
    op = t.op
    if op in ("c", "true", "false", "sym", "bleaf"):
        if op == "bleaf":
            return mk("bleaf", *_maptup(t.a, f))
        return t
    if op == "leaf":
        return mk("leaf", *_maptup(t.a, f))
    if op == "lin":
        r = const(t.a[0])
        for x, k in t.a[1]:
            r = add(r, scale(f(x), k))
        return r
    if op == "prod":
        r = ONE
        for x, e in t.a[0]:
            r = mul(r, ipow(f(x), e))
        return r
    if op == "fn":
        return fn(t.a[0], *[f(x) for x in t.a[1:]])
    if op == "ite":
        return ite(f(t.a[0]), f(t.a[1]), f(t.a[2]))
    if op == "not":
        return bnot(f(t.a[0]))
    if op == "and":
        return _and([f(x) for x in t.a])
    if op == "or":
        return _or([f(x) for x in t.a])
    if op == "gt":
        return gt0(f(t.a[0]))
    if op == "gti":
        return gt0(f(t.a[0]), True)
    if op == "eq":
        return eq0(f(t.a[0]))
    if op == "eqi":
        return eq0(f(t.a[0]), True)
    return mk(op, *_maptup(t.a, f))


def _maptup(a, f):
    out = []
    for x in a:
        if isinstance(x, T):
            out.append(f(x))
        elif isinstance(x, tuple):
            out.append(tuple(_maptup(x, f)))
        else:
            out.append(x)
    return out


# ---------------------------------------------------------------- evaluation
def _h(*key):
    d = hashlib.blake2b(repr(key).encode(), digest_size=64).digest()
    return int.from_bytes(d, "little") % P


def ratrec(v):
    """rational reconstruction mod P"""
    a, b = P, v % P
    s0, s1 = 0, 1
    lim = 1 << 260
    while b > lim:
        q = a // b
        a, b = b, a - q * b
        s0, s1 = s1, s0 - q * s1
    if s1 == 0:
        return Fraction(v)
    if s1 < 0:
        return Fraction(-b, -s1)
    return Fraction(b, s1)


class Undecided(Exception):
    pass


EXACT = {"sqrt": ((0, 0), (1, 1)), "exp": ((0, 1),), "log": ((1, 0),), "log1p": ((0, 0),)}


class Env:
    """One consistent assignment: random field values for leaves, one truth value per condition."""

    def __init__(self, sample, seed=1, regions=(), force=None, leafval=None, equal=(), script=None):
        self.script = script        # truth values of the decisions to make, extended as decisions come up
        self.pos = 0
        self.sample = sample
        self.seed = seed
        self.rng = random.Random("%s/%s" % (seed, sample))
        self.memo = {}
        self.bmemo = {}
        self.fam = []       # [fps, integer, lo, lo_incl, hi, hi_incl, excluded, name]
        self.opaque_b = {}
        self.bterms = []
        self.soft = {}
        self.hint = None
        self.trace = []
        self.force = {t.id: v for t, v in (force or {}).items()}
        self.leafval = leafval or {}
        self.equal = {a.id: b for a, b in equal}
        for term, lo, lo_i, hi, hi_i, integer in regions:
            self.fam.append([self.ev(term), integer, lo, lo_i, hi, hi_i, set(), pretty(term), term])

    def choose(self, p):
        if self.hint is not None:
            return self.hint
        if self.script is None:
            return self.rng.random() < p
        if self.pos == len(self.script):
            self.script.append(False)
        self.pos += 1
        return self.script[self.pos - 1]

    # field value of a term: K-tuple
    def ev(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        r = self._ev(t)
        self.memo[t.id] = r
        return r

    def _c(self, q):
        return tuple([(q.numerator * pow(q.denominator, -1, P)) % P] * K)

    def _ev(self, t):
        if t.id in self.equal:
            return self.ev(self.equal[t.id])
        op = t.op
        if op == "c":
            return self._c(t.a[0])
        if op in ("leaf", "sym"):
            if t.id in self.leafval:
                return self._c(Fraction(self.leafval[t.id]))
            key = self._key(t)
            return tuple(_h(self.seed, self.sample, k, key) for k in range(K))
        if op == "lin":
            c = self._c(t.a[0])
            acc = list(c)
            for x, q in t.a[1]:
                v = self.ev(x)
                qq = self._c(q)
                for k in range(K):
                    acc[k] = (acc[k] + v[k] * qq[k]) % P
            return tuple(acc)
        if op == "prod":
            acc = [1] * K
            for x, e in t.a[0]:
                v = self.ev(x)
                for k in range(K):
                    b = v[k] if e > 0 else (pow(v[k], -1, P) if v[k] else 0)
                    acc[k] = acc[k] * pow(b, abs(e), P) % P
            return tuple(acc)
        if op == "ite":
            return self.ev(t.a[1]) if self.b(t.a[0]) else self.ev(t.a[2])
        if is_bool(t):
            return (1,) * K if self.b(t) else (0,) * K
        # generic: hash of operator and evaluated children
        key = self._key(t)
        if op == "fn" and t.a[0] in EXACT:
            v = self.ev(t.a[1])
            for x, y in EXACT[t.a[0]]:
                if all(w == x for w in v):
                    return (y,) * K
            if t.a[0] == "exp" and v[0] > P // 2:
                # exp(-x) is 1/exp(x)
                key = (t.op, t.a[0], tuple(P - w for w in v))
                return tuple(pow(_h(self.seed, self.sample, k, key), -1, P) for k in range(K))
        return tuple(_h(self.seed, self.sample, k, key) for k in range(K))

    def _key(self, t):
        return (t.op,) + tuple(self._kv(x) for x in t.a)

    def _kv(self, x):
        if isinstance(x, T):
            return self.ev(x)
        if isinstance(x, tuple):
            return tuple(self._kv(y) for y in x)
        return x

    # truth value
    def b(self, t):
        r = self.bmemo.get(t.id)
        if r is not None:
            return r
        r = self._b(t)
        self.bmemo[t.id] = r
        if t.op in ("gt", "gti", "eq", "eqi", "bleaf"):
            self.bterms.append(t)
        return r

    def _b(self, t):
        if t.id in self.force:
            return self.force[t.id]
        op = t.op
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "not":
            return not self.b(t.a[0])
        if op == "and":
            return all(self.b(x) for x in t.a)
        if op == "or":
            return any(self.b(x) for x in t.a)
        if op in ("gt", "gti", "eq", "eqi"):
            return self.atom(t)
        if op == "bleaf":
            if t.id in self.soft:
                return self.soft[t.id]
            k = self._key(t)
            self.hint = None
            if k not in self.opaque_b:
                self.opaque_b[k] = self.choose(0.5)
                self.trace.append((t, self.opaque_b[k]))
            return self.opaque_b[k]
        # number used as boolean
        return any(v != 0 for v in self.ev(t))

    def atom(self, t):
        d = self.ev(t.a[0])
        integer = t.op in ("gti", "eqi")
        if len(set(d)) == 1:
            q = ratrec(d[0])
            return q == 0 if t.op in ("eq", "eqi") else q > 0
        self.hint = self.soft.get(t.id)
        fam = None
        # the constant part is known exactly when the term shows it
        ex = t.a[0].a[0] if t.a[0].op == "lin" else Fraction(0)
        if ex:
            xx = self._c(ex)
            d = tuple((x - y) % P for x, y in zip(d, xx))
        for f in self.fam:
            df = [(x - y) % P for x, y in zip(d, f[0])]
            if len(set(df)) == 1:
                fam, sign, c = f, 1, ratrec(df[0])
                break
            df = [(x + y) % P for x, y in zip(d, f[0])]
            if len(set(df)) == 1:
                fam, sign, c = f, -1, ratrec(df[0])
                break
            # proportional: d = r*E + c with rational r
            r = self._ratio(d, f[0])
            if r is not None:
                fam = f
                c = ratrec((d[0] - f[0][0] * self._c(r)[0]) % P)
                sign = 1 if r > 0 else -1
                c = (c + ex) / abs(r)
                ex = Fraction(0)
                break
        if fam is None:
            fam = [d, integer, None, False, None, False, set(), pretty(sub(t.a[0], const(ex)) if ex else t.a[0]),
                   sub(t.a[0], const(ex)) if ex else t.a[0]]
            self.fam.append(fam)
            sign, c = 1, Fraction(0)
        # d = sign*E + c (up to positive scale)
        c += ex
        if t.op in ("eq", "eqi"):
            v = -c * sign
            return self._decide_eq(fam, v)
        if sign > 0:
            return self._decide_gt(fam, -c, integer)
        return self._decide_lt(fam, c, integer)

    def _ratio(self, d, e):
        # d = r*e + c at every sample point, with one rational r
        de = (e[0] - e[1]) % P
        dd = (d[0] - d[1]) % P
        if de == 0 or dd == 0:
            return None
        m = dd * pow(de, -1, P) % P
        if len({(x - y * m) % P for x, y in zip(d, e)}) != 1:
            return None
        r = ratrec(m)
        # a ratio of two unrelated values reconstructs to a fraction as long as
        # the modulus; one that stems from constants is much shorter
        if r.numerator.bit_length() + r.denominator.bit_length() > 450:
            return None
        return r

    def _decide_gt(self, f, v, integer):
        """E > v ?"""
        if integer and f[1]:
            v = v.numerator // v.denominator     # E>v <=> E>=floor(v)+1
            lo, hi = f[2], f[4]
            if lo is not None and lo >= v + 1:
                return True
            if hi is not None and hi <= v:
                return False
            r = self.choose(0.5)
            if r:
                f[2], f[3] = Fraction(v + 1), True
            else:
                f[4], f[5] = Fraction(v), True
            self.trace.append(("%s > %s" % (f[7], v), r))
            return r
        lo, loi, hi, hii = f[2], f[3], f[4], f[5]
        if lo is not None and (lo > v or (lo == v and not loi)):
            return True
        if hi is not None and (hi < v or hi == v):
            return False
        r = self.choose(0.5)
        if r:
            f[2], f[3] = v, False
        else:
            if lo is not None and lo == v:
                f[4], f[5] = v, True
            else:
                f[4], f[5] = v, v not in f[6]
        self.trace.append(("%s > %s" % (f[7], flt(v)), r))
        return r

    def _decide_lt(self, f, v, integer):
        """E < v ?"""
        if integer and f[1]:
            v = -((-v.numerator) // v.denominator)   # ceil: E<v <=> E<=ceil(v)-1
            if self.hint is not None:
                self.hint = not self.hint
            return not self._decide_gt(f, Fraction(v - 1), True)
        lo, loi, hi, hii = f[2], f[3], f[4], f[5]
        if hi is not None and (hi < v or (hi == v and not hii)):
            return True
        if lo is not None and (lo > v or lo == v):
            return False
        r = self.choose(0.5)
        if r:
            f[4], f[5] = v, False
        else:
            f[2], f[3] = v, v not in f[6]
        self.trace.append(("%s < %s" % (f[7], flt(v)), r))
        return r

    def _decide_eq(self, f, v):
        lo, loi, hi, hii = f[2], f[3], f[4], f[5]
        if v in f[6]:
            return False
        if lo is not None and (v < lo or (v == lo and not loi)):
            return False
        if hi is not None and (v > hi or (v == hi and not hii)):
            return False
        if lo is not None and lo == hi:
            return lo == v
        if f[1] and v.denominator != 1:
            return False
        r = self.choose(0.35)
        if r:
            f[2] = f[4] = v
            f[3] = f[5] = True
        else:
            f[6].add(v)
            if lo is not None and lo == v:
                f[3] = False
                if f[1]:
                    f[2], f[3] = v + 1, True
            if hi is not None and hi == v:
                f[5] = False
                if f[1]:
                    f[4], f[5] = v - 1, True
        self.trace.append(("%s == %s" % (f[7], flt(v)), r))
        return r

    def decided(self):
        return [(t, self.bmemo[t.id]) for t in self.bterms]

    def pins(self):
        """[(term, value)] that make the quantities pinned to a single value by the conditions have that value"""
        out = []
        for f in self.fam:
            if f[2] is None or f[2] != f[4]:
                continue
            t = subst(f[8], dict(out)) if out else f[8]
            r = solve_for(t, f[2])
            if r is not None:
                out.append(r)
        return out

    def conditions(self):
        return ["%s%s" % ("" if v else "NOT ", (pretty(t) if isinstance(t, T) else t)) for t, v in self.trace]


def solve_for(t, v):
    """(x, e) with x = e making t equal v, x a part of t that e does not contain"""
    c, m = _lin(t)
    for x in sorted(m, key=lambda x: x.op != "leaf"):
        rest = scale(sub(const(v), _mklin(c, {y: k for y, k in m.items() if y is not x})), 1 / m[x])
        cand = [(x, rest)]
        if x.op == "prod":
            cand = []
            for y, e in sorted(x.a[0], key=lambda z: (z[1] < 0, z[0].op == "fn" and z[0].a[0] == "exp")):
                if rest is ZERO:
                    if e > 0:
                        cand.append((y, ZERO))
                elif abs(e) == 1:
                    q = div(rest, _mkprod(Fraction(1), {z: k for z, k in x.a[0] if z is not y}))
                    cand.append((y, q if e == 1 else inv(q)))
        for y, q in cand:
            if y.op != "c" and not contains(q, lambda z: z is y):
                return y, q
    return None


def compare(a, b, samples=60, seed=1, regions=(), force=None, equal=(), under=None):
    """None if a == b in all samples, else the Env of a differing sample.
    `under`: optional boolean term that must hold (samples violating it are skipped)."""
    used = 0
    s = 0
    while used < samples and s < samples * 40:
        e = Env(s, seed, regions, force, equal=equal)
        s += 1
        if under is not None and not e.b(under):
            continue
        used += 1
        if is_bool(a) and is_bool(b):
            if e.b(a) != e.b(b):
                return e
        elif e.ev(a) != e.ev(b):
            return e
    if used == 0:
        raise Undecided("no sample satisfies the side condition")
    return None


def cases(f, limit=20000, seed=1, **kw):
    """runs f(Env) once for every consistent combination of the truth values it asks for; returns (results
    other than None, number of cases, complete?)"""
    script = []
    n = 0
    out = []
    while True:
        e = Env(n % 7, seed, script=script, **kw)
        r = f(e)
        if r is not None:
            out.append((r, e))
        n += 1
        del script[e.pos:]
        while script and script[-1]:
            script.pop()
        if not script:
            return out, n, True
        script[-1] = True
        if n >= limit:
            return out, n, False


def differ(a, b, limit=20000, under=None, equal=(), **kw):
    """None if a and b agree in every case; otherwise the Env of a case in which they differ. Beyond `limit`
    cases the rest is sampled."""
    if a is b:
        return None

    class Found(Exception):
        pass

    def same(e):
        if is_bool(a) and is_bool(b):
            return e.b(a) == e.b(b)
        return e.ev(a) == e.ev(b)

    def one(e):
        if under is not None and not e.b(under):
            return None
        if not same(e):
            # a quantity pinned to one value by the conditions also has that value in the results
            eq = e.pins()
            if eq:
                e2 = Env(e.sample, e.seed, equal=list(equal) + eq)
                e2.soft = {t.id: v for t, v in e.decided()}
                if same(e2):
                    return None
            raise Found(e)
        return None
    try:
        _, n, full = cases(one, limit, equal=equal, **kw)
    except Found as x:
        return x.args[0]
    if not full:
        return compare(a, b, 300, under=under, equal=equal, **kw)
    return None


# ---------------------------------------------------------------- printing
_names = {}


def set_namer(f):
    _names["f"] = f


def flt(q):
    """for printing"""
    try:
        return float(q)
    except OverflowError:
        return float("inf") if q > 0 else float("-inf")


def pretty(t, depth=6):
    if depth == 0:
        return "…"
    p = lambda x: pretty(x, depth - 1) if isinstance(x, T) else (
        "(" + ",".join(p(y) for y in x) + ")" if isinstance(x, tuple) else str(x))
    op = t.op
    if op == "c":
        q = t.a[0]
        if q.denominator == 1:
            return str(q.numerator)
        return "%.10g" % flt(q)
    if op == "leaf":
        if "f" in _names:
            r = _names["f"](t)
            if r:
                return r
        return "<" + ",".join(p(x) for x in t.a) + ">"
    if op == "sym":
        return t.a[0]
    if op == "lin":
        parts = []
        if t.a[0] != 0:
            parts.append("%.10g" % flt(t.a[0]))
        for x, k in t.a[1][:8]:
            parts.append(p(x) if k == 1 else "%.10g*%s" % (flt(k), p(x)))
        if len(t.a[1]) > 8:
            parts.append("…")
        return "(" + " + ".join(parts) + ")"
    if op == "prod":
        return "*".join(p(x) if e == 1 else "%s^%d" % (p(x), e) for x, e in t.a[0])
    if op == "fn":
        return "%s(%s)" % (t.a[0], ", ".join(p(x) for x in t.a[1:]))
    if op == "ite":
        return "[%s ? %s : %s]" % tuple(p(x) for x in t.a)
    if op == "not":
        return "!" + p(t.a[0])
    if op == "and":
        return "(" + " && ".join(p(x) for x in t.a) + ")"
    if op == "or":
        return "(" + " || ".join(p(x) for x in t.a) + ")"
    if op in ("gt", "gti"):
        return p(t.a[0]) + ">0"
    if op in ("eq", "eqi"):
        return p(t.a[0]) + "==0"
    if op == "call":
        return "%s(%s)" % (t.a[0], ", ".join(p(x) for x in t.a[1:]))
    return op + "{" + ",".join(p(x) for x in t.a) + "}"


def feval(t, env):
    """floating-point value of a closed formula; env gives values of terms by id (None where it has none)"""
    memo = {}

    def ev(t):
        if t.id in memo:
            return memo[t.id]
        r = memo[t.id] = go(t)
        return r

    def go(t):
        if t.id in env:
            return env[t.id]
        op = t.op
        if op == "c":
            return float(t.a[0])
        if op == "lin":
            return float(t.a[0]) + sum(float(k) * ev(x) for x, k in t.a[1])
        if op == "prod":
            r = 1.0
            for x, e in t.a[0]:
                r *= ev(x) ** e
            return r
        if op == "ite":
            return ev(t.a[1]) if ev(t.a[0]) else ev(t.a[2])
        if op == "fn" and len(t.a) == 2 and t.a[0] in ("exp", "log", "sqrt", "sin", "cos", "log10", "fabs"):
            return abs(ev(t.a[1])) if t.a[0] == "fabs" else getattr(math, t.a[0])(ev(t.a[1]))
        if op == "fn" and t.a[0] == "pow":
            return math.pow(ev(t.a[1]), ev(t.a[2]))
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "not":
            return not ev(t.a[0])
        if op == "and":
            return all(ev(x) for x in t.a)
        if op == "or":
            return any(ev(x) for x in t.a)
        if op in ("gt", "gti"):
            return ev(t.a[0]) > 0
        if op in ("eq", "eqi"):
            return ev(t.a[0]) == 0
        raise ValueError("no value for %s" % pretty(t)[:200])
    return ev(t)
