"""Symbolic domain of the summary analysis: real-valued Laurent polynomials over interned atoms,
Boolean functions as reduced ordered BDDs over atomic conditions, pointers as base + offset."""
from fractions import Fraction

_atom_id = {}
_atoms = []


def aid(a):
    i = _atom_id.get(a)
    if i is None:
        i = len(_atoms)
        _atom_id[a] = i
        _atoms.append(a)
    return i


def atom_of(i):
    return _atoms[i]


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


class Poly:
    __slots__ = ("d", "_k", "_h")

    def __init__(self, d):
        self.d = d
        self._k = None
        self._h = None

    @staticmethod
    def const(c):
        if isinstance(c, float):
            c = _norm(Fraction(c))
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def atom(a):
        return Poly({((aid(a), 1),): 1})

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        o = P(o)
        if not o.d:
            return self
        if not self.d:
            return o
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = _norm(v)
            else:
                d.pop(m, None)
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if not self.d or not o.d:
            return ZERO
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mono_mul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = _norm(v)
                else:
                    d.pop(m, None)
        return Poly(d)

    __rmul__ = __mul__

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self):
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def is_atom(self):
        """the atom if this poly is exactly one atom with coefficient 1"""
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return _atoms[m[0][0]]
        return None

    def atom_ids(self):
        s = set()
        for m in self.d:
            for a, e in m:
                s.add(a)
        return s

    def atoms(self):
        return [_atoms[i] for i in self.atom_ids()]

    def coeff_of(self, a):
        """(coefficient poly of atom a, rest) if linear in a else None"""
        i = aid(a)
        co, re = {}, {}
        for m, c in self.d.items():
            e = dict(m).get(i, 0)
            if e == 0:
                re[m] = c
            elif e == 1:
                co[tuple(x for x in m if x[0] != i)] = c
            else:
                return None
        return Poly(co), Poly(re)

    def __repr__(self):
        return show(self)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


ZERO = Poly({})
ONE = Poly({(): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    return Poly.const(x)


def A(*a):
    return Poly.atom(tuple(a))


def poly_inv(p):
    """1/p"""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        return Poly({tuple((a, -e) for a, e in m): _norm(Fraction(1) / Fraction(c))})
    # scale so that the leading coefficient is 1
    k = p.key()[-1][1]
    q = p * P(Fraction(1) / Fraction(k))
    return A("inv", q) * P(Fraction(1) / Fraction(k))


def poly_divides(a, b):
    """exact quotient a/b as a polynomial with integer coefficients and no negative exponents, or None"""
    if b.d == {}:
        return None
    if a.d == {}:
        return ZERO
    if len(b.d) == 1:
        q = a * poly_inv(b)
    else:
        # multivariate long division, lexicographic on sorted atom ids
        def lead(p):
            return max(p.d, key=lambda m: (sum(e for _, e in m), m))
        q, r = ZERO, a
        lb = lead(b)
        for _ in range(200):
            if not r.d:
                break
            lr = lead(r)
            t = mono_mul(lr, tuple((x, -e) for x, e in lb))
            if any(e < 0 for _, e in t):
                return None
            tp = Poly({t: _norm(Fraction(r.d[lr]) / Fraction(b.d[lb]))})
            q = q + tp
            r = r - tp * b
        if r.d:
            return None
    for m, c in q.d.items():
        if any(e < 0 for _, e in m) or (isinstance(c, Fraction) and c.denominator != 1):
            return None
    return q


# ---------------------------------------------------------------- pointers
class Ptr:
    __slots__ = ("base", "off")

    def __init__(self, base, off):
        self.base = base
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.base == o.base and self.off == o.off

    def __hash__(self):
        return hash((self.base, self.off))

    def __repr__(self):
        return "&%s[%s]" % (show_base(self.base), self.off)


class PIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, PIte) and (self.c, self.a, self.b) == (o.c, o.a, o.b)

    def __hash__(self):
        return hash((self.c, self.a, self.b))

    def __repr__(self):
        return "(%s?%r:%r)" % (show_bool(self.c), self.a, self.b)


NULLBASE = ("null",)
NULL = Ptr(NULLBASE, ZERO)

# ---------------------------------------------------------------- Booleans (ROBDD)
# a node is an int: 0 false, 1 true
_bvars = []
_bvar_id = {}
_nodes = [None, None]
_uniq = {}


def _mk(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _uniq.get(k)
    if n is None:
        n = len(_nodes)
        _nodes.append(k)
        _uniq[k] = n
    return n


def bvar(cond):
    i = _bvar_id.get(cond)
    if i is None:
        i = len(_bvars)
        _bvars.append(cond)
        _bvar_id[cond] = i
    return _mk(i, 0, 1)


_itec = {}


def bite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = _itec.get(k)
    if r is not None:
        return r
    v = min(_nodes[x][0] for x in k if x > 1)

    def co(x, b):
        if x <= 1 or _nodes[x][0] != v:
            return x
        return _nodes[x][2 if b else 1]
    r = _mk(v, bite(co(f, 0), co(g, 0), co(h, 0)), bite(co(f, 1), co(g, 1), co(h, 1)))
    _itec[k] = r
    return r


def bnot(f):
    return bite(f, 0, 1)


def band(f, g):
    return bite(f, g, 0)


def bor(f, g):
    return bite(f, 1, g)


def bimplies(f, g):
    return band(f, bnot(g)) == 0


def bvars_of(f):
    seen, out, st = set(), [], [f]
    while st:
        x = st.pop()
        if x <= 1 or x in seen:
            continue
        seen.add(x)
        v, lo, hi = _nodes[x]
        if v not in out:
            out.append(v)
        st += [lo, hi]
    return [_bvars[v] for v in sorted(set(out))]


def bnode(f):
    v, lo, hi = _nodes[f]
    return _bvars[v], lo, hi


def brestrict(f, cond, val):
    """f with atomic condition cond := val"""
    vi = _bvar_id.get(cond)
    if vi is None:
        return f

    def go(x):
        if x <= 1:
            return x
        v, lo, hi = _nodes[x]
        if v == vi:
            return hi if val else lo
        return _mk2(v, go(lo), go(hi))
    return go(f)


def _mk2(v, lo, hi):
    return bite(_mk(v, 0, 1), hi, lo)


def literals(f):
    """conjunction of literals implied by f: list of (cond, bool)"""
    out = []
    if f <= 1:
        return out
    for c in bvars_of(f):
        if brestrict(f, c, False) == 0:
            out.append((c, True))
        elif brestrict(f, c, True) == 0:
            out.append((c, False))
    return out


# atomic conditions: ("gt0",p) integer p>0 ; ("fgt0",p) real p>0 ; ("eq0",p) ; ("isnull",ptr) ; ("opq",x)
def _lead_sign(p):
    # canonical sign by the smallest key
    k = p.key()
    return -1 if k and k[-1][1] < 0 else 1


def c_gt0(p, real=False):
    c = p.cval()
    if c is not None:
        return 1 if c > 0 else 0
    if not real:
        # scale to coprime integers when rational
        if any(isinstance(x, Fraction) for x in p.d.values()):
            den = 1
            for x in p.d.values():
                if isinstance(x, Fraction):
                    den = den * x.denominator
            p = p * P(den)
        # gt0(p) == not gt0(1-p): choose canonical orientation
        q = ONE - p
        if _lead_sign(p) < 0:
            return bnot(bvar(("gt0", q)))
        return bvar(("gt0", p))
    # canonical orientation for reals: p>0 / p>=0 (= not -p>0)
    return bvar(("fgt0", _scale(p)))


def _scale(p):
    ks = [abs(c) for m, c in p.key() if m != ()]
    if not ks:
        return p
    k = ks[-1]
    if k == 1:
        return p
    return p * P(Fraction(1) / Fraction(k))


def c_ge0(p, real=False):
    if real:
        c = p.cval()
        if c is not None:
            return 1 if c >= 0 else 0
        return bnot(bvar(("fgt0", _scale(-p))))
    return c_gt0(p + ONE)


def c_eq0(p):
    c = p.cval()
    if c is not None:
        return 1 if c == 0 else 0
    if _lead_sign(p) < 0:
        p = -p
    # ite(c,k1,k2)+k == 0 simplification
    a = [(m, k) for m, k in p.d.items() if m != ()]
    if len(a) == 1:
        (m, k), = a
        if len(m) == 1 and m[0][1] == 1:
            at = _atoms[m[0][0]]
            if at[0] == "ite":
                cst = P(p.d.get((), 0))
                x = at[2] * P(k) + cst
                y = at[3] * P(k) + cst
                return bite(at[1], c_eq0(x), c_eq0(y))
    return bvar(("eq0", _scale(p)))


def c_isnull(p):
    if isinstance(p, PIte):
        return bite(p.c, c_isnull(p.a), c_isnull(p.b))
    if isinstance(p, Ptr):
        if p.base == NULLBASE:
            return 1
        if p.base[0] in ("alloca", "glob", "fresh"):
            return 0
        return bvar(("isnull", Ptr(p.base, ZERO)))
    return bvar(("opq", "isnull", p))


ALLOCS = ("malloc", "calloc", "realloc", "_Znwm", "_Znam", "create_hyper_mat", "create_hyper_mat_with_data", "create_simple_mat", "create_simple_mat_with_data")


def c_ptreq(x, y):
    """equality of two pointers"""
    if isinstance(x, PIte):
        return bite(x.c, c_ptreq(x.a, y), c_ptreq(x.b, y))
    if isinstance(y, PIte):
        return bite(y.c, c_ptreq(x, y.a), c_ptreq(x, y.b))
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        if x.base == y.base:
            return c_eq0(x.off - y.off)
        if x == NULL:
            return c_isnull(y)
        if y == NULL:
            return c_isnull(x)
        for p, q in ((x, y), (y, x)):
            # a new block differs from every parameter
            if p.base[0] in ("alloca", "fresh") or (p.base[0] == "ret" and (p.base[1] in ALLOCS or str(p.base[1]).startswith("sm_"))):
                if q.base[0] in ("arg", "glob") or q.base[0] in ("alloca", "ret"):
                    return 0
    if repr(y) < repr(x):
        x, y = y, x
    return bvar(("peq", x, y))


def ite(c, a, b):
    """value selection"""
    if c == 1:
        return a
    if c == 0:
        return b
    if a == b:
        return a
    if isinstance(a, Poly) and isinstance(b, Poly):
        common = {m: k for m, k in a.d.items() if b.d.get(m) == k}
        cm = Poly(common)
        if common:
            a = a - cm
            b = b - cm
        n = bnot(c)
        if n < c:
            c, a, b = n, b, a
        return cm + A("ite", c, a, b)
    if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
            return Ptr(a.base, ite(c, a.off, b.off))
        n = bnot(c)
        if n < c:
            c, a, b = n, b, a
        return PIte(c, a, b)
    if isinstance(a, int) and isinstance(b, int):  # BDD
        return bite(c, a, b)
    return A("opq", "mix", c, a, b)


# ---------------------------------------------------------------- substitution
def subst(x, f, memo=None):
    """rebuild x replacing atoms: f(atom) -> Poly or None (keep, but still rebuild inside)"""
    if memo is None:
        memo = {}
    return _subst(x, f, memo)


def _subst(x, f, memo):
    if isinstance(x, Poly):
        k = x
        r = memo.get(k)
        if r is not None:
            return r
        reps = {}
        for i in x.atom_ids():
            a = _atoms[i]
            n = _subst_atom(a, f, memo)
            if n is not None:
                reps[i] = n
        if not reps:
            r = x
        else:
            r = ZERO
            for m, c in x.d.items():
                t = Poly({(): c})
                keep = []
                for i, e in m:
                    if i in reps:
                        b = reps[i]
                        if e < 0:
                            b = poly_inv(b) if b.d else A("opq", "inv0")
                            e = -e
                        for _ in range(e):
                            t = t * b
                    else:
                        keep.append((i, e))
                if keep:
                    t = t * Poly({tuple(keep): 1})
                r = r + t
        memo[k] = r
        return r
    if isinstance(x, Ptr):
        return subst_ptr(x, f, memo)
    if isinstance(x, PIte):
        return ite(_subst(x.c, f, memo), _subst(x.a, f, memo), _subst(x.b, f, memo))
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return subst_bool(x, f, memo)
    if isinstance(x, tuple):
        return tuple(_subst_any(y, f, memo) for y in x)
    return x


def _subst_any(y, f, memo):
    if isinstance(y, (Poly, Ptr, PIte)):
        return _subst(y, f, memo)
    if isinstance(y, tuple):
        if y and y[0] == "@ite":
            return y
        return _subst_items(y, f, memo)
    return y


def _subst_items(y, f, memo):
    if "at" in y[:3] and y.index("at") + 2 < len(y):
        # a text: the base and offset of its place
        k = y.index("at")
        if isinstance(y[k + 1], tuple) and isinstance(y[k + 2], Poly):
            p = subst_ptr(Ptr(y[k + 1], y[k + 2]), f, memo)
            return tuple(_subst_any(z, f, memo) for z in y[:k + 1]) + (p.base, p.off) + tuple(_subst_any(z, f, memo) for z in y[k + 3:])
    return tuple(_subst_any(z, f, memo) for z in y)


def subst_base(b, f, memo):
    r = f(("base", b))
    if r is not None:
        return r
    nb = tuple(_subst_any(z, f, memo) for z in b)
    return nb


def subst_ptr(x, f, memo):
    nb = subst_base(x.base, f, memo)
    no = _subst(x.off, f, memo)
    if isinstance(nb, Ptr):
        return Ptr(nb.base, nb.off + no)
    return Ptr(nb, no)


def subst_bool(x, f, memo):
    if x <= 1:
        return x
    k = ("B", x)
    r = memo.get(k)
    if r is not None:
        return r
    v, lo, hi = _nodes[x]
    c = _bvars[v]
    nv = subst_cond(c, f, memo)
    r = bite(nv, subst_bool(hi, f, memo), subst_bool(lo, f, memo))
    memo[k] = r
    return r


def assume(x, lits, memo=None):
    """x under the assumption that the atomic conditions have the given truth values"""
    d = dict(lits)

    def f(a):
        if a[0] == "@cond":
            v = d.get(a[1])
            return None if v is None else (1 if v else 0)
        return None
    memo = {} if memo is None else memo
    if isinstance(x, int) and not isinstance(x, bool):
        return subst_bool(x, f, memo)
    return _subst(x, f, memo)


def subst_cond(c, f, memo):
    r = f(("@cond", c))
    if r is not None:
        return r
    t = c[0]
    if t == "gt0":
        return c_gt0(_subst(c[1], f, memo))
    if t == "fgt0":
        return c_gt0(_subst(c[1], f, memo), True)
    if t == "eq0":
        return c_eq0(_subst(c[1], f, memo))
    if t == "isnull":
        return c_isnull(_subst(c[1], f, memo))
    if t == "peq":
        return c_ptreq(_subst(c[1], f, memo), _subst(c[2], f, memo))
    return bvar(_subst_items(c, f, memo))


def _subst_atom(a, f, memo):
    r = f(a)
    if r is not None:
        return r
    t = a[0]
    if t == "ite":
        c, x, y = a[1], a[2], a[3]
        nc, nx, ny = subst_bool(c, f, memo), _subst(x, f, memo), _subst(y, f, memo)
        if nc == c and nx == x and ny == y:
            return None
        return ite(nc, nx, ny)
    if t == "ld":
        p = subst_ptr(Ptr(a[1], a[2]), f, memo)
        rest = tuple(_subst_any(y, f, memo) if isinstance(y, tuple) else y for y in a[3:])
        if p.base == a[1] and p.off == a[2] and rest == a[3:]:
            return None
        return A("ld", p.base, p.off, *rest)
    if t == "inv":
        n = _subst(a[1], f, memo)
        return None if n == a[1] else poly_inv(n)
    if t == "div":
        n, m = _subst(a[1], f, memo), _subst(a[2], f, memo)
        return None if (n == a[1] and m == a[2]) else mk_div(n, m)
    if t == "rem":
        n, m = _subst(a[1], f, memo), _subst(a[2], f, memo)
        return None if (n == a[1] and m == a[2]) else mk_rem(n, m)
    if t == "sum":
        # ("sum", L, count, term)
        n = tuple(_subst_any(y, f, memo) for y in a)
        if n == a:
            return None
        return mk_sum(n[1], n[2], n[3])
    if t == "tr":
        n = _subst(a[2], f, memo)
        return None if n == a[2] else mk_trunc(a[1], n)
    if t in ("sx", "zx"):
        n = _subst(a[2], f, memo)
        return None if n == a[2] else mk_ext(t, a[1], n)
    # generic
    if t in ("strlen", "chrpos"):
        n = _subst_items(a, f, memo)
        return None if n == a else Poly.atom(n)
    n = []
    ch = False
    for y in a:
        z = _subst_any(y, f, memo) if not isinstance(y, int) else y
        ch = ch or z != y
        n.append(z)
    if not ch:
        return None
    return Poly.atom(tuple(n))


# ---------------------------------------------------------------- operators
def mk_div(a, b):
    q = poly_divides(a, b)
    if q is not None:
        return q
    ca, cb = a.cval(), b.cval()
    if ca is not None and cb:
        q = abs(ca) // abs(cb)
        return P(q if (ca < 0) == (cb < 0) else -q)
    if cb == 1:
        return a
    if a.d and all(c < 0 for c in a.d.values()):
        # division truncates: the quotient of the negated dividend is the negated quotient
        return -A("div", -a, b)
    return A("div", a, b)


def mk_rem(a, b):
    if poly_divides(a, b) is not None:
        return ZERO
    ca, cb = a.cval(), b.cval()
    if ca is not None and cb:
        r = abs(ca) % abs(cb)
        return P(r if ca >= 0 else -r)
    if a.d and all(c < 0 for c in a.d.values()):
        return -A("rem", -a, b)
    return A("rem", a, b)


def mk_trunc(bits, x):
    c = x.cval()
    if c is not None and not isinstance(c, Fraction):
        c = c & ((1 << bits) - 1)
        if c >= 1 << (bits - 1):
            c -= 1 << bits
        return P(c)
    a = x.is_atom()
    if a is not None:
        if a[0] in ("sx", "zx") and a[1] == bits:
            return a[2]
        if a[0] in ("sx", "zx", "tr") and a[1] > bits:
            return mk_trunc(bits, a[2])
        if a[0] == "ite":
            return ite(a[1], mk_trunc(bits, a[2]), mk_trunc(bits, a[3]))
    return A("tr", bits, x)


def mk_ext(kind, bits, x):
    c = x.cval()
    if c is not None:
        c = c & ((1 << bits) - 1)
        if kind == "sx" and c >= 1 << (bits - 1):
            c -= 1 << bits
        return P(c)
    a = x.is_atom()
    if a is not None and a[0] == "ite":
        return ite(a[1], mk_ext(kind, bits, a[2]), mk_ext(kind, bits, a[3]))
    return A(kind, bits, x)


def depends(x, ids):
    """does x mention an atom with id in ids (deep)?"""
    found = [False]

    def f(a):
        if a in ids:
            found[0] = True
        return None
    subst(x, f)
    return found[0]


def mk_sum(L, count, term):
    """sum over iv of loop L in [0,count) of term"""
    if not term.d:
        return ZERO
    iv = ("iv", L)
    out = ZERO
    dep = ZERO
    for m, c in term.d.items():
        t = Poly({m: c})
        if not depends(t, {iv}):
            out = out + t * count
        else:
            # pull independent factors out
            ind, de = {}, {}
            for i, e in m:
                if depends(Poly({((i, 1),): 1}), {iv}):
                    de[i] = e
                else:
                    ind[i] = e
            dd = Poly({tuple(sorted(de.items())): 1})
            ii = Poly({tuple(sorted(ind.items())): c})
            if dd == A("iv", L):
                out = out + ii * count * (count - 1) * P(Fraction(1, 2))
            else:
                out = out + ii * A("sum", L, count, dd)
    return out


# ---------------------------------------------------------------- printing
NAMES = {}


def show_base(b):
    n = NAMES.get(b)
    if n:
        return n
    if b[0] == "ldp":
        return "*(%s+%s)" % (show_base(b[1]), show(b[2]) if isinstance(b[2], Poly) else b[2])
    if b[0] == "glob":
        return "@" + str(b[1])
    return "/".join(str(x) if not isinstance(x, tuple) else show_base(x) for x in b)


def show_atom(a):
    n = NAMES.get(a)
    if n:
        return n
    t = a[0]
    if t == "iv":
        return "i%s" % a[1][-1] if isinstance(a[1], tuple) else "i%s" % (a[1],)
    if t == "ld":
        return "%s[%s]:%s%s" % (show_base(a[1]), show(a[2]), a[3], "'" * (a[4] if isinstance(a[4], int) and a[4] < 4 else 1 if a[4] else 0))
    if t == "ite":
        return "(%s ? %s : %s)" % (show_bool(a[1]), show(a[2]), show(a[3]))
    if t == "fld":
        return "%s.%s" % (show_base(a[1]), a[2])
    if t == "sum":
        return "SUM{%s<%s}(%s)" % (show_atom(("iv", a[1])), show(a[2]), show(a[3]))
    return "%s(%s)" % (t, ",".join(show(x) if isinstance(x, (Poly, Ptr, PIte)) else (show_base(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x)) for x in a[1:]))


def show(p):
    if isinstance(p, (Ptr, PIte)):
        return repr(p)
    if isinstance(p, bool):
        return str(p)
    if isinstance(p, int):
        return show_bool(p)
    if not isinstance(p, Poly):
        return str(p)
    if not p.d:
        return "0"
    out = []
    for m, c in p.key():
        s = "*".join(show_atom(_atoms[a]) + ("" if e == 1 else "^%d" % e) for a, e in m)
        if isinstance(c, Fraction):
            c = float(c)
        if not s:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = "%s*%s" % (c, s)
        out.append(s)
    return " + ".join(out).replace("+ -", "- ")


def show_cond(c):
    t = c[0]
    if t in ("gt0", "fgt0"):
        return "%s > 0" % show(c[1])
    if t == "eq0":
        return "%s == 0" % show(c[1])
    if t == "isnull":
        return "%r == NULL" % (c[1],)
    if t == "peq":
        return "%r == %r" % (c[1], c[2])
    return "%s" % (tuple(show(x) if isinstance(x, (Poly, Ptr)) else x for x in c),)


def show_bool(f):
    if f == 1:
        return "true"
    if f == 0:
        return "false"
    c, lo, hi = bnode(f)
    if lo == 0:
        return show_cond(c) if hi == 1 else "%s && %s" % (show_cond(c), show_bool(hi))
    if hi == 0:
        return "!(%s)" % show_cond(c) if lo == 1 else "!(%s) && %s" % (show_cond(c), show_bool(lo))
    if hi == 1:
        return "(%s || %s)" % (show_cond(c), show_bool(lo))
    if lo == 1:
        return "(!(%s) || %s)" % (show_cond(c), show_bool(hi))
    return "(%s ? %s : %s)" % (show_cond(c), show_bool(hi), show_bool(lo))
