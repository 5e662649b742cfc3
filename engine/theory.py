"""Second normalisation step, over the universe of conditions of both compared summaries:
case distinctions become sorted decision lists, conditions on one linear integer form become an
interval partition, short constant loops and sums are unrolled, stored values are taken modulo the
width of the store."""
from fractions import Fraction
from sym import *
import sym

UNROLL = 4
MAXCASES = 24


class TooBig(Exception):
    pass


# ------------------------------------------------------------ integer-valued polynomials
INTK = {"iv", "fld", "sx", "zx", "tr", "f2i", "div", "rem", "es", "cdiv", "shr", "bits", "mask", "align", "strlen", "cnt"}


class Theory:
    def __init__(self, argty):
        self.argty = argty          # parameter index -> llvm type
        self.groups = {}            # linear form -> set of constants
        self.memo = {}
        self.bmemo = {}
        self.final = False

    def is_int(self, p):
        for m, c in p.d.items():
            if isinstance(c, Fraction) and c.denominator != 1:
                return False
            for i, e in m:
                if e < 0:
                    return False
                a = sym.atom_of(i)
                t = a[0]
                if t == "fld":
                    if a[3] in ("float", "double"):
                        return False
                elif t in INTK:
                    pass
                elif t == "ld":
                    if a[3] in ("float", "double"):
                        return False
                elif t == "arg":
                    if self.argty.get(a[1]) in ("float", "double", None):
                        return False
                elif t == "ite":
                    if not (self.is_int(a[2]) and self.is_int(a[3])):
                        return False
                elif t == "fn":
                    if a[1] not in ("round", "rnd", "round64", "rnd64", "border", "satu8", "factorial", "dftsize"):
                        return False
                else:
                    return False
        return True

    # ------------------------------------------------------------ conditions
    @staticmethod
    def split(p):
        c = p.d.get((), 0)
        return Poly({m: k for m, k in p.d.items() if m != ()}), c

    def cond(self, c):
        """atomic condition -> BDD over interval conditions (register the form)"""
        t = c[0]
        if t == "eq0" and self.is_int(c[1]):
            p = c[1]
            den = 1
            for x in p.d.values():
                if isinstance(x, Fraction):
                    den *= x.denominator
            p = p * P(den)
            g = 0
            for m, k in p.d.items():
                if m != ():
                    g = gcd(g, abs(int(k)))
            if g and p.d.get((), 0) % g:
                return 0
            if g > 1:
                p = Poly({m: k // g for m, k in p.d.items()})
            return band(self.gt(p + ONE), bnot(self.gt(p)))
        if t == "gt0":
            return self.gt(c[1])
        if t == "eq0" or t == "fgt0":
            return bvar(c)
        return bvar(c)

    def gt(self, p):
        """p > 0 for integers: divide by the common factor of the non-constant part"""
        c = p.cval()
        if c is not None:
            return 1 if c > 0 else 0
        q, k = self.split(p)
        g = 0
        ok = True
        for x in q.d.values():
            if isinstance(x, Fraction):
                ok = False
                break
            g = gcd(g, abs(int(x)))
        if ok and g > 1 and not isinstance(k, Fraction):
            # g*q + k > 0  <=>  q > floor(-k/g)  <=> q - floor(-k/g) > 0
            q = Poly({m: x // g for m, x in q.d.items()})
            p = q - P((-k) // g)
        r = c_gt0(p)
        if r > 1:
            for b in bvars_of(r):
                if b[0] == "gt0":
                    q, k = self.split(b[1])
                    self.groups.setdefault(q, set()).add(k)
        return r

    def boolean(self, f):
        if f <= 1:
            return f
        r = self.bmemo.get(f)
        if r is not None:
            return r
        # 1. rewrite the atomic conditions (with normalised polynomials inside)
        def go(x, memo):
            if x <= 1:
                return x
            if x in memo:
                return memo[x]
            c, lo, hi = bnode(x)
            nc = self.condval(c)
            memo[x] = bite(nc, go(hi, memo), go(lo, memo))
            return memo[x]
        g = go(f, {})
        r = self.partition(g) if self.final else g
        self.bmemo[f] = r
        return r

    def condval(self, c):
        t = c[0]
        if t in ("gt0", "eq0", "fgt0"):
            p = self.value(c[1])
            if any(sym.atom_of(i)[0] == "ite" for i in p.atom_ids()):
                # a condition on a selected value is a selection of conditions
                try:
                    ls = self.leaves(p)
                except TooBig:
                    ls = ()
                if len(ls) > 1:
                    r = 0
                    for g, v in ls:
                        r = bor(r, band(self.boolean(g), self.condval((t, v) + tuple(c[2:]))))
                    return r
            r = {"gt0": lambda: c_gt0(p), "fgt0": lambda: c_gt0(p, True), "eq0": lambda: c_eq0(p)}[t]()
        elif t == "isnull":
            r = c_isnull(self.value(c[1]))
        elif t == "peq":
            r = c_ptreq(self.value(c[1]), self.value(c[2]))
        else:
            r = bvar(tuple(self.anyval(y) for y in c))
        if r <= 1:
            return r

        def go(x):
            if x <= 1:
                return x
            k, lo, hi = bnode(x)
            return bite(self.cond(k), go(hi), go(lo))
        return go(r)

    def partition(self, f):
        """canonical representative of f modulo the order of the thresholds of each linear form"""
        memo = {}

        def support(x):
            return [c for c in bvars_of(x) if c[0] == "gt0"]

        def build(x):
            if x <= 1:
                return x
            if x in memo:
                return memo[x]
            cs = support(x)
            if not cs:
                memo[x] = x
                return x
            # first linear form in printing order
            q = min({self.split(c[1])[0] for c in cs}, key=lambda p: self.gname(p))
            ks = sorted(self.groups.get(q, ()), reverse=True)     # large constant = weakest condition first
            # intervals: q + k > 0 for k descending
            conds = [("gt0", q + P(k)) for k in ks]
            parts = []
            for j in range(len(conds) + 1):
                # the weakest j conditions hold, the others fail
                y = x
                for i, c in enumerate(conds):
                    y = brestrict(y, c, i < j)
                    if y <= 1:
                        break
                parts.append(build(y))
            # build from the strongest: ite(c0, ite(c1, ..., parts[1]), parts[0])
            r = parts[len(conds)]
            for j in range(len(conds) - 1, -1, -1):
                r = parts[j] if r == parts[j] else bite(bvar(conds[j]), r, parts[j])
            memo[x] = r
            return r
        return build(f)

    _gn = {}

    def gname(self, p):
        n = Theory._gn.get(p)
        if n is None:
            n = Theory._gn[p] = show(p)
        return n

    # ------------------------------------------------------------ values
    def value(self, x):
        if isinstance(x, (Poly, Ptr, PIte)):
            if isinstance(x, PIte):
                return self.pcase(x)
            return sym._subst(x, self.f, self.memo)
        return x

    def anyval(self, y):
        if isinstance(y, (Poly, Ptr, PIte)):
            return self.value(y)
        if isinstance(y, tuple):
            return tuple(self.anyval(z) for z in y)
        return y

    def f(self, a):
        if a[0] == "@cond":
            return None
        if a[0] == "ite":
            return self.case(Poly.atom(a))
        if a[0] == "sum":
            n = self.value(a[2])
            c = n.cval()
            if c is not None and 0 <= c <= UNROLL:
                t = ZERO
                for k in range(int(c)):
                    t = t + self.value(sym.subst(a[3], lambda b, k=k: P(k) if b == ("iv", a[1]) else None))
                return t
        if a[0] == "mu":
            c = self.value(a[3]).cval()
            if c is not None and 0 <= c <= UNROLL:
                L, system = a[1], a[2]
                cur = [s[0] for s in system]
                q = ("q",) + tuple(L)
                for k in range(int(c)):
                    def g(b, k=k, cur=cur):
                        if b[0] == "self" and b[1] == L:
                            return cur[b[2]] if isinstance(cur[b[2]], Poly) else None
                        if b == ("iv", q) or b == ("iv", L):
                            return P(k)
                        return None
                    cur = [sym.subst(s[1], g) for s in system]
                if isinstance(cur[0], Poly):
                    return self.value(cur[0])
        return None

    def leaves(self, p, g=1, out=None, depth=0):
        """p as a list of (guard, value without case distinctions on top)"""
        if out is None:
            out = []
        for i in sorted(p.atom_ids()):
            a = sym.atom_of(i)
            if a[0] == "ite":
                for gg, v in ((a[1], a[2]), (bnot(a[1]), a[3])):
                    h = band(g, gg)
                    if h == 0:
                        continue
                    q = self.top(p, i, v)
                    self.leaves(q, h, out, depth + 1)
                    if len(out) > MAXCASES:
                        raise TooBig()
                return out
        out.append((g, p))
        return out

    @staticmethod
    def top(p, i, v):
        r = ZERO
        for m, c in p.d.items():
            t = Poly({(): c})
            keep = []
            for a, e in m:
                if a == i:
                    b = v
                    if e < 0:
                        b = poly_inv(b) if b.d else A("opq", "inv0")
                    for _ in range(abs(e)):
                        t = t * b
                else:
                    keep.append((a, e))
            if keep:
                t = t * Poly({tuple(keep): 1})
            r = r + t
        return r

    def cases(self, p):
        """canonical list of (guard, value), values distinct, sorted"""
        d = {}
        for g, v in self.leaves(p):
            v = self.value(v)
            # normalising may expose further distinctions
            try:
                sub = self.leaves(v)
            except TooBig:
                sub = [(1, v)]
            for h, w in sub:
                d[w] = bor(d.get(w, 0), band(g, h))
        out = []
        for w, g in d.items():
            g = self.boolean(g)
            if g != 0:
                out.append((g, w))
        out.sort(key=lambda x: self.gname(x[1]))
        return out

    def pcase(self, x):
        """a pointer selection: distinct targets in canonical order"""
        d = {}

        def go(y, g):
            if isinstance(y, PIte):
                h = self.boolean(y.c)
                for gg, z in ((h, y.a), (bnot(h), y.b)):
                    gg = band(g, gg)
                    if gg != 0:
                        go(z, gg)
                return
            y = self.value(y)
            if isinstance(y, PIte):
                go(y, g)
            else:
                d[y] = bor(d.get(y, 0), g)
        go(x, 1)
        cs = sorted(((self.boolean(g), v) for v, g in d.items()), key=lambda t: self.gname(t[1]))
        cs = [(g, v) for g, v in cs if g != 0]
        r = cs[-1][1]
        for g, v in reversed(cs[:-1]):
            r = PIte(g, v, r)
        return r

    def case(self, p):
        try:
            cs = self.cases(p)
        except TooBig:
            (i,) = p.atom_ids()
            a = sym.atom_of(i)
            return ite(self.boolean(a[1]), self.value(a[2]), self.value(a[3]))
        if not cs:
            return ZERO
        r = cs[-1][1]
        for g, v in reversed(cs[:-1]):
            r = A("ite", g, v, r) if v != r else r
        return r


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def modw(p, bits, theory=None):
    """p modulo 2^bits, constants in the signed range, useless wrappers removed"""
    out = ZERO
    half, full = 1 << (bits - 1), 1 << bits
    for m, c in p.d.items():
        if isinstance(c, Fraction):
            return p
        if m == ():
            c = (int(c) + half) % full - half
            out = out + P(c)
            continue
        if len(m) == 1 and m[0][1] == 1:
            a = sym.atom_of(m[0][0])
            if a[0] in ("sx", "zx", "tr") and a[1] >= bits:
                out = out + P(c) * modw(a[2], bits)
                continue
            if a[0] == "ite":
                x, y = modw(a[2], bits), modw(a[3], bits)
                out = out + P(c) * ite(a[1], x, y)
                continue
        out = out + Poly({m: c})
    k = out.d.get((), 0)
    if isinstance(k, int) and not -half <= k < half:
        out = out - P(k) + P((k + half) % full - half)
    return out


def range_truth(c, nest):
    """truth of a gt0/eq0 condition from the ranges of the counters, or None"""
    if c[0] not in ("gt0", "eq0"):
        return None
    lo = bound(c[1], nest, False)
    hi = bound(c[1], nest, True)
    lo = lo.cval() if lo is not None else None
    hi = hi.cval() if hi is not None else None
    if c[0] == "gt0":
        if lo is not None and lo > 0:
            return True
        if hi is not None and hi <= 0:
            return False
    else:
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return False
    return None


def bound(p, nest, upper):
    for L, n in reversed(nest):
        r = p.coeff_of(("iv", L))
        if r is None:
            return None
        k = r[0].cval()
        if k is None:
            return None
        if k:
            p = r[1] + ((n - ONE) * P(k) if (k > 0) == upper else ZERO)
    return p
