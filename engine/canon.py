"""Normal form of a summary and comparison of two summaries (all-shape decision).

Every effect that a caller can see (stores, block copies, calls) becomes a record
  (kind, loop nest [(counter, trip count)], guard, address, value)
over canonical names: loops, calls, stores and buffers are numbered in program order, nests are
flattened (i*n+j with j<n becomes one counter), copies are widened to blocks, counters are sorted
by the address stride, facts established by assertions are substituted."""
from sym import *
import sym
from summ import walk, Eff
from ir import base_name
from theory import Theory, TooBig, modw, range_truth, UNROLL

QUIET_CALLS = {"printf", "fprintf", "puts", "putchar", "fputs", "perror", "fflush"}
RELEASE_CALLS = {"free", "delete_hyper_mat", "delete_simple_mat", "delete_S_2D", "fclose", "wt_info_free", "wt_coefset_free", "wavelet_base_free"}


STRINGS = {}     # string literal globals of the module -> text


def set_module(mod):
    STRINGS.clear()
    for n, g in mod.globals.items():
        if n.startswith(".str") or n.startswith("__const") or n.startswith("__func__"):
            if g.get("init") and g["init"][0] == "str":
                STRINGS[n] = g["init"][1]
    stored = set()

    def names(o):
        if isinstance(o, (list, tuple)):
            for x in o:
                names(x)
        elif isinstance(o, str) and o in mod.globals:
            stored.add(o)
    for f in mod.fns.values():
        for b in f["blocks"]:
            for i in b["is"]:
                if i["op"] == "store":
                    names(i["a"])
                elif i["op"] == "call":
                    names(i["a"])
    for n, g in mod.globals.items():
        if n not in STRINGS and g.get("internal") and g.get("init") and n not in stored:
            STRINGS[n] = repr(g["init"])


_live = {}


def live(g):
    """may the guard hold (allocations succeeding)?"""
    if g is None or g == 1:
        return True
    r = _live.get(g)
    if r is None:
        r = _live[g] = under_guard(Rec(kind="call", nest=[], guard=no_oom(g))).guard != 0
    return r


class Renamer:
    def __init__(self, effs):
        self.L, self.al, self.call, self.st = {}, {}, {}, {}
        self.by = {}              # base -> {store: ordinal among the stores to that base}
        cc = {}

        def go(es):
            for e in es:
                if e.kind == "loop":
                    self.L.setdefault(e.L, len(self.L))
                    go(e.kids)
                elif e.kind == "alloca":
                    self.al.setdefault(e.base, len(self.al))
                elif e.kind == "call":
                    if e.iid not in self.call:
                        n = e.name
                        cc[n] = cc.get(n, -1) + 1
                        self.call[e.iid] = "%s#%d" % (n, cc[n])
                elif e.kind in ("st", "cpy", "set"):
                    self.st.setdefault(e.iid, len(self.st))
                    if live(e.guard):
                        d = self.by.setdefault(e.base, {})
                        d.setdefault(e.iid, len(d))
        go(effs)
        self.memo = {}

    def names(self, a):
        """rename the name tuples inside a (does not enter polynomials)"""
        if not isinstance(a, tuple) or not a:
            return a
        t = a[0]
        if t in ("ld", "ldp", "fld", "at") and len(a) > 3 and isinstance(a[1], tuple) and isinstance(a[-1], tuple):
            return (t, self.names(a[1])) + a[2:-1] + (self.version(a[-1], self.by.get(a[1], {})),)
        if t == "glob" and a[1] in STRINGS:
            return ("glob", "=" + STRINGS[a[1]])
        if t == "L" and len(a) == 3:
            return ("L", self.L.get(a, a[2] if a not in self.L else 0)) if a in self.L else a
        if t == "q" and len(a) == 4 and a[1] == "L":
            k = ("L", a[2], a[3])
            return ("q", "L", self.L[k]) if k in self.L else a
        if t == "alloca" and len(a) == 3:
            return ("alloca", self.al[a]) if a in self.al else a
        if t == "ret" and len(a) >= 4 and isinstance(a[3], int) and isinstance(a[2], str):
            return ("ret", a[1], self.call.get(a[3], a[3])) + tuple(self.names(x) for x in a[4:])
        if t == "call" and len(a) >= 3 and isinstance(a[2], int):
            return ("call", self.call.get(a[2], a[2])) + tuple(self.names(x) for x in a[3:])
        if t in ("s", "k") and len(a) == 3 and isinstance(a[1], int):
            return (t, "#%s" % self.st.get(a[1], self.call.get(a[1], a[1])), self.names(a[2]))
        if t == "out" and len(a) >= 4 and isinstance(a[2], int) and isinstance(a[1], str):
            return ("out", self.call.get(a[2], a[2])) + tuple(self.names(x) for x in a[3:])
        return tuple(self.names(x) if isinstance(x, tuple) else x for x in a)

    def version(self, v, d):
        """the content version of one object: its stores numbered among the stores to that object"""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == "s" and len(v) == 3 and v[1] in d:
            return ("s", "#%s" % d[v[1]], self.names(v[2]))
        if v[0] == "mg":
            out = set()
            for x in v[1:]:
                x = self.version(x, d)
                if isinstance(x, tuple) and x and x[0] == "mg":
                    out |= set(x[1:])
                else:
                    out.add(x)
            return ("mg",) + tuple(sorted(out, key=repr))
        if v[0] in ("lv", "lx"):
            return tuple(self.version(x, d) if isinstance(x, tuple) and x and x[0] in ("s", "mg", "lv", "lx", "k", "cov") else self.names(x) if isinstance(x, tuple) else x for x in v)
        return self.names(v)

    def f(self, a):
        if a[0] == "base":
            b = self.names(a[1])
            if b == a[1]:
                return None
            r = subst_ptr(Ptr(b, ZERO), self.f, self.memo)
            return r
        if a[0] == "@cond":
            if a[1][0] in ("gt0", "fgt0", "eq0", "isnull", "peq"):
                return None
            b = self.names(a[1])
            if b == a[1]:
                return None
            return subst_bool(bvar(b), self.f, self.memo)
        b = self.names(a)
        if b == a:
            return None
        return sym._subst(Poly.atom(b), self.f, self.memo)

    def __call__(self, x):
        if isinstance(x, tuple) and x and x[0] == "BASE":
            r = subst_ptr(Ptr(x[1], ZERO), self.f, self.memo)
            return r if r.off.d else r.base
        if isinstance(x, bool) or x is None:
            return x
        if isinstance(x, int):
            return subst_bool(x, self.f, self.memo)
        if isinstance(x, (Poly, Ptr, PIte)):
            return sym._subst(x, self.f, self.memo)
        if isinstance(x, tuple):
            x = self.names(x)
            return tuple(self(y) if isinstance(y, (Poly, Ptr, PIte, tuple)) else y for y in x)
        return x


class Rec:
    __slots__ = ("kind", "nest", "guard", "base", "off", "size", "val", "name", "args", "loc", "ty", "aux", "src")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def copy(self, **k):
        r = Rec(**{s: getattr(self, s) for s in self.__slots__})
        for a, b in k.items():
            setattr(r, a, b)
        return r

    def parts(self):
        return [x for x in (self.off, self.size, self.val, self.guard) if x is not None] + list(self.args or ())

    def map(self, F):
        r = self.copy()
        r.nest = [(L, F(c)) for L, c in self.nest]
        r.guard = F(self.guard)
        if self.base is not None:
            b = F(("BASE", self.base))
            if isinstance(b, Ptr):
                r.base = b.base
                r.off = F(self.off) + b.off
            else:
                r.base = b
                r.off = F(self.off)
        for s in ("size", "val"):
            v = getattr(self, s)
            if v is not None and not (s == "size" and isinstance(v, int)):
                setattr(r, s, F(v))
        if self.args is not None:
            r.args = tuple(F(a) for a in self.args)
        if self.aux is not None:
            r.aux = F(self.aux) if isinstance(self.aux, (Poly, Ptr, PIte, tuple)) else self.aux
        return r

    def key(self):
        return (self.kind, tuple(c for _, c in self.nest), self.guard, self.base, self.off, self.size, self.val, self.name, self.args, self.aux)

    def __repr__(self):
        n = "".join("[%s<%s]" % (show_atom(("iv", L)), show(c)) for L, c in self.nest)
        g = "" if self.guard == 1 else " if " + show_bool(self.guard)
        if self.kind == "st":
            return "%s %s[%s]:%s = %s%s" % (n, show_base(self.base), show(self.off), self.size, show(self.val), g)
        if self.kind == "cpy":
            return "%s %s[%s..+%s] <- %r%s" % (n, show_base(self.base), show(self.off), show(self.size), self.val, g)
        if self.kind == "set":
            return "%s %s[%s..+%s] := %s%s" % (n, show_base(self.base), show(self.off), show(self.size), show(self.val), g)
        return "%s %s(%s)%s" % (n, self.name, ", ".join(show(a) for a in self.args or ()), g)


def mkF(f, memo=None):
    memo = {} if memo is None else memo

    def F(x):
        if isinstance(x, tuple) and x and x[0] == "BASE":
            r = subst_ptr(Ptr(x[1], ZERO), f, memo)
            return r if r.off.d else r.base
        if x is None or isinstance(x, bool):
            return x
        if isinstance(x, int):
            return subst_bool(x, f, memo)
        if isinstance(x, (Poly, Ptr, PIte)):
            return sym._subst(x, f, memo)
        if isinstance(x, tuple):
            return tuple(F(y) if isinstance(y, (Poly, Ptr, PIte, tuple)) else y for y in x)
        return x
    return F


def to_file(e):
    """an output call on a stream that was opened"""
    i = {"fprintf": 0, "fputs": 1}.get(e.name)
    if i is None or i >= len(e.args):
        return False
    x = e.args[i]
    x = x.base if isinstance(x, Ptr) else x
    return not any(isinstance(t, str) and t.lstrip("@").startswith(("stderr", "stdout", "__stderr", "__stdout")) for t in flat_names(x))


def flat_names(x):
    if isinstance(x, tuple):
        for y in x:
            yield from flat_names(y)
    elif isinstance(x, Ptr):
        yield from flat_names(x.base)
    elif isinstance(x, str):
        yield x


class Canon:
    """canonical records of one summary"""

    def __init__(self, summ, drop=None):
        # releases are bookkeeping (decided by the ownership analysis) except where they are the function's purpose
        if drop is None:
            n = (getattr(summ, "fn", None) or {}).get("name", "")
            drop = QUIET_CALLS if n.replace("spec_", "") in RELEASE_CALLS or n.replace("spec_", "").startswith("vector_") else QUIET_CALLS | RELEASE_CALLS
        self.summ = summ
        self.ren = Renamer(summ.effs)
        self.recs = []
        self.facts = 1
        self.inexact = []
        self.nest = []
        self.drop = drop
        self.flatten(summ.effs, [], 1)
        self.facts = no_oom(self.facts)
        self.ret = self.ren(summ.ret) if summ.ret is not None else None

    def flatten(self, effs, nest, guard):
        for e in effs:
            g = band(guard, self.ren(e.guard if e.guard is not None else 1))
            if e.kind == "fact":
                if not nest:
                    self.facts = band(self.facts, bor(bnot(g), self.ren(e.val)))
                continue
            if e.kind == "loop":
                L = self.ren.names(e.L)
                c = self.ren(e.count)
                if not e.exact:
                    ex = tuple(self.ren(x) for x in (e.exits or ()))
                    self.recs.append(Rec(kind="while", nest=list(nest), guard=g, name="while", args=(), aux=("exits", len(ex)) , loc=e.loc, val=ex_poly(ex)))
                self.flatten(e.kids, nest + [(L, c)], g)
                continue
            if e.kind in ("st", "cpy", "set"):
                b = self.ren(("BASE", e.base))
                off = self.ren(e.off)
                if isinstance(b, Ptr):
                    off = off + b.off
                    b = b.base
                size = e.size if e.kind == "st" else self.ren(e.size)
                val = self.ren(e.val)
                kind = e.kind
                r = Rec(kind=kind, nest=list(nest), guard=g, base=b, off=off, size=P(size), val=val, loc=e.loc, ty=e.ty if kind == "st" else None,
                        aux=self.ren(e.aux) if e.kind == "cpy" and e.aux is not None else None)
                self.recs.append(r)
            elif e.kind == "call":
                if e.name in self.drop and not to_file(e):
                    continue
                self.recs.append(Rec(kind="call", nest=list(nest), guard=g, name=e.name, args=tuple(self.ren(a) for a in e.args), loc=e.loc))

    def finish(self, facts):
        """normalise under the assertion facts"""
        sub = fact_subst(facts)
        self.sub = sub
        out = []
        for r in self.recs:
            out += norm_rec(r, sub)
        self.norm = merge_guards(out)
        self.nret = apply_facts(self.ret, sub) if self.ret is not None else None
        return self


    def refine(self, th):
        out = []
        for r in self.norm:
            out += refine_rec(r, th)
        out = merge_guards(out, False)
        self.fine = []
        for r in out:
            r = r.copy(guard=th.boolean(r.guard))
            if r.guard != 0:
                self.fine.append(r)
        self.fret = th.value(self.nret) if self.nret is not None else None


def ranged(r):
    def f(a):
        if a[0] == "@cond":
            v = range_truth(a[1], r.nest)
            return None if v is None else (1 if v else 0)
        return None
    return r.map(mkF(f)) if r.nest else r


def under_guard(r):
    """the record with selections decided by its own guard's conjuncts"""
    seen = None
    for _ in range(4):
        if r.guard <= 1:
            return r
        lits = dict(literals(r.guard))
        if not lits or lits == seen:
            return r
        seen = lits

        def f(a):
            if a[0] == "@cond":
                v = lits.get(a[1])
                return None if v is None else (1 if v else 0)
            return None
        g = r.guard
        q = r.map(mkF(f))
        for c, v in lits.items():
            # the literal itself, with its own nested selections decided by the other literals
            x = bvar(c)
            y = assume(x, [(d, w) for d, w in lits.items() if d != c])
            q.guard = band(q.guard, y if v else bnot(y))
        r = q
    return r


def refine_rec(r, th, depth=0):
    """one normalised record -> refined records"""
    r = under_guard(ranged(r))
    if r.guard == 0:
        return []
    if r.kind in ("st", "set", "cpy"):
        # iterations that repeat the same store
        for k, (L, c) in enumerate(r.nest):
            n = c.cval()
            if n is not None and n >= 1 and not uses(r, L):
                return refine_rec(canon_nest(r.copy(nest=r.nest[:k] + r.nest[k + 1:])), th, depth)
        # short constant loops
        for k, (L, c) in enumerate(r.nest):
            n = c.cval()
            if n is not None and 1 <= n <= UNROLL and depth < 4:
                out = []
                for j in range(int(n)):
                    q = r.copy(nest=r.nest[:k] + r.nest[k + 1:]).map(mkF(lambda a, j=j, L=L: P(j) if a == ("iv", L) else None))
                    out += refine_rec(canon_nest(q), th, depth + 1)
                return out
        n = r.size.cval()
        if r.kind in ("set", "cpy") and n is not None and 1 < n <= 16 and (r.kind == "cpy" or r.val == ZERO):
            out = []
            for j in range(int(n)):
                q = r.copy(size=ONE, off=r.off + j)
                if r.kind == "cpy":
                    q.val = Ptr(r.val.base, r.val.off + j) if isinstance(r.val, Ptr) else r.val
                    if not isinstance(r.val, Ptr):
                        return [value_rec(r, th)]
                out.append(value_rec(q, th))
            return out
        if r.kind == "st" and isinstance(r.val, Poly):
            if r.ty not in ("float", "double"):
                r = r.copy(val=modw(r.val, 8 * int(r.size.cval())))
            try:
                cs = th.cases(r.val)
            except TooBig:
                cs = None
            if cs is not None and not (len(cs) == 1 and cs[0][0] == 1 and cs[0][1] == r.val):
                out = []
                for g, v in cs:
                    g = band(g, r.guard)
                    if g == 0:
                        continue
                    if r.ty not in ("float", "double"):
                        v = modw(v, 8 * int(r.size.cval()))
                    q = plain(r.copy(guard=g, val=v))
                    if q.kind != "st" and depth < 4:
                        out += refine_rec(canon_nest(q), th, depth + 1)
                    else:
                        out.append(value_rec(q, th))
                return out
    return [value_rec(r, th)]


def value_rec(r, th):
    def F(x):
        if isinstance(x, tuple) and x and x[0] == "BASE":
            p = th.value(Ptr(x[1], ZERO))
            return p if p.off.d else p.base
        if x is None or isinstance(x, bool):
            return x
        if isinstance(x, int):
            return th.boolean(x)
        if isinstance(x, (Poly, Ptr, PIte)):
            return th.value(x)
        if isinstance(x, tuple):
            return tuple(F(y) if isinstance(y, (Poly, Ptr, PIte, tuple)) else y for y in x)
        return x
    return r.map(F)


def uses(r, L):
    iv = {("iv", L)}
    if r.guard > 1 and depends(r.guard, iv):
        return True
    if any(depends(c, iv) for _, c in r.nest):
        return True
    if any(isinstance(x, (Poly, Ptr, PIte)) and depends(x, iv) for x in r.parts()):
        return True
    if r.aux is not None and depends_any(r.aux, L):
        return True
    return r.base is not None and depends(Ptr(r.base, ZERO), iv)


def plain(r):
    """a store of a loaded value is a copy, of zero a fill"""
    if r.kind == "st" and isinstance(r.val, Poly):
        a = r.val.is_atom()
        w = r.size.cval()
        while a is not None and a[0] in ("sx", "zx", "tr") and a[1] == 8 * w:
            r.val = a[2]
            a = r.val.is_atom()
        if a is not None and a[0] == "ld" and tsize(a[3]) == w:
            return r.copy(kind="cpy", val=Ptr(a[1], a[2]), aux=a[4] if a[4] != 0 else None, ty=None)
        if r.val == ZERO:
            return r.copy(kind="set", ty=None)
    return r


def ex_poly(ex):
    t = ZERO
    for k, g in enumerate(ex):
        t = t + ite(g, P(k + 1), ZERO) * A("exit#", k)
    return t


def fact_subst(facts):
    """(literals, equalities) from the conjunction of assertions"""
    lits = dict(literals(facts))
    eqs = {}
    for c, v in list(lits.items()):
        if c[0] == "eq0" and v:
            p = c[1]
            # eliminate one field atom with coefficient +-1, preferring later arguments
            cand = []
            for i in p.atom_ids():
                a = atom_of(i)
                if a[0] in ("fld", "arg") and ((i, 1),) in p.d and abs(p.d[((i, 1),)]) == 1:
                    r = p.coeff_of(a)
                    if r and r[0].is_const():
                        cand.append(a)
            if cand:
                a = max(cand, key=repr)
                k, rest = p.coeff_of(a)
                eqs[a] = -rest if k.cval() == 1 else rest
    # close
    for _ in range(4):
        F = mkF(lambda x: eqs.get(x))
        eqs = {a: F(v) for a, v in eqs.items()}
    return lits, eqs


FRESH = ("malloc", "calloc", "realloc", "_Znwm", "_Znam")


def oom(c):
    """allocation failure (assumed away)"""
    if c[0] == "isnull" and isinstance(c[1], Ptr):
        b = c[1].base
        return b[0] == "ret" and b[1] in FRESH
    return False


def no_oom(x):
    """x assuming that allocations succeed"""
    return mkF(lambda a: 0 if a[0] == "@cond" and oom(a[1]) else None)(x)


def apply_facts(x, sub):
    lits, eqs = sub

    def f(a):
        if a[0] == "@cond":
            if oom(a[1]):
                return 0
            v = lits.get(a[1])
            return None if v is None else (1 if v else 0)
        return eqs.get(a)
    F = mkF(f)
    return F(x)


def norm_rec(r, sub):
    lits, eqs = sub

    def f(a):
        if a[0] == "@cond":
            if oom(a[1]):
                return 0
            v = lits.get(a[1])
            return None if v is None else (1 if v else 0)
        return eqs.get(a)
    F = mkF(f)
    r = r.map(F)
    r = r.map(F)
    if r.guard == 0:
        return []
    if r.kind == "call":
        return [canon_nest(r)]
    # typed plain copies become block copies
    if r.kind == "st" and isinstance(r.val, Poly):
        a = r.val.is_atom()
        w = r.size.cval()
        while a is not None and a[0] in ("sx", "zx", "tr") and a[1] == 8 * w:
            r.val = a[2]
            a = r.val.is_atom()
        if a is not None and a[0] == "ld" and tsize(a[3]) == w:
            r = r.copy(kind="cpy", val=Ptr(a[1], a[2]), aux=a[4] if a[4] != 0 else None)
        elif r.val == ZERO:
            r = r.copy(kind="set")
    if r.kind in ("cpy", "set"):
        r.ty = None
    r = canon_nest(r)
    return [r]


def tsize(t):
    return {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "ptr": 8}.get(t)


def canon_nest(r):
    """drop trivial loops, flip, fuse, widen blocks, order and rename counters"""
    changed = True
    guardn = 0
    while changed and guardn < 40:
        changed = False
        guardn += 1
        # guard literals implied by the trip counts (n > 0)
        for L, c in r.nest:
            for cond, v in literals(r.guard):
                if cond[0] == "gt0" and v and cond[1] == c:
                    r = r.map(mkF(lambda a, cond=cond: 1 if a[0] == "@cond" and a[1] == cond else None))
                    changed = True
        # single iteration
        for k, (L, c) in enumerate(r.nest):
            if c == ONE:
                rest = r.nest[:k] + r.nest[k + 1:]
                r = r.copy(nest=rest).map(mkF(lambda a, L=L: ZERO if a == ("iv", L) else None))
                changed = True
                break
        if changed:
            continue
        # split by division: c = m*d with i/d and i%d
        for k, (L, c) in enumerate(r.nest):
            d = div_of(r, L, c)
            if d is not None:
                q = poly_divides(c, d)
                if q is not None:
                    Lh, Ll = ("h", L), ("l", L)
                    iv = A("iv", L)
                    hi, lo = A("iv", Lh), A("iv", Ll)

                    def f(a, iv=iv, d=d, hi=hi, lo=lo, L=L):
                        if a[0] == "div" and a[1] == iv and a[2] == d:
                            return hi
                        if a[0] == "rem" and a[1] == iv and a[2] == d:
                            return lo
                        if a == ("iv", L):
                            return hi * d + lo
                        return None
                    r = r.map(mkF(f))
                    r.nest = r.nest[:k] + [(Lh, q), (Ll, d)] + r.nest[k + 1:]
                    changed = True
                    break
        if changed:
            continue
        # flip negative address strides
        if r.base is not None:
            for k, (L, c) in enumerate(r.nest):
                co = r.off.coeff_of(("iv", L))
                if co and co[0].d and neg_stride(co[0]) and not any(depends(cc, {("iv", L)}) for _, cc in r.nest):
                    r = r.map(mkF(lambda a, L=L, c=c: c - 1 - A("iv", L) if a == ("iv", L) else None))
                    changed = True
                    break
        if changed:
            continue
        # widen blocks: innermost counter steps by the block length in destination and source
        if r.kind in ("cpy", "set"):
            for k in range(len(r.nest) - 1, -1, -1):
                L, c = r.nest[k]
                if depends(r.guard, {("iv", L)}) or any(depends(cc, {("iv", L)}) for _, cc in r.nest):
                    continue
                co = r.off.coeff_of(("iv", L))
                if not co or co[0] != r.size or depends(r.size, {("iv", L)}):
                    continue
                if r.aux is not None and depends_any(r.aux, L):
                    continue
                if r.kind == "cpy":
                    if not isinstance(r.val, Ptr) or depends(Ptr(r.val.base, ZERO), {("iv", L)}):
                        continue
                    cs = r.val.off.coeff_of(("iv", L))
                    if not cs or cs[0] != r.size:
                        continue
                    r = r.copy(val=Ptr(r.val.base, cs[1]))
                elif depends(r.val, {("iv", L)}):
                    continue
                r = r.copy(off=co[1], size=r.size * c, nest=r.nest[:k] + r.nest[k + 1:])
                changed = True
                break
        if changed:
            continue
        # fuse i<m, j<n used only as i*n+j
        n = len(r.nest)
        for a in range(n):
            for b in range(n):
                if a == b:
                    continue
                (La, ca), (Lb, cb) = r.nest[a], r.nest[b]
                if depends(cb, {("iv", La)}) or depends(ca, {("iv", Lb)}) or any(depends(cc, {("iv", La), ("iv", Lb)}) for k, (_, cc) in enumerate(r.nest) if k not in (a, b)):
                    continue
                Lf = ("f", La, Lb)
                t = A("iv", Lf)
                r2 = r.copy(nest=[]).map(mkF(lambda x, Lb=Lb, La=La, cb=cb, t=t: t - A("iv", La) * cb if x == ("iv", Lb) else None))
                if any(depends(x, {("iv", La)}) for x in r2.parts()) or (r2.aux is not None and depends_any(r2.aux, La)) or (r2.base is not None and depends(Ptr(r2.base, ZERO), {("iv", La)})):
                    continue
                if not any(depends(x, {("iv", Lf)}) for x in r2.parts()):
                    continue
                rest = [(x, y) for k, (x, y) in enumerate(r.nest) if k not in (a, b)]
                pos = min(a, b)
                r2.nest = rest[:pos] + [(Lf, ca * cb)] + rest[pos:]
                r = r2
                changed = True
                break
            if changed:
                break
    # order counters
    if r.base is not None and not any(depends(c, {("iv", L2) for L2, _ in r.nest}) for _, c in r.nest):
        def keyf(x):
            L, c = x
            co = r.off.coeff_of(("iv", L))
            s = co[0] if co else P(-1)
            return (-max([sum(e for _, e in m) for m in s.d] or [0]), -float(abs(sum(s.d.values()) or 0)), show(s), show(c))
        r.nest = sorted(r.nest, key=keyf)
    mp = {}
    nn = []
    for k, (L, c) in enumerate(r.nest):
        mp[("iv", L)] = A("iv", ("N", k))
    r = r.map(mkF(lambda a: mp.get(a)))
    r.nest = [(("N", k), c) for k, (L, c) in enumerate(r.nest)]
    return r


def depends_any(x, L):
    if isinstance(x, (Poly, Ptr, PIte)):
        return depends(x, {("iv", L)})
    if isinstance(x, tuple):
        return any(depends_any(y, L) for y in x)
    return False


def neg_stride(p):
    c = p.cval()
    if c is not None:
        return c < 0
    return all(v < 0 for v in p.d.values())


def div_of(r, L, c):
    iv = A("iv", L)
    found = []

    def f(a):
        if a[0] in ("div", "rem") and a[1] == iv:
            found.append(a[2])
        return None
    for x in r.parts():
        subst(x, f)
    return found[0] if found else None


def merge_guards(recs, select=True):
    """stores to the same address under exclusive guards become one store of a selected value"""
    out = []
    for r in recs:
        done = False
        if r.kind in ("st", "set", "cpy") :
            for k in range(len(out) - 1, -1, -1):
                o = out[k]
                if select and o.base is not None and o.base == r.base and o.off == r.off and o.nest == r.nest and o.size == r.size and band(o.guard, r.guard) == 0 and \
                        o.kind != "cpy" and r.kind != "cpy" and isinstance(o.val, Poly) and isinstance(r.val, Poly) and r.size.cval() is not None:
                    g = bor(o.guard, r.guard)
                    ga, gb = o.guard, r.guard
                    for c, v in literals(g):
                        ga, gb = brestrict(ga, c, v), brestrict(gb, c, v)
                    v = ite(gb, r.val, o.val)
                    nr = o.copy(kind="st", guard=g, val=v)
                    out[k] = nr
                    done = True
                    break
                if o.kind == r.kind and o.base == r.base and o.key()[1:2] == r.key()[1:2] and o.off == r.off and o.size == r.size and o.val == r.val and o.aux == r.aux and band(o.guard, r.guard) == 0:
                    out[k] = o.copy(guard=bor(o.guard, r.guard))
                    done = True
                    break
        if not done:
            out.append(r)
    return out


LIBC = {"fwrite", "fread", "fopen", "fclose", "fseek", "fputs", "fprintf", "memcpy", "memset", "malloc", "calloc", "realloc", "free", "strlen", "sscanf", "fgets"}


def bases_in(x):
    out = set()

    def f(a):
        if a[0] == "base":
            out.add(a[1])
        elif a[0] in ("ld", "fld"):
            out.add(a[1])
        return None
    if isinstance(x, (Poly, Ptr, PIte)):
        if isinstance(x, Ptr):
            out.add(x.base)
        subst(x, f)
    return out


def conflict(a, b):
    """may exchanging the two records be observed?"""
    if band(a.guard, b.guard) == 0:
        return False
    if a.kind != "call" and b.kind != "call":
        if a.base != b.base:
            return False
        d = (b.off - a.off).cval()
        sa, sb = a.size.cval(), b.size.cval()
        if d is not None and sa is not None and sb is not None and not a.nest and not b.nest:
            return -sb < d < sa
        return True
    if a.kind == "call" and b.kind == "call":
        return True
    c, s = (a, b) if a.kind == "call" else (b, a)
    if c.name in FRESH or c.name in ("create_hyper_mat", "create_simple_mat"):
        return False
    if c.name in LIBC or s.base[0] == "alloca":
        return any(s.base in bases_in(x) for x in c.args)
    return True


class Cmp:
    def __init__(self):
        self.equal = False
        self.diffs = []


def compare(code, spec):
    """code, spec: Summary.  Returns Cmp with .equal (all shapes), .diffs [(what, code rec|None, spec rec|None)]"""
    a, b = Canon(code), Canon(spec)
    res = Cmp()
    facts = band(a.facts, b.facts)
    res.facts = (a.facts, b.facts)
    if facts == 0:
        res.diffs.append(("contradictory preconditions", None, None))
        res.admits = res.guards = False
        res.nrec = 0
        return res
    a.finish(facts)
    b.finish(facts)
    res.code, res.spec = a, b
    th = Theory(getattr(code, "argty", None) or {})
    for final in (False, True):
        th.final = final
        th.memo, th.bmemo = {}, {}
        a.refine(th)
        b.refine(th)
    rest = list(b.fine)
    miss = []
    for r in a.fine:
        for s in rest:
            if r.key() == s.key():
                rest.remove(s)
                break
        else:
            miss.append(r)
    if miss and rest:
        # the same effect under guards that agree wherever the preconditions hold
        known = th.boolean(facts)
        for r in list(miss):
            k = r.key()
            for s in rest:
                q = s.key()
                if k[:2] + k[3:] == q[:2] + q[3:] and implied(band(known, r.guard), s.guard) and implied(band(known, s.guard), r.guard):
                    a.fine[next(i for i, x in enumerate(a.fine) if x is r)] = r.copy(guard=s.guard)
                    miss.remove(r)
                    rest.remove(s)
                    break
    for r in miss:
        res.diffs.append(("extra", r, None))
    for s in rest:
        res.diffs.append(("missing", None, s))
    # relative order of records on the same object
    if not miss and not rest:
        ka = [r.key() for r in a.fine]
        kb = [r.key() for r in b.fine]
        if ka != kb:
            pos = {}
            for i, k in enumerate(kb):
                pos.setdefault(k, i)
            pa = [pos[k] for k in ka]
            for i in range(len(ka)):
                for j in range(i + 1, len(ka)):
                    if pa[i] > pa[j] and conflict(a.fine[i], a.fine[j]):
                        res.diffs.append(("order", a.fine[i], a.fine[j]))
    if a.fret != b.fret:
        res.diffs.append(("return", show(a.fret) if a.fret is not None else None, show(b.fret) if b.fret is not None else None))
    res.nrec = len(a.fine)
    bad = opaque(a)
    if bad and not res.diffs:
        res.diffs.append(("not resolved by the extraction", bad, None))
    res.equal = not res.diffs
    # the library accepts everything the reference accepts / nothing else
    res.admits = implied(b.facts, a.facts)
    res.guards = implied(a.facts, b.facts)
    return res


OPAQUE = ("rec", "opq", "opqp", "pphi", "exit")


def opaque(c):
    """a term of the normal form the extraction could not resolve (equality of such terms proves nothing)"""
    seen = set()

    def term(x):
        if isinstance(x, sym.Poly):
            for i in x.atom_ids():
                if i not in seen:
                    seen.add(i)
                    b = term(sym.atom_of(i))
                    if b:
                        return b
        elif isinstance(x, sym.Ptr):
            return term(x.base) or term(x.off)
        elif isinstance(x, sym.PIte):
            return term(x.a) or term(x.b) or cond(x.c)
        elif isinstance(x, tuple):
            if x and isinstance(x[0], str):
                if x[0] in OPAQUE:
                    return x
                if x[0] == "ite":
                    return cond(x[1]) or term(x[2]) or term(x[3])
            for y in x:
                b = term(y)
                if b:
                    return b
        return None

    def cond(f):
        if not isinstance(f, int) or isinstance(f, bool) or f <= 1 or ("c", f) in seen:
            return None
        seen.add(("c", f))
        for v in sym.bvars_of(f):
            b = term(v)
            if b:
                return b
        return None

    def either(x):
        return None if x is None else cond(x) if isinstance(x, int) else term(x)
    for r in c.fine:
        b = cond(r.guard)
        for _, k in r.nest:
            b = b or term(k)
        for x in (r.base, r.off, r.size, r.val, r.args, r.aux):
            b = b or either(x)
        if b:
            return b
    return either(c.fret)


# ---------------------------------------------------------------- implication between preconditions
def cubes(f, limit=200):
    """satisfying paths of a condition as lists of literals"""
    out = []

    def go(x, acc):
        if len(out) > limit:
            return
        if x == 0:
            return
        if x == 1:
            out.append(list(acc))
            return
        c, lo, hi = bnode(x)
        acc.append((c, True))
        go(hi, acc)
        acc.pop()
        acc.append((c, False))
        go(lo, acc)
        acc.pop()
    go(f, [])
    return out


def contradictory(lits):
    """a conjunction with no solution (decided by eliminating equalities)"""
    subs = []

    def cur(x):
        for a, v in subs:
            x = subst(x, lambda b, a=a, v=v: v if b == a else None)
        return x
    for c, v in lits:
        if c[0] != "eq0" or not v:
            continue
        p = cur(c[1])
        k = p.cval()
        if k is not None:
            if k != 0:
                return True
            continue
        for i in p.atom_ids():
            a = atom_of(i)
            if ((i, 1),) in p.d and abs(p.d[((i, 1),)]) == 1:
                r = p.coeff_of(a)
                if r and r[0].is_const():
                    subs.append((a, -r[1] if r[0].cval() == 1 else r[1]))
                    break
    for c, v in lits:
        if c[0] in ("eq0", "gt0", "fgt0"):
            p = cur(c[1])
            k = p.cval()
            if k is None:
                continue
            t = (k == 0) if c[0] == "eq0" else k > 0
            if t != v:
                return True
    # bounds on the same linear form
    lo = {}
    for c, v in lits:
        if c[0] == "gt0":
            p = cur(c[1])
            p = p if v else ONE - p          # p > 0  or  1 - p > 0
            k = p.d.get((), 0)
            q = p - P(k)
            lo[q] = max(lo.get(q, 1 - k), 1 - k)      # q >= 1 - k
    for q, b in lo.items():
        n = -q
        if n in lo and -lo[n] < b:
            return True
    return False


def implied(a, b):
    """a implies b (sound; False: not shown)"""
    x = band(a, bnot(b))
    if x == 0:
        return True
    cs = cubes(x)
    if len(cs) > 200:
        return False
    return all(contradictory(c) for c in cs)
