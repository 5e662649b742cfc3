"""Instantiation of extracted relations at concrete shapes and contents.

Used only to confirm a difference that the normal-form comparison found: both closed forms (the
library's and the reference's) are instantiated at the same valuation and their visible effects
compared.  Nothing of /repo is compiled to machine code or executed."""
import math, random, struct
from fractions import Fraction
from sym import *
import sym
from ir import base_name

SLOT = 24
BASEOFF = 0x1000


class Reject(Exception):
    """an assertion of the function fails"""


class Hang(Exception):
    """a loop whose state repeats without any effect: it never ends"""


class Fault(Exception):
    """an access outside its object, a NULL dereference, a double release"""


class Unknown(Exception):
    """a construct without a model"""


FMT = {"i8": ("b", 1), "i16": ("h", 2), "i32": ("i", 4), "i64": ("q", 8), "float": ("f", 4), "double": ("d", 8), "ptr": ("Q", 8), "i1": ("b", 1)}


class Obj:
    __slots__ = ("addr", "size", "data", "init", "kind", "freed", "name")

    def __init__(self, addr, size, kind, name):
        self.addr, self.size, self.kind, self.name = addr, size, kind, name
        self.data = bytearray(size)
        self.init = bytearray(size)
        self.freed = False


class Mem:
    def __init__(self, garbage=0xA5):
        self.objs = []
        self.garbage = garbage
        self.jitter = None
        self.stdout, self.drawn, self.draws = False, 0, 0
        self.strict = False     # the reference's conversions must fit: others say nothing
        self.globs = {}
        self.log = []       # file operations
        self.files = {}
        self.given = {}     # path -> content

    def new(self, size, kind, name="", zero=False):
        if size < 0 or size > 1 << 22:
            raise Unknown("allocation of %d bytes" % size)
        o = Obj((len(self.objs) + 1 << SLOT) + BASEOFF, int(size), kind, name)
        if zero:
            for i in range(o.size):
                o.init[i] = 1
        else:
            for i in range(o.size):
                o.data[i] = (self.garbage + 37 * i) & 0xFF
        self.objs.append(o)
        return o

    def find(self, addr, n, what):
        addr = int(addr)
        k = (addr >> SLOT) - 1
        if addr < 4096 or k < 0 or k >= len(self.objs):
            raise Fault("%s through an invalid pointer" % what)
        o = self.objs[k]
        off = addr - o.addr
        if o.freed:
            raise Fault("%s of released memory (%s)" % (what, o.name))
        if n and (off < 0 or off + n > o.size):
            raise Fault("%s outside %s (offset %d, length %d, size %d)" % (what, o.name or o.kind, off, n, o.size))
        return o, off

    def read(self, addr, ty, snap=None):
        f, n = FMT[ty]
        o, off = self.find(addr, n, "read")
        d = o.data
        if snap is not None:
            k = (int(addr) >> SLOT) - 1
            if k < len(snap):
                d = snap[k]
        v = struct.unpack_from("<" + f, d, off)[0]
        if ty in ("float", "double") and math.isfinite(v):
            return Fraction(v)
        return v

    def write(self, addr, size, ty, v):
        o, off = self.find(addr, size, "write")
        if ty in ("float", "double"):
            try:
                b = struct.pack("<f" if ty == "float" else "<d", float(v))
                if self.jitter and not (isinstance(v, float) and not math.isfinite(v)):
                    # an inexact value may as well have been rounded the other way
                    f = "<f" if ty == "float" else "<d"
                    if isinstance(v, float) or Fraction(struct.unpack(f, b)[0]) != v:
                        e = 2.0 ** (-22 if ty == "float" else -50)
                        b = struct.pack(f, float(v) * (1 + (e if self.jitter.random() < 0.5 else -e)))
            except OverflowError:
                b = struct.pack("<f" if ty == "float" else "<d", math.inf if v > 0 else -math.inf)
        else:
            if isinstance(v, float):
                if not math.isfinite(v):
                    v = 0
                v = int(v)
            if isinstance(v, Fraction):
                v = math.trunc(v)
            b = (int(v) & ((1 << 8 * size) - 1)).to_bytes(size, "little")
        o.data[off:off + size] = b
        for i in range(off, off + size):
            o.init[i] = 1

    def copy(self, d, s, n):
        if n < 0:
            raise Fault("copy of a negative length")
        if n == 0:
            return
        so, sf = self.find(s, n, "read")
        do, df = self.find(d, n, "write")
        do.data[df:df + n] = bytes(so.data[sf:sf + n])
        do.init[df:df + n] = bytes(so.init[sf:sf + n])

    def fill(self, d, v, n):
        if n < 0:
            raise Fault("fill of a negative length")
        if n == 0:
            return
        do, df = self.find(d, n, "write")
        do.data[df:df + n] = bytes([int(v) & 255]) * n
        do.init[df:df + n] = b"\1" * n

    def cstr(self, addr):
        o, off = self.find(addr, 0, "read")
        out = bytearray()
        while off < o.size and o.data[off] != 0:
            out.append(o.data[off])
            off += 1
        if off >= o.size:
            raise Fault("read of a text outside %s: it has no end" % (o.name or o.kind))
        return bytes(out)

    def snapshot(self):
        return [bytes(o.data) for o in self.objs]


def num(v):
    """normalise"""
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


def fl(v):
    return float(v)


def cmpstr_sem(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


_free = {}


def free_of(i):
    """the counters, registers and call results a reduction depends on (None: the set is too large to key on)"""
    r = _free.get(i, 0)
    if r != 0:
        return r
    ivs, regs, rets, seen = set(), set(), set(), set()

    def go(x):
        if isinstance(x, Poly):
            for m in x.d:
                for k, e in m:
                    at(k)
        elif isinstance(x, tuple):
            if x and x[0] == "pphi":
                regs.add(x)
            for y in x:
                go(y)
        elif isinstance(x, (Ptr,)):
            go(x.base)
            go(x.off)
        elif isinstance(x, PIte):
            co(x.c)
            go(x.a)
            go(x.b)

    def co(f):
        if isinstance(f, int) and not isinstance(f, bool):
            for c in bvars_of(f):
                go(c)

    def at(k):
        if k in seen:
            return
        seen.add(k)
        a = sym.atom_of(k)
        if a[0] == "iv":
            ivs.add(a[1])
        elif a[0] == "ret":
            rets.add(a[2])
            go(a)
        else:
            if a[0] not in ("arg", "fld", "ld", "sum", "fn", "ite", "sx", "zx", "tr", "div", "rem", "f2i", "inv"):
                regs.add(k)
            if a[0] == "ite":
                co(a[1])
                go(a[2:])
            else:
                go(a)
    at(i)
    r = None if len(ivs) + len(regs) + len(rets) > 24 else (tuple(sorted(ivs, key=repr)), tuple(sorted(regs, key=repr)), tuple(sorted(rets, key=repr)))
    _free[i] = r
    return r


class Poison:
    """an undefined value: a fault only where it is used"""

    def __init__(self, error):
        self.error = error


class Frame:
    def __init__(self, ev, fn, summ, args):
        self.ev, self.fn, self.summ, self.args = ev, fn, summ, args
        self.mem = ev.mem
        self.iv = {}
        self.cache = {}
        self.addr = {}        # base -> address (alloca, ret)
        self.rets = {}        # cid -> value
        self.cnt = {}
        self.memo = {}
        self.hist = {}        # (address, type, version) -> loaded value
        self.exit = {}
        self.pures = {}
        self.regs = {}
        self.snap0 = self.mem.snapshot()
        self.snaps = {}
        self.bind = {}

    # -------------------------------------------------- values
    def val(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, (Ptr, PIte)):
            return self.ptr(x)
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return 1 if self.cond(x) else 0
        raise Unknown("value %r" % (x,))

    def poly(self, p):
        t = 0
        for m, c in p.d.items():
            v = c
            for a, e in m:
                w = self.atom(a)
                if e == 1:
                    v = v * w if not isinstance(w, float) else float(v) * w
                elif e > 0:
                    v = v * w ** e if not isinstance(w, float) else float(v) * w ** e
                else:
                    if w == 0:
                        v = math.inf if (v > 0) else (math.nan if v == 0 else -math.inf)
                    elif isinstance(w, float) or isinstance(v, float):
                        try:
                            v = float(v) / float(w) ** (-e)
                        except (OverflowError, ZeroDivisionError):
                            v = math.inf
                    else:
                        v = Fraction(v) / Fraction(w) ** (-e)
            t = t + v if not isinstance(v, float) else float(t) + v
        return num(t)

    def atom(self, i):
        a = sym.atom_of(i)
        r = self.regs.get(i)
        if r is not None:
            if isinstance(r, Poison):
                raise r.error
            return r
        t = a[0]
        ev = self.ev
        if t == "iv":
            if a[1] in self.bind:
                return self.bind[a[1]]
            v = self.iv.get(a[1])
            if v is None:
                raise Unknown("counter outside its loop")
            return v
        if t == "ld":
            if i in self.cache and not self.bind:
                return self.cache[i]
            ad = self.base(a[1]) + self.poly(a[2])
            h = self.hist.get((ad, a[3], self.gver(a[4])))
            if h is not None:
                return h
            return self.mem.read(ad, a[3], self.snap_for(a[1]) if a[4] == 0 else None)
        if t == "fld":
            k = a[3]
            ad = self.base(a[1]) + (a[2] if isinstance(a[2], int) else self.poly(a[2]))
            h = self.hist.get((ad, k, self.gver(a[4]) if len(a) > 4 else 0))
            if h is not None:
                return h
            if len(a) > 4:
                return self.mem.read(ad, k)
            return self.mem.read(ad, k, self.snap_for(a[1]))
        if t == "arg":
            return self.args[a[1]]
        if t == "ite":
            return self.val(a[2] if self.cond(a[1]) else a[3])
        if t == "es":
            return {1: 1, 2: 2, 3: 4, 4: 4, 5: 8, 12: 2, 13: 4, 14: 8, 15: 8}.get(self.poly(a[1]), -1)
        if t in ("sx", "zx", "tr"):
            v = self.poly(a[2])
            v = self.toint(v)
            v &= (1 << a[1]) - 1
            if t != "zx" and v >> (a[1] - 1):
                v -= 1 << a[1]
            return v
        if t == "f2i":
            w = a[2] if len(a) > 2 else 32
            v = self.poly(a[1])
            ok = not isinstance(v, float) or math.isfinite(v)
            if ok:
                v = self.toint(v)
                if -1 << w - 1 <= v < 1 << w - 1:
                    return v
            if self.mem.strict:
                raise Fault("conversion of a value that does not fit")
            return -1 << w - 1
        if t == "div" or t == "rem":
            x, y = self.toint(self.poly(a[1])), self.toint(self.poly(a[2]))
            if y == 0:
                raise Fault("division by zero")
            q = abs(x) // abs(y)
            q = q if (x < 0) == (y < 0) else -q
            return q if t == "div" else x - q * y
        if t == "cdiv":
            x, y = self.poly(a[1]), self.poly(a[2])
            if y <= 0:
                raise Unknown("trip count")
            return max(0, -((-x) // y))
        if t == "shr":
            return self.toint(self.poly(a[1])) >> a[2]
        if t == "align":
            return self.toint(self.poly(a[2])) & -a[1]
        if t == "mask":
            return self.toint(self.poly(a[2])) & a[1]
        if t == "bits":
            x, y = self.toint(self.poly(a[2])), self.toint(self.poly(a[3]))
            if a[1] == "and":
                return x & y
            if a[1] == "or":
                return x | y
            if a[1] == "xor":
                return x ^ y
            if a[1] == "shl":
                return x << (y & 63)
            if a[1] in ("lshr", "ashr"):
                return x >> (y & 63)
            raise Unknown(a[1])
        if t == "inv":
            v = self.poly(a[1])
            if v == 0:
                return math.inf
            return 1.0 / v if isinstance(v, float) else Fraction(1) / Fraction(v)
        if t == "fn":
            return self.fncall(a[1], [self.poly(x) for x in a[2:]])
        if t in ("sum", "maxred", "minred", "mu"):
            fr = free_of(i)
            if fr is not None:
                key = (i,) + tuple(self.bind[x] if x in self.bind else self.iv.get(x) for x in fr[0]) + tuple(self.regs.get(x) for x in fr[1]) + tuple(self.rets.get(x) for x in fr[2])
                v = self.memo.get(key)
                if v is None:
                    v = self.memo[key] = self.reduction(t, a)
                return v
            return self.reduction(t, a)
        if t == "ret":
            cid = a[2]
            if cid not in self.rets:
                raise Unknown("result of %s" % a[1])
            v = self.rets[cid]
            if isinstance(v, Exception):
                raise Unknown(str(v))
            return v
        if t == "out":
            ad = self.base(a[3]) + a[4]
            return self.mem.read(ad, "i32")
        if t == "addr":
            return self.base(a[1])
        if t == "cnt":
            k = (a[1], tuple(self.poly(x) for x in a[2:]))
            if k not in self.cnt:
                raise Unknown("trip count")
            return self.cnt[k]
        if t == "fconst":
            return float(a[1]) if a[1] in ("inf", "-inf", "nan") else float(a[1].replace("+", ""))
        if t == "strlen":
            return len(self.strval(a[1:]))
        if t == "chrpos":
            return self.strval(a[2:]).find(bytes([self.poly(a[1]) & 255]))
        if t == "poff":
            return self.ptr(a[1]) - self.ptr(a[2])
        if t == "opq" and a[1] == "div0":
            return math.nan
        if t == "undef":
            raise Fault("use of an uninitialised local")
        raise Unknown("%s" % (a[:3],))

    def reduction(self, t, a):
        if t == "sum":
            n = self.toint(self.poly(a[2]))
            s = 0
            old = self.bind
            self.bind = dict(old)
            try:
                for k in range(n):
                    self.ev.tick()
                    self.bind[a[1]] = k
                    v = self.poly(a[3])
                    s = s + v if not isinstance(v, float) else float(s) + v
            finally:
                self.bind = old
            return num(s)
        if t in ("maxred", "minred"):
            n = self.toint(self.poly(a[2]))
            v = self.poly(a[3])
            old = self.bind
            self.bind = dict(old)
            try:
                for k in range(n):
                    self.ev.tick()
                    self.bind[a[1]] = k
                    w = self.poly(a[4])
                    if (w > v) if t == "maxred" else (w < v):
                        v = w
            finally:
                self.bind = old
            return v
        if t == "mu":
            n = self.toint(self.poly(a[3]))
            L, system = a[1], a[2]
            vals = [self.val(s[0]) for s in system]
            q = ("q",) + tuple(L)
            old = self.bind
            oregs = dict(self.regs)
            self.bind = dict(old)
            try:
                for k in range(n):
                    self.ev.tick()
                    self.bind[q] = k
                    for j in range(len(system)):
                        self.regs[sym.aid(("self", L, j))] = vals[j]
                    vals = [self.val(s[1]) for s in system]
            finally:
                self.bind = old
                self.regs = oregs
            return vals[0]

    def toint(self, v):
        if isinstance(v, float):
            if not math.isfinite(v):
                return -2 ** 31
            return int(v)
        if isinstance(v, Fraction):
            return math.trunc(v)
        return v

    def fncall(self, f, n):
        ours = {v: k for k, v in self.ev.pure_ours.items()}
        if f in ("rnd", "round", "rnd64", "round64"):
            v = n[0]
            w = 63 if f.endswith("64") else 31
            if isinstance(v, float) and not math.isfinite(v):
                return -2 ** w
            # to even, like rint; the library's round takes halves away from zero
            r = round(v) if f.startswith("rnd") else math.floor(abs(Fraction(v)) + Fraction(1, 2)) * (1 if v >= 0 else -1)
            if not -2 ** w <= r < 2 ** w and self.mem.strict and not isinstance(v, float):
                raise Fault("conversion of a value that does not fit")
            return r if -2 ** w <= r < 2 ** w else -2 ** w
        if f in ours:
            return self.ev.call(ours[f], n)
        if f == "fabs":
            return abs(n[0])
        if f == "floor":
            return math.floor(n[0])
        if f == "ceil":
            return math.ceil(n[0])
        if f == "pow":
            if isinstance(n[1], int) and 0 <= n[1] <= 8:
                return n[0] ** n[1]
        try:
            if f == "sqrt":
                v = n[0]
                if isinstance(v, (int, Fraction)) and v >= 0:
                    x = Fraction(v)
                    r = Fraction(math.isqrt(x.numerator), math.isqrt(x.denominator))
                    if r * r == x:
                        return num(r)
                return math.sqrt(fl(v))
            if f == "log":
                return math.log(fl(n[0])) if n[0] > 0 else (-math.inf if n[0] == 0 else math.nan)
            if f in ("exp", "cos", "sin", "tan", "atan", "acos", "asin", "log2", "log10"):
                return getattr(math, f)(fl(n[0]))
            if f == "pow":
                return math.pow(fl(n[0]), fl(n[1]))
            if f == "atan2":
                return math.atan2(fl(n[0]), fl(n[1]))
            if f == "fmod":
                return math.fmod(fl(n[0]), fl(n[1]))
            if f == "trunc":
                return math.trunc(n[0])
        except (ValueError, OverflowError):
            return math.nan
        raise Unknown("function " + f)

    # -------------------------------------------------- conditions
    def cond(self, f):
        while f > 1:
            v, lo, hi = sym._nodes[f]
            try:
                f = hi if self.lit(sym._bvars[v]) else lo
            except (Unknown, Fault) as e:
                a, b = None, None
                try:
                    a = self.cond(lo)
                    b = self.cond(hi)
                except (Unknown, Fault):
                    raise e
                if a != b:
                    raise e
                return a
        return f == 1

    def lit(self, c):
        t = c[0]
        if t == "gt0" or t == "fgt0":
            return self.poly(c[1]) > 0
        if t == "eq0":
            v = self.poly(c[1])
            if isinstance(v, float):
                return abs(v) < 1e-12
            return v == 0
        if t == "isnull":
            return self.ptr(c[1]) == 0
        if t == "peq":
            return self.ptr(c[1]) == self.ptr(c[2])
        if t == "streq":
            return cmpstr_sem(self.strval(c[1]), self.strval(c[2]))
        if t == "haschr":
            return bytes([self.poly(c[1]) & 255]) in self.strval(c[2:])
        if t == "exit":
            return self.exit.get((c[1], tuple(self.poly(x) for x in c[3]))) == c[2]
        if t == "ret":
            cid = c[2]
            if cid in self.rets:
                return bool(self.rets[cid])
        if t == "opq" and len(c) > 1 and c[1] == "cond-undef":
            raise Fault("a branch depends on an uninitialised local")
        raise Unknown("condition %s" % (c[:2],))

    def strval(self, s):
        if s[0] == "str":
            return s[1].encode("latin1").split(b"\0")[0]
        if s[0] == "at":
            ad = self.base(s[1]) + self.toint(self.poly(s[2]))
            snap = self.snap_for(s[1]) if s[3] == 0 else None
            if snap is not None:
                o, off = self.mem.find(ad, 0, "read")
                k = (int(ad) >> SLOT) - 1
                if k < len(snap):
                    return bytes(snap[k][off:]).split(b"\0")[0]
            if self.root(s[1])[0] == "pphi":
                # an object the summary cannot name: no version to keep the text under
                return self.mem.cstr(ad)
            key = (ad, "str", self.gver(s[3]))
            if key not in self.hist:
                self.hist[key] = self.mem.cstr(ad)
            return self.hist[key]
        raise Unknown("string")

    # -------------------------------------------------- pointers
    def ptr(self, p):
        if isinstance(p, PIte):
            return self.ptr(p.a if self.cond(p.c) else p.b)
        if isinstance(p, Ptr):
            if p.base == NULLBASE:
                return self.poly(p.off)
            if p.base[0] == "int":
                return self.toint(self.poly(p.base[1]) + self.poly(p.off))
            return self.base(p.base) + self.toint(self.poly(p.off))
        raise Unknown("pointer")

    def base(self, b):
        t = b[0]
        if t == "arg":
            return self.args[b[1]]
        if t == "ldp":
            off = b[2]
            if len(b) > 3 and b in self.cache and not self.bind:
                return self.cache[b]
            ad = self.base(b[1]) + (off if isinstance(off, int) else self.toint(self.poly(off)))
            h = self.hist.get((ad, "ptr", self.gver(b[3]) if len(b) > 3 else 0))
            if h is not None:
                return h
            if len(b) > 3 and b[3] != 0:
                return self.mem.read(ad, "ptr")
            return self.mem.read(ad, "ptr", self.snap_for(b[1]))
        if t in ("alloca", "ret"):
            v = self.addr.get(b)
            if v is None:
                v = self.addr.get(self.groundbase(b))
            if v is None:
                raise Unknown("pointer %s" % (b[:2],))
            return v
        if t == "glob":
            return self.ev.glob(b[1])
        if t == "pphi":
            v = self.regs.get(b)
            if v is None:
                raise Unknown("pointer that changes in a loop")
            if isinstance(v, Poison):
                raise v.error
            return v
        if t == "tab":
            return self.ev.glob(self.ev.S.mod.tabs[b])
        if t == "al":
            return self.toint(self.poly(b[2])) & -b[1]
        if t == "null":
            return 0
        raise Unknown("pointer %s" % (t,))

    def gver(self, v):
        """a memory version with its counters evaluated"""
        if isinstance(v, Poly):
            c = v.cval()
            return c if c is not None else self.poly(v)
        if isinstance(v, tuple):
            return tuple(self.gver(x) for x in v)
        return v

    def groundbase(self, b):
        return tuple(self.poly(x) if isinstance(x, Poly) else tuple(self.poly(y) if isinstance(y, Poly) else y for y in x) if isinstance(x, tuple) else x for x in b)

    def root(self, b):
        while b[0] == "ldp":
            b = b[1]
        return b

    def snap_for(self, b):
        r = self.root(b)
        if r[0] in ("arg", "glob"):
            return self.snap0
        if r[0] == "ret":
            return self.snaps.get(r) or self.snaps.get(self.groundbase(r))
        return None

    # -------------------------------------------------- effects
    def run(self):
        self.effs(self.summ.effs)
        if self.summ.ret is None:
            return None
        return self.val(self.summ.ret)

    def effs(self, es):
        for e in es:
            self.eff(e)

    def eff(self, e):
        ev = self.ev
        ev.tick()
        if e.guard not in (None, 1) and not self.cond(e.guard):
            return
        k = e.kind
        if k == "ld":
            ad = self.base(e.base) + self.toint(self.poly(e.off))
            v = self.mem.read(ad, e.ty if e.ty in FMT else {1: "i8", 2: "i16", 4: "i32", 8: "i64"}[e.size])
            if e.ty == "ptr":
                off = e.off.cval()
                self.cache[("ldp", e.base, e.off if off is None else off, e.ver)] = v
                self.hist[(ad, "ptr", self.gver(e.ver))] = v
            else:
                self.cache[sym.aid(("ld", e.base, e.off, e.ty, e.ver))] = v
                self.hist[(ad, e.ty, self.gver(e.ver))] = v
        elif k == "st":
            v = self.val(e.val)
            ad = self.base(e.base) + self.toint(self.poly(e.off)) if e.base[0] != "int" else self.ptr(Ptr(e.base, e.off))
            self.mem.write(ad, e.size, e.ty, v)
        elif k == "cpy":
            self.mem.copy(self.ptr(Ptr(e.base, e.off)), self.ptr(e.val), self.toint(self.poly(e.size)))
        elif k == "set":
            self.mem.fill(self.ptr(Ptr(e.base, e.off)), self.poly(e.val), self.toint(self.poly(e.size)))
        elif k == "fact":
            if not self.cond(e.val):
                raise Reject()
        elif k == "alloca":
            if e.base not in self.addr:
                o = self.mem.new(self.toint(self.poly(e.size)), "stack", "a local array")
                self.addr[e.base] = o.addr
        elif k == "loop":
            self.loop(e)
        elif k == "call":
            self.call(e)

    def lazy(self, x):
        try:
            return self.val(x)
        except (Fault, Unknown) as e:
            return Poison(e)

    def narrow_exit(self, e, bits):
        """the exits look at the counter only through its lowest bits, and at nothing that the loop may change"""
        me = sym.aid(A("iv", e.L).is_atom())
        seen = [False]

        def ok(x):
            if isinstance(x, bool) or x is None:
                return True
            if isinstance(x, int):
                return all(ok(y) for c in bvars_of(x) for y in c[1:] if isinstance(y, (Poly, tuple)))
            if isinstance(x, tuple):
                return all(ok(y) for y in x if isinstance(y, (Poly, tuple)))
            for i in x.atom_ids():
                a = sym.atom_of(i)
                if i == me:
                    return False
                if a[0] in ("zx", "sx", "tr") and a[1] <= bits and isinstance(a[2], Poly) and all(j == me or sym.atom_of(j)[0] in ("arg", "fld", "iv") for j in a[2].atom_ids()):
                    seen[0] = True
                elif a[0] not in ("arg", "fld", "iv"):
                    return False
            return True
        return all(ok(g) for g in e.exits or ()) and seen[0]

    def pure_loop(self, e):
        """nothing but the loop's registers changes from one iteration to the next"""
        me = A("iv", e.L)
        me = sym.aid(me.is_atom())
        own = {sym.aid(r[0].is_atom()) for r in e.regs or () if isinstance(r[0], Poly) and r[0].is_atom()}
        seen = set()

        def uses(x):
            if isinstance(x, bool) or x is None:
                return False
            if isinstance(x, int):
                return any(uses(y) for c in bvars_of(x) for y in c[1:] if isinstance(y, (Poly, Ptr, PIte, tuple)))
            if isinstance(x, Poly):
                if x in seen:
                    return False
                seen.add(x)
                return any(i == me or i not in own and any(uses(y) for y in sym.atom_of(i)[1:] if isinstance(y, (Poly, Ptr, PIte, tuple)) or isinstance(y, int) and sym.atom_of(i)[0] == "ite") for i in x.atom_ids())
            if isinstance(x, Ptr):
                return uses(x.off)
            if isinstance(x, tuple):
                return any(uses(y) for y in x if isinstance(y, (Poly, Ptr, PIte, tuple)))
            if isinstance(x, PIte):
                return uses(x.c) or uses(x.a) or uses(x.b)
            return False

        def pure(es):
            for x in es:
                if x.kind == "loop":
                    if any(uses(g) for g in x.exits or ()) or not pure(x.kids):
                        return False
                elif x.kind != "ld":
                    return False
            return True
        if e in self.pures:
            return self.pures[e]
        self.pures[e] = r = pure(e.kids) and not any(uses(g) for g in e.exits or ()) and not any(uses(y) for x in e.regs or () for y in x[2:3])
        return r

    def loop(self, e):
        L = e.L
        regs = e.regs or []
        cur = [self.lazy(r[1]) for r in regs]
        k = 0
        n = None
        if e.exact:
            n = self.toint(self.poly(e.count))
        ids = [r[0].base if isinstance(r[0], Ptr) else sym.aid(r[0].is_atom()) for r in regs]
        saved = self.iv.get(L)
        at = state = None
        while True:
            self.ev.tick()
            for i, v in zip(ids, cur):
                self.regs[i] = v
            if n is not None and k >= n:
                at = list(cur)
                break
            self.iv[L] = k
            self.effs(e.kids)
            if n is None:
                hit = None
                for idx, g in enumerate(e.exits or ()):
                    if self.cond(g):
                        hit = idx
                        break
                if hit is not None:
                    at = list(cur)
                    ivs = tuple(self.iv[x] for x in self.ev.enclosing(e))
                    self.cnt[(L, ivs)] = k
                    self.exit[(L, ivs)] = hit
                    break
            if regs:
                if n is not None and e.bottom and k == n - 1:
                    at = list(cur)
                    break
                cur = [self.lazy(r[2]) for r in regs]
            elif n is not None and e.bottom and k == n - 1:
                break
            k += 1
            if n is None and k % 64 == 0:
                if k % 512 == 0 and state is not None and regs and not any(isinstance(v, Poison) for v in cur) and cur == state and self.pure_loop(e):
                    raise Hang("a loop never ends: its state repeats")
                if k & (k - 1) == 0:
                    state = list(cur)
            if n is None and not regs and k in (1024, 1 << 18) and self.narrow_exit(e, k.bit_length() - 3):
                raise Hang("a loop never ends: its counter is narrower than its bound")
            if k > 300000:
                raise Unknown("a loop that does not end here")
        if saved is None:
            self.iv.pop(L, None)
        else:
            self.iv[L] = saved
        for i in ids:
            self.regs.pop(i, None)
        for r, v in zip(regs, at or cur):
            if isinstance(r[3], Ptr):
                self.regs[r[3].base] = v
                continue
            a = r[3].is_atom()
            if a is not None:
                self.regs[sym.aid(a)] = v

    def call(self, e):
        args = []
        for a in e.args:
            try:
                args.append(self.val(a))
            except Unknown as x:
                args.append(x)
        name = e.name
        r = self.ev.call(name, args, e.aux)
        key = ("ret", base_name(name) if not e.aux else base_name(e.aux[0])) + e.cid[1:]
        # results are kept under the symbolic call identity
        rk = ("ret", key[1]) + e.cid[1:]
        self.rets[e.cid] = r
        if r is not None and not isinstance(r, Exception):
            self.addr[rk] = r
            self.snaps[rk] = self.mem.snapshot()


class Evaluator:
    MAXSTEPS = 3000000

    def __init__(self, S, mem, pure_ours, enclosing):
        self.S = S
        self.mem = mem
        self.pure_ours = pure_ours
        self.depth = 0
        self._encl = enclosing
        self.nsteps = 0

    def tick(self):
        self.nsteps += 1
        if self.nsteps > self.MAXSTEPS:
            raise Unknown("too many instances")

    def enclosing(self, loop):
        return self._encl.get(loop.L, ())

    def glob(self, name):
        a = self.mem.globs.get(name)
        if a is None:
            g = self.S.mod.globals.get(name)
            if g is None:
                raise Unknown("global " + name)
            o = self.mem.new(g["size"], "glob", name, zero=True)
            a = self.mem.globs[name] = o.addr
            fill_init(self, o, g)
        return a

    def call(self, name, args, aux=None):
        m = self.mem
        for a in args:
            if isinstance(a, Exception) and name not in ("printf", "fprintf"):
                raise Unknown(str(a))
        if name == "printf" and m.stdout:
            # the values printed, in order; the wording around them is free
            self.printed(args)
            return 0
        if name == "putchar" and m.stdout and not chr(int(args[0]) & 255).isspace():
            m.log.append(("write", b"stdout", b"%c" % (int(args[0]) & 255)))
        if name in ("printf", "puts", "putchar", "perror", "fflush"):
            return 0
        if name == "rand":
            # every two calls give the same value: results may depend on the values drawn, not on the order in which
            # one point's coordinates are
            m.draws += 1
            return m.drawn if m.draws <= 2 else random.Random(m.drawn + (m.draws - 1) // 2).randrange(1000)
        if name == "srand":
            return None
        if name == "time":
            return 1700000000
        if name == "malloc":
            return m.new(args[0], "heap", "the block from malloc").addr
        if name == "calloc":
            return m.new(args[0] * args[1], "heap", "the block from calloc", zero=True).addr
        if name == "realloc":
            o = m.new(args[1], "heap", "the block from realloc")
            if args[0]:
                p, off = m.find(args[0], 0, "realloc")
                n = min(p.size, o.size)
                o.data[:n] = p.data[:n]
                o.init[:n] = p.init[:n]
                p.freed = True
            return o.addr
        if name == "free":
            if args[0]:
                o, off = m.find(args[0], 0, "release")
                if off != 0 or o.kind != "heap":
                    raise Fault("release of a pointer that is not an allocation (%s)" % (o.name or o.kind))
                o.freed = True
            return None
        if name == "fopen":
            p = m.cstr(args[0])
            mode = m.cstr(args[1])
            o = m.new(8, "file", "FILE")
            m.files[o.addr] = [p, mode, 0]
            m.log.append(("open", p, mode[:1]))
            return o.addr
        if name == "fclose":
            if args[0] not in m.files:
                raise Fault("fclose of an invalid stream")
            m.log.append(("close", m.files.pop(args[0])[0]))
            return 0
        if name in ("fseek", "fread", "fwrite", "fputs", "fputc", "fprintf"):
            f = args[1] if name in ("fputs", "fputc") else args[0] if name in ("fseek", "fprintf") else args[3]
            if name == "fprintf" and f not in m.files:
                return 0
            if f not in m.files:
                raise Fault("%s on an invalid stream" % name)
            st = m.files[f]
            if name == "fseek":
                st[2] = args[1] if args[2] == 0 else st[2] + args[1] if args[2] == 1 else None
                if st[2] is None:
                    raise Unknown("fseek to the end")
                return 0
            if name == "fread":
                n = args[1] * args[2]
                if n < 0:
                    raise Fault("fread of a negative length")
                content = self.filebytes(st[0])
                d = content[st[2]:st[2] + n]
                n = len(d)
                if n:
                    o, off = m.find(args[0], args[1] * args[2], "write")
                    o.data[off:off + n] = d
                    o.init[off:off + n] = b"\1" * n
                st[2] += n
                return n // args[1] if args[1] else 0
            if name == "fwrite":
                n = args[1] * args[2]
                if n < 0:
                    raise Fault("fwrite of a negative length")
                o, off = m.find(args[0], n, "read")
                for i in range(off, off + n):
                    if not o.init[i]:
                        raise Fault("fwrite of uninitialised bytes")
                m.log.append(("write", st[0], bytes(o.data[off:off + n])))
                return args[2]
            if name == "fputs":
                m.log.append(("write", st[0], m.cstr(args[0])))
                return 0
            if name == "fputc":
                m.log.append(("write", st[0], bytes([args[0] & 255])))
                return 0
            if name == "fprintf":
                m.log.append(("write", st[0], self.fmt(m.cstr(args[1]), args[2:])))
                return 0
        if name.endswith("fscanf"):
            if args[0] not in m.files:
                raise Fault("fscanf on an invalid stream")
            st = m.files[args[0]]
            fm = m.cstr(args[1]).decode("latin1").strip()
            if fm not in ("%f", "%d"):
                raise Unknown("fscanf format " + fm)
            import re
            txt = self.filebytes(st[0])[st[2]:].decode("latin1")
            mm = re.match(r"\s*([-+]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][-+]?\d+)?)" if fm == "%f" else r"\s*([-+]?\d+)", txt)
            if not mm:
                return 0 if txt.strip() else -1
            st[2] += mm.end()
            m.write(args[2], 4, "float" if fm == "%f" else "i32", Fraction(mm.group(1)) if fm == "%f" else int(mm.group(1)))
            return 1
        if name == "fgets":
            if args[2] not in m.files:
                raise Fault("fgets on an invalid stream")
            st = m.files[args[2]]
            c = self.filebytes(st[0])[st[2]:]
            n = args[1] - 1
            if not c or n <= 0:
                return 0
            k = c.find(b"\n") + 1
            d = c[:min(k or len(c), n)]
            o, off = m.find(args[0], len(d) + 1, "write")
            o.data[off:off + len(d) + 1] = d + b"\0"
            o.init[off:off + len(d) + 1] = b"\1" * (len(d) + 1)
            st[2] += len(d)
            return args[0]
        if name.endswith("sscanf"):
            return self.scan(m.cstr(args[0]).decode("latin1"), m.cstr(args[1]).decode("latin1"), args[2:])
        if name == "feof":
            if args[0] not in m.files:
                raise Fault("feof on an invalid stream")
            st = m.files[args[0]]
            return int(st[2] >= len(self.filebytes(st[0])))
        if name == "atof":
            s = m.cstr(args[0]).decode("latin1")
            import re
            mm = re.match(r"\s*[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?", s)
            return Fraction(mm.group(0).strip()) if mm else 0
        if name == "strlen":
            return len(m.cstr(args[0]))
        if name == "strcmp":
            a, b = m.cstr(args[0]), m.cstr(args[1])
            return (a > b) - (a < b)
        f = self.S.mod.fn(aux[0] if aux else name)
        if f is None:
            raise Unknown("call of " + name)
        s = self.S.summary(f["name"])
        if s is None:
            raise Unknown("recursion in " + name)
        if self.depth > 12:
            raise Unknown("call depth")
        if name == "cmpstr":
            return 1 if cmpstr_sem(m.cstr(args[0]), m.cstr(args[1])) else 0
        self.collect(s)
        self.depth += 1
        try:
            return Frame(self, f, s, args).run()
        finally:
            self.depth -= 1

    def scan(self, t, f, out):
        """sscanf"""
        import re
        m, pos, done, k, i = self.mem, 0, 0, 0, 0

        def space(p):
            while p < len(t) and t[p].isspace():
                p += 1
            return p

        def put(b):
            o, off = m.find(out[k], len(b), "write")
            o.data[off:off + len(b)] = b
            o.init[off:off + len(b)] = b"\1" * len(b)
        while i < len(f):
            if f[i].isspace():
                pos, i = space(pos), i + 1
                continue
            if f[i] != "%" or f[i:i + 2] == "%%":
                i += 2 if f[i] == "%" else 1
                if pos >= len(t):
                    return done or -1
                if t[pos] != f[i - 1]:
                    return done
                pos += 1
                continue
            mm = re.match(r"%(\*?)(\d*)(l?)([dfsc]|\[\^?\]?[^\]]*\])", f[i:])
            if not mm:
                raise Unknown("sscanf format " + f)
            i += mm.end()
            star, w, cv = mm.group(1), int(mm.group(2) or 0), mm.group(4)
            if cv in "dfs":
                pos = space(pos)
            if pos >= len(t):
                return done or -1
            rest = t[pos:pos + w] if w else t[pos:]
            if cv == "c":
                w = w or 1
                x = t[pos:pos + w]
                if len(x) < w:
                    return done
            else:
                r = {"d": r"[-+]?\d+", "f": r"[-+]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][-+]?\d+)?", "s": r"\S+"}.get(cv) or cv.replace("\\", "\\\\") + "+"
                y = re.match(r, rest)
                if not y:
                    return done
                x = y.group(0)
            pos += len(x)
            if star:
                continue
            if k >= len(out):
                raise Fault("sscanf stores more values than it is given places for")
            if cv == "d":
                m.write(out[k], 8 if mm.group(3) else 4, "i64" if mm.group(3) else "i32", int(x))
            elif cv == "f":
                m.write(out[k], 8 if mm.group(3) else 4, "double" if mm.group(3) else "float", Fraction(x))
            else:
                put(x.encode("latin1") + (b"" if cv == "c" else b"\0"))
            k, done = k + 1, done + 1
        return done

    def printed(self, args):
        import re
        f = re.sub("%%", "", self.mem.cstr(args[0]).decode("latin1"))
        k = 1
        for mm in re.finditer(r"%[-+ 0#]*\d*(?:\.\d+)?(?:hh|h|ll|l|z)?([a-zA-Z])", f):
            if mm.group(1) not in "ducfgs" or k >= len(args):
                raise Unknown("format " + mm.group(0))
            x = args[k]
            if isinstance(x, Exception):
                raise x
            if mm.group(1) == "s":
                for ch in self.mem.cstr(x):
                    self.mem.log.append(("write", b"stdout", b"%c" % ch))
            elif mm.group(1) == "c":
                self.mem.log.append(("write", b"stdout", b"%c" % (int(x) & 255)))
            else:
                self.mem.log.append(("write", b"stdout", b" %g " % float(x)))
            k += 1

    def filebytes(self, path):
        r = random.Random(path)
        return bytes(r.randrange(256) for _ in range(4096)) if path not in self.mem_files() else self.mem_files()[path]

    def mem_files(self):
        return self.mem.given

    def fmt(self, f, args):
        s = f.decode("latin1")
        out, k, i = [], 0, 0
        while i < len(s):
            if s[i] == "%" and i + 1 < len(s):
                c = s[i + 1]
                if c == "%":
                    out.append("%")
                elif c in "du":
                    out.append(str(int(args[k])))
                    k += 1
                elif c == "f":
                    out.append("%f" % float(args[k]))
                    k += 1
                elif c == "s":
                    out.append(self.mem.cstr(args[k]).decode("latin1"))
                    k += 1
                elif c == "c":
                    out.append(chr(int(args[k]) & 255))
                    k += 1
                else:
                    raise Unknown("format %" + c)
                i += 2
            else:
                out.append(s[i])
                i += 1
        return "".join(out).encode("latin1")

    def collect(self, s):
        d = getattr(s, "_encl", None)
        if d is None:
            d = s._encl = {}

            def go(es, st):
                for e in es:
                    if e.kind == "loop":
                        d[e.L] = tuple(st)
                        go(e.kids, st + [e.L])
            go(s.effs, [])
        self._encl.update(d)


def fill_init(ev, o, g):
    import summ
    init = g.get("init")
    if not init:
        return
    if init[0] == "str":
        b = init[1].encode("latin1")
        o.data[:len(b)] = b[:o.size]
        return
    if init[0] in ("c", "f"):
        init = ["agg", [init], [0]]
    fi = summ.flat_init({"init": init})
    if fi is None:
        return
    for off, x in fi.items():
        w = summ.const_w(x)
        if x[0] == "f":
            struct.pack_into("<f" if w == 4 else "<d", o.data, off, float(x[1]))
        elif x[0] == "c":
            o.data[off:off + w] = (int(x[1]) & ((1 << 8 * w) - 1)).to_bytes(w, "little")
        elif x[0] == "g":
            struct.pack_into("<Q", o.data, off, ev.glob(x[1]))
        elif x[0] == "goff" and x[1][0] == "g":
            struct.pack_into("<Q", o.data, off, ev.glob(x[1][1]) + x[2])
