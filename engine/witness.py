"""Search for an instance at which two extracted relations differ (see evals.py)."""
import math, random, re, struct, time
from fractions import Fraction
from sym import *
import sym
import evals
from evals import Mem, Evaluator, Frame, Reject, Fault, Hang, Unknown
from summ import walk, PURE_OURS

ES = {1: 1, 2: 2, 3: 4, 4: 4, 5: 8, 12: 2, 13: 4, 14: 8, 15: 8}
DTF = {1: ("B", 1), 2: ("h", 2), 3: ("i", 4), 4: ("f", 4), 5: ("d", 8), 12: ("H", 2), 13: ("I", 4), 14: ("q", 8), 15: ("Q", 8)}
CTY = {"float": ("f", 4), "double": ("d", 8), "int": ("i", 4), "unsigned int": ("I", 4), "short": ("h", 2), "unsigned short": ("H", 2), "char": ("b", 1), "unsigned char": ("B", 1), "void": ("B", 1), "long": ("q", 8)}


def fieldoff(mod, s):
    return {n: o for n, o, z, t in mod.structs[s]["members"]}


class Gen:
    """one random valuation of a function's parameters"""

    def __init__(self, mod, f, rng, hints, facts, pool):
        self.mod, self.f, self.rng, self.hints, self.facts, self.pool = mod, f, rng, hints or {}, facts, pool
        self.v = {}          # ("fld", i, off) / ("arg", i) -> value
        self.kind = {}
        self.text = {}
        self.pinned = set()  # values chosen because the code compares them with constants
        self.sat = False     # large elements only
        self.null = set()
        self.nullable = set(pool.get("null", ())) | {c[1].base[1] for c, v in facts if c[0] == "isnull" and isinstance(c[1], Ptr) and c[1].base[0] == "arg"} | set(self.hints.get("@null", ()))
        for i, a in enumerate(f["args"]):
            self.choose(i, a)
        # sizes at which a condition, a narrow index or a fixed buffer of the code starts to matter
        bg = pool.get("big")
        if bg and rng.random() < 0.3:
            ks = [k for k in self.v if k[0] == "fld" and self.kind.get(k[1]) in ("HyperMat", "SIMPLE_MAT") and k[2] in (self.dims(k[1]))]
            if ks:
                k0 = rng.choice(ks)
                for k in ks:
                    if k[1] == k0[1]:
                        self.v[k] = rng.choice((1, 2, 3, 4))
                b = rng.choice(bg) + rng.choice((0, 0, 1))
                if b > 300 or rng.random() < 0.3:
                    for k in ks:
                        if k[1] == k0[1] and k != k0:
                            b = -(-b // self.v[k])
                    fo = fieldoff(mod, self.kind[k0[1]])
                    es = ES.get(self.v.get(("fld", k0[1], fo["data_type"])), 1)
                    if b > 300 and rng.random() < 0.7:
                        b = -(-b // es)
                self.v[k0] = b
            ks = [("arg", i) for i, a in enumerate(f["args"]) if ("arg", i) in self.v and a["ty"] == "i32"]
            if ks and (rng.random() < 0.3 or len(ks) == len(f["args"]) - sum(a["ty"] == "ptr" for a in f["args"]) and not self.kind):
                self.v[rng.choice(ks)] = rng.choice(bg)
        if pool.get("sat") and rng.random() < (0.5 if pool.get("narrower") else 0.25):
            self.sat = True
            for i, a in enumerate(f["args"]):
                if a["ty"] in ("float", "double") and ("arg", i) in self.v and rng.random() < 0.5:
                    self.v[("arg", i)] = Fraction(rng.choice((100, 200, 255)))
            ks = [k for k in self.v if k[0] == "fld" and self.kind.get(k[1]) in ("HyperMat", "SIMPLE_MAT") and k[2] in self.dims(k[1])]
            b = rng.choice((17, 17, 33, 260, 300, 300) if 16 in pool["sat"] else (17, 17, 33, 300))
            if 16 in pool["sat"] and rng.random() < 0.05:
                b = 65541
            if ks:
                k0 = rng.choice(ks)
                for k in ks:
                    self.v[k] = b if k == k0 or b < 100 and rng.random() < 0.5 and k[1] == k0[1] else rng.choice((1, 2, 3) if b < 100 else (1, 1, 1, 2)) if b < 1000 else 1
            for i, a in enumerate(f["args"]):
                if b < 100 and ("arg", i) in self.v and a["ty"] == "i32" and rng.random() < 0.5:
                    self.v[("arg", i)] = b
            ls = [("arg", i) for i, a in enumerate(f["args"]) if ("arg", i) in self.v and a["ty"] == "i32" and isinstance(self.hints.get(i), (list, tuple))]
            if ls and not ks and b < 1000:
                k0 = rng.choice(ls)
                for k in ls:
                    self.v[k] = b if k == k0 else min(self.v[k], 3)
        # most interesting instances give the images of one call the same shape
        first = {}
        for i in sorted(self.kind):
            k = self.kind[i]
            if k not in ("SIMPLE_MAT", "HyperMat"):
                continue
            if k in first and rng.random() < 0.6:
                for key in list(self.v):
                    if key[1] == i and key[0] in ("fld", "il", "wl"):
                        if key[0] == "fld" and ("fld", first[k], key[2]) in self.v and not self.hinted(i, key[2]):
                            self.v[key] = self.v[("fld", first[k], key[2])]
                        elif key[0] != "fld":
                            self.v[key] = self.v[(key[0], first[k])]
            first.setdefault(k, i)
        tg = pool.get("targets")
        if tg and rng.random() < 0.35:
            p = rng.choice(tg)
            cand = [self.key(sym.atom_of(i)) for i in p.atom_ids()]
            rng.shuffle(cand)
            for k in cand:
                if k not in self.v:
                    continue
                co = p.coeff_of(self.atomof(p, k))
                if not co or not co[0].d:
                    continue
                try:
                    q = self.ev(co[0])
                    if q == 0:
                        continue
                    x = -self.ev(co[1]) / q + rng.choice((-1, 0, 0, 1))
                except KeyError:
                    continue
                if x.denominator == 1 and -5 <= x <= 5000:
                    self.v[k] = int(x)
                    break
        for i, k in self.kind.items():
            # one large extent is enough
            if k in ("HyperMat", "SIMPLE_MAT"):
                d = [("fld", i, o) for o in self.dims(i) if self.v[("fld", i, o)] > 30]
                rng.shuffle(d)
                for x in d[1:]:
                    if math.prod(self.v[("fld", i, o)] for o in self.dims(i)) > 20000:
                        self.v[x] = rng.choice((1, 2, 3))
        fix = self.hints.get("@fix")
        if fix and rng.random() < 0.9:
            try:
                fix(self)
            except KeyError:
                pass
        self.repair()
        if pool.get("violate") and rng.random() < 0.6:
            self.violate()

    def violate(self):
        """the preconditions hold: now change one thing, keeping whatever else an over-weak check might look at"""
        rng = self.rng
        objs = [i for i, k in self.kind.items() if k in ("HyperMat", "SIMPLE_MAT") and i not in self.null]
        args = [("arg", i) for i, a in enumerate(self.f["args"]) if ("arg", i) in self.v and a["ty"] == "i32"]
        if args and (not objs or rng.random() < 0.3):
            k = rng.choice(args)
            self.v[k] = rng.choice((self.v[k] + rng.choice((-1, 1)), -self.v[k], 0, -1, rng.randrange(0, 40)))
        elif objs:
            i = rng.choice(objs)
            fo = fieldoff(self.mod, self.kind[i])
            d = [("fld", i, o) for o in self.dims(i)]
            r = rng.random()
            if r < 0.3:
                # the same number of elements in another shape
                a, b = rng.sample(d, 2)
                x, y = self.v[a], self.v[b]
                self.v[a], self.v[b] = rng.choice(((y, x), (x * y, 1), (1, x * y)))
            elif r < 0.5:
                k = rng.choice(d)
                self.v[k] = max(1, self.v[k] + rng.choice((-1, 1, 1)))
            elif r < 0.8:
                t = self.v[("fld", i, fo["data_type"])]
                same = [x for x in ES if ES[x] == ES.get(t) and x != t]
                self.v[("fld", i, fo["data_type"])] = rng.choice(same) if same and rng.random() < 0.5 else rng.choice([x for x in ES if x != t])
            elif "channels" in fo:
                self.v[("fld", i, fo["channels"])] = rng.choice((1, 2, 3, 4))
            else:
                self.v[("il", i)] = rng.choice(("bsq", "bil", "bip"))
            if self.kind[i] == "SIMPLE_MAT":
                self.v[("fld", i, fo["elem_size"])] = ES[self.v[("fld", i, fo["data_type"])]]

    def dims(self, i):
        fo = fieldoff(self.mod, self.kind[i])
        return [fo[n] for n in (("samples", "lines", "bands") if self.kind[i] == "HyperMat" else ("rows", "cols"))]

    def atomof(self, p, k):
        for i in p.atom_ids():
            if self.key(sym.atom_of(i)) == k:
                return sym.atom_of(i)

    def hinted(self, i, off):
        h = self.hints.get(i)
        return isinstance(h, dict) and any(n in h for n, o in fieldoff(self.mod, self.kind[i]).items() if o == off)

    def keyof(self, nm):
        p, _, fl = nm.partition(".")
        for i, a in enumerate(self.f["args"]):
            if a["name"] == p or p == "%d" % i:
                if fl in ("il", "wl"):
                    return (fl, i)
                if fl:
                    return ("fld", i, fieldoff(self.mod, self.kind[i])[fl])
                return ("arg", i)
        raise KeyError(nm)

    def get(self, nm):
        return self.v[self.keyof(nm)]

    def set(self, nm, x):
        self.v[self.keyof(nm)] = x

    def small(self):
        r = self.rng.random()
        return self.rng.choice((1, 2, 3)) if r < 0.55 else self.rng.choice((1, 2, 3, 4, 5, 6, 7))

    def pick(self, key, dflt):
        p = self.pool.get(key)
        if p and self.rng.random() < 0.35:
            self.pinned.add(key)
            return self.rng.choice(p)
        return dflt

    def choose(self, i, a):
        rng, di = self.rng, a.get("di") or ""
        h = self.hints.get(i)
        if "HyperMat*" in di or "SIMPLE_MAT*" in di or "STRUCT_2D*" in di:
            sn = "HyperMat" if "HyperMat*" in di else "SIMPLE_MAT" if "SIMPLE_MAT*" in di else "STRUCT_2D"
            self.kind[i] = sn
            fo = fieldoff(self.mod, sn)
            if rng.random() < 0.06 and i in self.nullable:
                self.null.add(i)
            dt = rng.choice((1, 1, 2, 3, 4, 4, 12, 13)) if rng.random() < 0.92 else 5
            if sn == "HyperMat":
                d = {"samples": self.small(), "lines": self.small(), "bands": self.small(), "data_type": dt}
            elif sn == "SIMPLE_MAT":
                d = {"rows": self.small(), "cols": self.small(), "channels": rng.choice((1, 1, 3, 3, 2)), "data_type": dt, "elem_size": ES[dt]}
            else:
                d = {"width": rng.choice((1, 2, 3, 3)), "height": rng.choice((1, 2, 3, 3))}
            for n, x in d.items():
                k = ("fld", i, fo[n])
                self.v[k] = self.pick(k, x)
            if sn == "HyperMat":
                self.v[("il", i)] = rng.choice(("bsq", "bil", "bip"))
                self.v[("wl", i)] = rng.random() < 0.8
            if isinstance(h, dict):
                for n, x in h.items():
                    if n in fo:
                        k = ("fld", i, fo[n])
                        self.v[k] = self.pick(k, rng.choice(x)) if n in ("rows", "cols", "samples", "lines", "bands") else rng.choice(x)
                    elif n == "interleave":
                        self.v[("il", i)] = rng.choice(x)
        elif a["ty"] == "ptr":
            self.kind[i] = "buf"
            if h == "null":
                self.null.add(i)
            elif rng.random() < (0.25 if i in self.hints.get("@null", ()) else 0.04) and i in self.nullable:
                self.null.add(i)
            if "char*" in di and "unsigned" not in di and (a["name"] or "").startswith("interleave"):
                self.v[("il", i)] = rng.choice(("bsq", "bil", "bip"))
        elif di.endswith("struct point") and a["ty"] == "i64":
            x, y = (rng.choice((0, 1, 2, 3, 4, 5, 6, -1, -2, 9)) for _ in range(2))
            self.v[("arg", i)] = (x & 0xFFFFFFFF) | (y & 0xFFFFFFFF) << 32
            if self.v[("arg", i)] >> 63:
                self.v[("arg", i)] -= 1 << 64
        elif di.endswith("struct RGB_data"):
            self.v[("arg", i)] = rng.randrange(1 << 24)
        else:
            k = ("arg", i)
            if a["ty"] in ("float", "double"):
                x = Fraction(rng.choice((0, 1, 2, 3, -1, Fraction(1, 2), Fraction(255, 2), 100, 255, 10, Fraction(3, 4), 200)))
            elif isinstance(h, (list, tuple)):
                x = rng.choice(h)
            elif (a["name"] or "") in ("data_type", "date_type", "dataType", "dst_data_type"):
                x = rng.choice((1, 2, 3, 4, 12, 13))
            else:
                x = rng.choice((0, 1, 1, 2, 2, 3, 3, 4, 5, -1, 7))
            if isinstance(h, (list, tuple)):
                x = rng.choice(h)
            self.v[k] = self.pick(k, x)
            if a["ty"] == "i8":
                self.v[k] = rng.choice((0, 1, 127, 128, 255, rng.randrange(256)))

    # ---- assertions known from the reference: make them hold most of the time
    def key(self, a):
        if a[0] == "fld" and a[1][0] == "arg" and isinstance(a[2], int):
            return ("fld", a[1][1], a[2])
        if a[0] == "arg":
            return ("arg", a[1])
        return None

    def ev(self, p):
        t = 0
        for m, c in p.d.items():
            v = Fraction(c)
            for i, e in m:
                a = sym.atom_of(i)
                if a[0] == "es":
                    x = ES.get(self.ev(a[1]), -1)
                else:
                    k = self.key(a)
                    if k is None or k not in self.v:
                        raise KeyError
                    x = self.v[k]
                v = v * Fraction(x) ** e
            t += v
        return t

    def repair(self):
        self.repair_facts()
        # objects have positive extents, a known element type and the element size that goes with it
        for i, k in self.kind.items():
            if k not in ("HyperMat", "SIMPLE_MAT"):
                continue
            fo = fieldoff(self.mod, k)
            for n in ("samples", "lines", "bands", "rows", "cols", "channels"):
                if n in fo and self.v[("fld", i, fo[n])] < 1:
                    self.v[("fld", i, fo[n])] = 1
            if self.v[("fld", i, fo["data_type"])] not in ES:
                self.v[("fld", i, fo["data_type"])] = 1
            if k == "SIMPLE_MAT":
                self.v[("fld", i, fo["elem_size"])] = ES[self.v[("fld", i, fo["data_type"])]]

    def repair_facts(self):
        if self.rng.random() < 0.12:
            return
        for rnd in range(6):
            bad = False
            for c, val in self.facts:
                try:
                    if c[0] == "eq0":
                        x = self.ev(c[1])
                        if (x == 0) != val:
                            bad = True
                            cand = []
                            for i in c[1].atom_ids():
                                a = sym.atom_of(i)
                                k = self.key(a)
                                co = c[1].coeff_of(a)
                                if k and co and co[0].d:
                                    cand.append((k, co))
                            self.rng.shuffle(cand)
                            for k, co in cand:
                                if val:
                                    q = self.ev(co[0])
                                    if q == 0:
                                        continue
                                    nv = -self.ev(co[1]) / q
                                    if nv.denominator == 1:
                                        self.v[k] = int(nv)
                                        break
                                else:
                                    self.v[k] = self.v[k] + 1
                                    break
                    elif c[0] == "gt0":
                        x = self.ev(c[1])
                        if (x > 0) != val:
                            bad = True
                            cand = [(self.key(sym.atom_of(i)), sym.atom_of(i)) for i in c[1].atom_ids()]
                            cand = [k for k in cand if k[0]]
                            free = [k for k in cand if k[0] not in self.pinned]
                            if free and (len(free) < len(cand) or self.rng.random() < 0.3):
                                # what was chosen on purpose stays; the rest makes room for it
                                k, a = self.rng.choice(free)
                                co = c[1].coeff_of(a)
                                q = self.ev(co[0]) if co and co[0].d else 0
                                if q:
                                    b = -self.ev(co[1]) / q
                                    self.v[k] = int(math.floor(b)) + (1 if val else 0) + (self.rng.randrange(2) if val else 0) if q > 0 else int(math.ceil(b)) - (1 if val else 0)
                                    continue
                            if cand:
                                self.v[self.rng.choice(cand)[0]] = self.small()
                    elif c[0] == "isnull" and not val:
                        b = c[1].base
                        if b[0] == "arg":
                            self.null.discard(b[1])
                    elif c[0] == "streq" and val:
                        ss = [s for s in c[1:] if s[0] == "str"]
                        at = [s for s in c[1:] if s[0] == "at"]
                        if ss and at and at[0][1][0] == "arg":
                            self.v[("il", at[0][1][1])] = ss[0][1]
                except KeyError:
                    pass
            if not bad:
                break
    # ---- materialise
    def content(self, mem, addr, fmt, n, rng, style):
        o, off = mem.find(addr, 0, "init")
        ch, w = fmt
        special = self.pool.get("content") if rng.random() < 0.5 else None
        small = style and isinstance(style, tuple)
        mood = rng.random()
        if mood < 0.3 and not small and style != "bit" and not self.sat and n > 1:
            # a whole image below zero, bright, dark, or with nearly equal elements
            if ch in "fd":
                b0 = rng.choice((0.0, 5.0, 100.0, -7.0)) if style != "pos" else rng.choice((5.0, 100.0))
                vs = [b0 + rng.randrange(0, 17) / 16 for _ in range(n)] if mood < 0.1 else [-rng.randrange(1, 4000) / 8 for _ in range(n)] if mood < 0.2 else [rng.randrange(1600, 2040) / 8 for _ in range(n)]
                if style == "pos":
                    vs = [abs(x) + 0.125 for x in vs]
            else:
                signed = ch in "bhiq"
                lo, hi = (-(1 << 8 * w - 1), (1 << 8 * w - 1) - 1) if signed else (0, (1 << 8 * w) - 1)
                lo, hi = max(lo, -70000), min(hi, 70000)
                b0 = rng.randrange(lo, hi - 2)
                vs = [b0 + rng.randrange(3) for _ in range(n)] if mood < 0.1 else [rng.randrange(lo, lo + 20) for _ in range(n)] if mood < 0.2 else [rng.randrange(hi - hi // 5, hi + 1) for _ in range(n)]
            struct.pack_into("<%d%s" % (n, ch), o.data, off, *vs)
            for j in range(n * w):
                o.init[off + j] = 1
            return
        if self.sat and ch not in "fd" and not small:
            hi = min((1 << 8 * w - (ch in "bhiq")) - 1, 70000)
            sp = rng.choice((1, 3, 3))
            struct.pack_into("<%d%s" % (n, ch), o.data, off, *[hi - rng.randrange(sp) for _ in range(n)])
            for j in range(n * w):
                o.init[off + j] = 1
            return
        for k in range(n):
            if small:
                struct.pack_into("<" + ch, o.data, off + k * w, rng.randrange(*style))
                for j in range(w):
                    o.init[off + k * w + j] = 1
                continue
            if special and rng.random() < 0.4:
                v = rng.choice(special)
                try:
                    struct.pack_into("<" + ch, o.data, off + k * w, float(v) if ch in "fd" else int(v))
                    for j in range(w):
                        o.init[off + k * w + j] = 1
                    continue
                except (struct.error, OverflowError):
                    pass
            if ch in ("f", "d"):
                r = rng.random()
                v = float(rng.randrange(-40, 41)) / 8 if r < 0.4 else float(rng.randrange(0, 1024)) / 4 if r < 0.85 else float(rng.randrange(-300000, 300000)) / 4
                if style == "pos":
                    v = abs(v) + 0.125
                struct.pack_into("<" + ch, o.data, off + k * w, v)
            else:
                bits = 8 * w
                signed = ch in ("b", "h", "i", "q")
                r = rng.random()
                lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
                if w >= 4:
                    lo, hi = max(lo, -70000), min(hi, 70000)
                if ch == "I" and rng.random() < 0.05:
                    hi = (1 << 32) - 1
                v = rng.choice((lo, hi, 0, 1, (lo + hi) // 2, (lo + hi) // 2 + 1)) if r < 0.25 else rng.randrange(max(lo, -1000), min(hi, 1000) + 1) if r < 0.7 else rng.randrange(lo, hi + 1)
                if style == "bit":
                    v = rng.choice((0, 1, 255)) if not signed else rng.choice((0, 1))
                struct.pack_into("<" + ch, o.data, off + k * w, v)
            for j in range(w):
                o.init[off + k * w + j] = 1

    def build(self, mem, seed):
        rng = random.Random(seed)
        args = []
        self.objs = []      # (object index, format) of every input object
        for i, a in enumerate(self.f["args"]):
            if i in self.null:
                args.append(0)
                continue
            k = self.kind.get(i)
            if k in ("HyperMat", "SIMPLE_MAT", "STRUCT_2D"):
                fo = fieldoff(self.mod, k)
                heap = "heap" if self.hints.get("@heap") else "arg"
                so = mem.new(self.mod.structs[k]["size"], heap, a["name"], zero=True)
                self.objs.append((so, "struct"))
                fmt = ("B", 1)
                if k == "HyperMat":
                    g = {n: self.v[("fld", i, fo[n])] for n in ("samples", "lines", "bands", "data_type")}
                    n = max(0, g["samples"]) * max(0, g["lines"]) * max(0, g["bands"])
                    fmt = DTF.get(g["data_type"], ("B", 1))
                elif k == "SIMPLE_MAT":
                    g = {n: self.v[("fld", i, fo[n])] for n in ("rows", "cols", "data_type", "channels", "elem_size")}
                    n = max(0, g["rows"]) * max(0, g["cols"]) * max(0, g["channels"])
                    fmt = DTF.get(g["data_type"], ("B", 1))
                else:
                    g = {n: self.v[("fld", i, fo[n])] for n in ("width", "height")}
                    n = max(0, g["width"]) * max(0, g["height"])
                if n * fmt[1] > 1 << 19:
                    raise Unknown("shape too large")
                for nme, x in g.items():
                    struct.pack_into("<i", so.data, fo[nme], x)
                if self.hints.get("@heap") == "image" and rng.random() < 0.5:
                    # header and data in one block, as the library allocates them
                    mem.objs.pop()
                    self.objs.pop()
                    z = self.mod.structs[k]["size"]
                    hd = bytes(so.data)
                    so = mem.new(z + 64 + n * fmt[1], heap, a["name"], zero=True)
                    so.data[:z] = hd
                    self.objs.append((so, "struct"))
                    da = (so.addr + z + 63) & -64
                    struct.pack_into("<Q", so.data, fo["data"], da)
                    args.append(so.addr)
                    continue
                do = mem.new(n * fmt[1], heap if self.hints.get("@heap") == "image" else "arg", "%s->data" % a["name"])
                self.content(mem, do.addr, fmt, n, rng, "bit" if k == "STRUCT_2D" else self.hints.get("style"))
                self.objs.append((do, fmt))
                struct.pack_into("<Q", so.data, fo["data"], do.addr)
                if k == "HyperMat":
                    so.data[fo["interleave"]:fo["interleave"] + 3] = self.v[("il", i)].encode()[:3]
                    if self.v[("wl", i)]:
                        nb = max(0, g["bands"])
                        wo = mem.new(4 * nb, "arg", "%s->wavelength" % a["name"])
                        self.content(mem, wo.addr, ("f", 4), nb, rng, None)
                        self.objs.append((wo, ("f", 4)))
                        struct.pack_into("<Q", so.data, fo["wavelength"], wo.addr)
                args.append(so.addr)
            elif k == "buf" and self.hints.get("@heap") == "fields":
                st = self.mod.structs[(a.get("di") or "").replace("const ", "").replace("struct ", "").strip()[:-1]]
                so = mem.new(st["size"], "heap", a["name"], zero=True)
                self.objs.append((so, "struct"))
                for nme, o, z, t in st["members"]:
                    if t.endswith("*"):
                        if rng.random() < 0.8:
                            fo = mem.new(8, "heap", "%s->%s" % (a["name"], nme), zero=True)
                            self.objs.append((fo, ("B", 1)))
                            struct.pack_into("<Q", so.data, o, fo.addr)
                    elif z == 4:
                        struct.pack_into("<i", so.data, o, rng.randrange(1, 5))
                args.append(so.addr)
            elif k == "buf":
                di = (a.get("di") or "void*").replace("const ", "").strip()
                fmt = CTY.get(di[:-1], ("B", 1))
                if ("il", i) in self.v:
                    o = mem.new(4, "arg", a["name"], zero=True)
                    o.data[:3] = self.v[("il", i)].encode()[:3]
                    self.objs.append((o, ("B", 1)))
                elif fmt[0] == "b" and di == "char*" and not callable(self.hints.get(i)) and (isinstance(self.hints.get(i), list) or "const" in (a.get("di") or "") or re.search("path|name|file|wave", (a["name"] or "").lower())):
                    s = (self.hints.get(i) or ["p%d" % rng.randrange(9)])
                    s = rng.choice(s).encode() + b"\0"
                    self.text[i] = s[:-1].decode()
                    fh = self.hints.get("@file")
                    fh = fh.get(i) if isinstance(fh, dict) else fh
                    if fh:
                        mem.given[s[:-1]] = fh(rng, self.pool.get("any") or ())
                    o = mem.new(len(s), "arg", a["name"], zero=True)
                    o.data[:] = s
                    self.objs.append((o, ("B", 1)))
                else:
                    h = self.hints.get(i)
                    n = None
                    st = self.hints.get("style")
                    if di.endswith("struct point*"):
                        fmt, st = ("i", 4), (-2, 8)
                    if callable(h):
                        n = h(lambda nm: self.byname(nm))
                    if n is None:
                        n = 512
                    n = max(0, int(n))
                    if self.hints.get("@heap") == "vector":
                        # a growable array: size and capacity in front of the elements
                        if di[:-1] in self.mod.structs:
                            fmt = ("B", self.mod.structs[di[:-1]]["size"])
                        if di.endswith("struct point*"):
                            fmt = ("B", 8)
                        cap = rng.choice([1, 1, 2, 3, 4, 8])
                        n = rng.choice([cap, cap, rng.randrange(0, cap + 1)])
                        if callable(h):
                            n = max(0, int(h(lambda nm: self.byname(nm))))
                            cap = max(cap, n)
                        o = mem.new(16 + cap * fmt[1], "heap", a["name"], zero=True)
                        struct.pack_into("<QQ", o.data, 0, n, cap)
                        for b in range(16, 16 + n * fmt[1]):
                            o.data[b] = rng.randrange(1, 64)
                        self.objs.append((o, "struct"))
                        args.append(o.addr + 16)
                        continue
                    o = mem.new(n * fmt[1], "arg", a["name"])
                    self.content(mem, o.addr, fmt, n, rng, st)
                    self.objs.append((o, fmt))
                args.append(o.addr)
            else:
                args.append(self.v[("arg", i)])
        return args

    def byname(self, nm):
        return self.get(nm)

    def describe(self):
        out = []
        for i, a in enumerate(self.f["args"]):
            n = a["name"]
            if i in self.null:
                out.append("%s=NULL" % n)
                continue
            k = self.kind.get(i)
            if k in ("HyperMat", "SIMPLE_MAT", "STRUCT_2D"):
                fo = fieldoff(self.mod, k)
                s = ["%s=%s" % (x, self.v[("fld", i, o)]) for x, o in fo.items() if ("fld", i, o) in self.v]
                if k == "HyperMat":
                    s.append(self.v[("il", i)])
                out.append("%s{%s}" % (n, " ".join(s)))
            elif i in self.text:
                out.append('%s="%s"' % (n, self.text[i]))
            elif ("arg", i) in self.v:
                out.append("%s=%s" % (n, float(self.v[("arg", i)]) if isinstance(self.v[("arg", i)], Fraction) else self.v[("arg", i)]))
        return ", ".join(out)


class Outcome:
    pass


def instantiate(S, f, gen, seed, garbage, jitter=None):
    mem = Mem(garbage)
    mem.jitter = random.Random(jitter) if jitter is not None else None
    mem.strict = f["name"].startswith("spec_") or "spec_direct" in f["name"]
    mem.stdout = bool(gen.hints.get("@stdout"))
    mem.drawn = random.Random(seed).randrange(1000)
    o = Outcome()
    o.mem = mem
    ev = Evaluator(S, mem, PURE_OURS, {})
    try:
        args = gen.build(mem, seed)
    except struct.error:
        raise Unknown("field value")
    o.objs = list(gen.objs)
    o.nin = len(mem.objs)
    summ = S.summary(f["name"])
    ev.collect(summ)
    try:
        o.ret = Frame(ev, f, summ, args).run()
        o.kind = "ok"
    except Reject:
        o.kind = "reject"
    except Fault as e:
        o.kind = "fault"
        o.msg = str(e)
    except Hang as e:
        o.kind = "hang"
        o.msg = str(e)
    return o


def close(a, b):
    if a == b:
        return True
    if math.isnan(a) and math.isnan(b):
        return True
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= 2e-4 * max(1.0, abs(a), abs(b))


def cmp_region(ma, oa, mb, ob, n, fmt, off_a=0, off_b=0):
    """first differing element index or None; only where the reference defined the bytes"""
    ch, w = fmt
    if w == 1 or ch not in ("f", "d"):
        for k in range(n):
            if ob.init[off_b + k] and (oa.data[off_a + k] != ob.data[off_b + k] or not oa.init[off_a + k]):
                return k // w
        return None
    for k in range(0, n - w + 1, w):
        if not ob.init[off_b + k]:
            continue
        if not oa.init[off_a + k]:
            return k // w
        x = struct.unpack_from("<" + ch, oa.data, off_a + k)[0]
        y = struct.unpack_from("<" + ch, ob.data, off_b + k)[0]
        if not close(x, y):
            return k // w
    return None


def deep_ret(mod, f, a, b):
    """compare returned values; None if the same"""
    di = f.get("rdi") or ""
    ra, rb = a.ret, b.ret
    if "*" in di:
        if (ra == 0) != (rb == 0):
            return "returns %s instead of %s" % ("NULL" if ra == 0 else "an object", "NULL" if rb == 0 else "an object")
        if ra == 0:
            return None
        ka, kb = (int(ra) >> 24) - 1, (int(rb) >> 24) - 1
        if ka < a.nin or kb < b.nin:
            return None if ra == rb else "returns a different object"
        for sn in ("HyperMat", "SIMPLE_MAT", "STRUCT_2D"):
            if sn + "*" in di:
                return deep_struct(mod, sn, a, ra, b, rb)
        return deep_block(mod, di.replace("const ", "").replace("struct ", "").strip()[:-1], a, ra, b, rb)
    if ra is None and rb is None:
        return None
    if ra is None or rb is None:
        return "returns nothing"
    if isinstance(ra, (float, Fraction)) or isinstance(rb, (float, Fraction)) or di in ("float", "double"):
        if not close(float(ra), float(rb)):
            return "returns %s instead of %s" % (float(ra), float(rb))
        return None
    if ra != rb:
        return "returns %s instead of %s" % (ra, rb)
    return None


def deep_block(mod, ty, a, pa, b, pb, depth=0):
    """a fresh block of another type: the bytes the reference defines, and the blocks it points to"""
    try:
        oa, xa = a.mem.find(pa, 0, "read of the result")
        ob, xb = b.mem.find(pb, 0, "read of the reference's result")
    except Fault as e:
        return str(e) if "reference" not in str(e) else None
    n = ob.size - xb
    if oa.size - xa < n:
        return "the result's block has %d bytes instead of %d" % (oa.size - xa, n)
    if depth == 0 and 0 < xb <= 64:
        # a header in front of the elements
        if xa != xb:
            return "the result starts at byte %d of its block instead of %d" % (xa, xb)
        for k in range(xb):
            if ob.init[k] and (oa.data[k] != ob.data[k] or not oa.init[k]):
                return "the header in front of the result differs"
    if ty in mod.structs:
        for nme, o, z, t in mod.structs[ty]["members"]:
            if o + z > n:
                continue
            if t.endswith("*"):
                if not all(ob.init[xb + o:xb + o + 8]):
                    continue
                qa, qb = struct.unpack_from("<Q", oa.data, xa + o)[0], struct.unpack_from("<Q", ob.data, xb + o)[0]
                if qa == 0 or qb == 0:
                    if qa != qb:
                        return "the result's %s is %s" % (nme, "NULL" if qa == 0 else "not NULL")
                elif depth < 2:
                    r = deep_block(mod, t.replace("struct ", "")[:-1], a, qa, b, qb, depth + 1)
                    if r:
                        return "%s: %s" % (nme, r)
            else:
                for k in range(o, o + z):
                    if ob.init[xb + k] and (oa.data[xa + k] != ob.data[xb + k] or not oa.init[xa + k]):
                        return "the result's %s differs" % nme
        return None
    fmt = CTY.get(ty, ("B", 1))
    k = cmp_region(a.mem, oa, b.mem, ob, n, fmt, xa, xb)
    if k is not None:
        return "the result differs at element %d: %s instead of %s" % (k, el(oa, xa, k, fmt), el(ob, xb, k, fmt))
    return None


def deep_struct(mod, sn, a, pa, b, pb):
    fo = fieldoff(mod, sn)
    oa, xa = a.mem.find(pa, mod.structs[sn]["size"], "read of the result")
    ob, xb = b.mem.find(pb, mod.structs[sn]["size"], "read of the result")
    for n, o, z, t in mod.structs[sn]["members"]:
        if n in ("data", "wavelength"):
            continue
        if oa.data[xa + o:xa + o + z] != ob.data[xb + o:xb + o + z]:
            return "the result's %s is %s instead of %s" % (n, fv(oa, xa + o, z), fv(ob, xb + o, z))
    g = {n: struct.unpack_from("<i", ob.data, xb + o)[0] for n, o, z, t in mod.structs[sn]["members"] if z == 4}
    if sn == "HyperMat":
        n, fmt = g["samples"] * g["lines"] * g["bands"], DTF.get(g["data_type"], ("B", 1))
    elif sn == "SIMPLE_MAT":
        n, fmt = g["rows"] * g["cols"] * g["channels"], DTF.get(g["data_type"], ("B", 1))
    else:
        n, fmt = g["width"] * g["height"], ("B", 1)
    todo = [("data", n, fmt)]
    if sn == "HyperMat":
        todo.append(("wavelength", g["bands"], ("f", 4)))
    for nme, n, fmt in todo:
        qa = struct.unpack_from("<Q", oa.data, xa + fo[nme])[0]
        qb = struct.unpack_from("<Q", ob.data, xb + fo[nme])[0]
        if qb == 0 or qa == 0:
            if qa != qb:
                return "the result's %s is %s" % (nme, "NULL" if qa == 0 else "not NULL")
            continue
        ka, kb = (qa >> 24) - 1, (qb >> 24) - 1
        if kb < b.nin or ka < a.nin:
            if qa != qb:
                return "the result's %s points elsewhere" % nme
            continue
        try:
            da, ya = a.mem.find(qa, n * fmt[1], "read of the result's %s" % nme)
        except Fault as e:
            return str(e)
        db, yb = b.mem.find(qb, n * fmt[1], "read of the reference's %s" % nme)
        k = cmp_region(a.mem, da, b.mem, db, n * fmt[1], fmt, ya, yb)
        if k is not None:
            return "the result's %s differs at element %d: %s instead of %s" % (nme, k, el(da, ya, k, fmt), el(db, yb, k, fmt))
    return None


def el(o, off, k, fmt):
    if not o.init[off + k * fmt[1]]:
        return "uninitialised"
    return struct.unpack_from("<" + fmt[0], o.data, off + k * fmt[1])[0]


def fv(o, off, z):
    if z == 4:
        return struct.unpack_from("<i", o.data, off)[0]
    return bytes(o.data[off:off + z])


def diff(mod, f, a, b):
    """a: library, b: reference (both completed)"""
    r = deep_ret(mod, f, a, b)
    if r:
        return ("value", r)
    for (oa, fmt), (ob, _) in zip(a.objs, b.objs):
        if oa.freed and ob.freed:
            continue
        if fmt == "struct":
            if oa.data != ob.data:
                k = next(i for i in range(oa.size) if oa.data[i] != ob.data[i])
                return ("value", "%s: the field at offset %d differs" % (oa.name, k))
            continue
        k = cmp_region(a.mem, oa, b.mem, ob, oa.size, fmt)
        if k is not None:
            return ("value", "%s differs at element %d: %s instead of %s" % (oa.name, k, el(oa, 0, k, fmt), el(ob, 0, k, fmt)))
    for oa, ob in zip(list(a.mem.objs)[:a.nin], list(b.mem.objs)[:b.nin]):
        if oa.freed != ob.freed:
            return ("value", "%s %s" % ("releases" if oa.freed else "does not release", oa.name or "an object of its caller"))
    la, lb = flog(a.mem.log), flog(b.mem.log)
    if la != lb:
        return ("value", "file operations differ: %s instead of %s" % (str(la)[:200], str(lb)[:200]))
    return None


def flog(log):
    out = {b"stdout": ["w", b""]}
    order = []
    for e in log:
        if e[0] == "open":
            out[e[1]] = [e[2], b""]
            order.append(e[1])
        elif e[0] == "write":
            out[e[1]][1] += e[2]
    return sorted((k, v[0], v[1]) for k, v in out.items())


def pool_of(canons, args=()):
    """values suggested by comparisons with constants: {("arg", i) | ("fld", i, off): [values]}"""
    pool = {}

    def keyatom(a):
        if a[0] == "arg" or a[0] == "fld" and a[1][0] == "arg" and isinstance(a[2], int):
            return True
        if a[0] in ("es", "div", "rem", "zx", "sx", "tr"):
            return "iv" if all(keyatom(sym.atom_of(i)) for y in a[1:] if isinstance(y, Poly) for i in y.atom_ids()) else None
        return "iv" if a[0] == "iv" else None

    def inner(a, out):
        if a[0] == "fld" and a[1][0] == "arg" and isinstance(a[2], int):
            out.append(("fld", a[1][1], a[2]))
        elif a[0] == "arg":
            out.append(("arg", a[1]))
        else:
            for y in a[1:]:
                if isinstance(y, Poly):
                    for i in y.atom_ids():
                        inner(sym.atom_of(i), out)

    fargs = {("arg", i) for i, a in enumerate(args) if a["ty"] in ("float", "double")}

    def big(n):
        n = int(n)
        if 2 <= n <= 200000 and n not in pool.setdefault("big", []):
            pool["big"].append(n)

    def add(c):
        if c[0] not in ("gt0", "eq0", "fgt0"):
            return
        p = c[1]
        at = [x for x in p.d if x]
        if len(at) != 1 or len(at[0]) != 1 or at[0][0][1] != 1:
            ks = [keyatom(sym.atom_of(i)) for i in p.atom_ids()]
            if all(k is True for k in ks):
                pool.setdefault("targets", []).append(p)
            elif all(ks) and abs(p.d.get((), 0)) >= 6:
                big(abs(p.d.get((), 0)) + 2)
            return
        if sym.atom_of(at[0][0][0])[0] == "iv" and abs(p.d.get((), 0)) >= 6:
            big(abs(p.d.get((), 0)) + 2)
        if sym.atom_of(at[0][0][0])[0] == "rem":
            big(2)
        a = sym.atom_of(at[0][0][0])
        k = ("fld", a[1][1], a[2]) if a[0] == "fld" and a[1][0] == "arg" and isinstance(a[2], int) else ("arg", a[1]) if a[0] == "arg" else None
        if k is None and a[0] in ("ld", "zx", "sx", "fn") and not (a[0] == "ld" and isinstance(a[1], tuple) and a[1][0] == "ret" and isinstance(a[2], Poly) and a[2].cval() is not None):
            k = "content"
        if k is None and a[0] in ("ite", "div", "es", "mul"):
            # a clamped or scaled argument: the constant itself is a candidate value of what is inside
            sub = []
            inner(a, sub)
            if len(set(sub)) == 1:
                k = sub[0]
        x = -Fraction(p.d.get((), 0)) / Fraction(p.d[at[0]])
        if k is None or k == "content":
            # of what a file holds, perhaps
            for y in (x - 1, x, x + 1):
                if y.denominator == 1 and 2 <= y <= 3000 and int(y) not in pool.setdefault("any", []):
                    pool["any"].append(int(y))
        ks = [k] if k else []
        if not k and a[0] in ("fld", "ld"):
            # a header field of something made from an argument
            o = a[2].cval() if isinstance(a[2], Poly) else a[2]
            if isinstance(o, int) or o is not None and o == int(o):
                ks = [("fld", i, int(o)) for i, x in enumerate(args) if re.search("HyperMat\\*|SIMPLE_MAT\\*", x.get("di") or "")]
        if not ks:
            return
        for d in (-1, 0, 1, 2) + ((3 * x,) if ks[0] in fargs else ()):
            y = x + d
            y = int(y) if y.denominator == 1 else y
            for k in ks:
                if abs(y) <= 20000 or k == "content":
                    pool.setdefault(k, [])
                    if y not in pool[k]:
                        pool[k].append(y)
    seen = set()
    narrow = []

    def scan(x):
        if isinstance(x, bool) or x is None:
            return
        if isinstance(x, int):
            for c in bvars_of(x):
                if c in seen:
                    continue
                seen.add(c)
                add(c)
                if c[0] == "isnull" and isinstance(c[1], Ptr) and c[1].base[0] == "arg":
                    pool.setdefault("null", []).append(c[1].base[1])
                for y in c[1:]:
                    if isinstance(y, Poly):
                        scan(y)
        elif isinstance(x, Poly):
            if x in seen:
                return
            seen.add(x)
            for a in x.atoms():
                if a[0] in ("tr", "zx", "sx") and a[1] <= 16 and isinstance(a[2], Poly):
                    if a[2].d and all(keyatom(sym.atom_of(i)) for i in a[2].atom_ids()) and a[2].cval() is None:
                        big((1 << a[1]) + 5)
                    elif a[0] == "tr" or a[1] == 16:
                        narrow.append(a[1])
                if a[0] == "f2i" and len(a) > 2 or a[0] == "fn" and a[1] in ("rnd64", "round64"):
                    pool.setdefault("content", [])
                    pool["content"] += [y for y in (3000000000, -3000000000, 2 ** 31, -2 ** 31 - 512, 2 ** 40, 10 ** 20, -10 ** 20) if y not in pool["content"]]
                if a[0] == "rem" and isinstance(a[2], Poly) and a[2].cval() is not None:
                    big(abs(a[2].cval()) + 1)
                for y in a[1:]:
                    if isinstance(y, (Poly, Ptr, PIte)) or (isinstance(y, int) and a[0] == "ite"):
                        scan(y)
        elif isinstance(x, Ptr):
            scan(x.off)
        elif isinstance(x, PIte):
            scan(x.c)
            scan(x.a)
            scan(x.b)
    for c in canons:
        for r in c.recs:
            scan(r.guard)
            for p in r.parts():
                scan(p)
            for _, n in r.nest:
                scan(n)
        scan(c.facts)
        if c.ret is not None:
            scan(c.ret)
    if narrow:
        # sums kept in a narrow type: many bright elements
        pool["sat"] = sorted(set(narrow))
    return pool


def ill(S, f, g, gen, seed, a, b):
    """the instance is ill-conditioned: rounding stored values the other way changes the reference's or the code's result,
    so that a difference between the two says nothing"""
    for j in range(3):
        for h, o, garbage in ((g, b, 0x5A), (f, a, 0xA5)):
            try:
                p = instantiate(S, h, gen, seed, garbage, jitter=j)
            except (Unknown, OverflowError):
                continue
            if p.kind != o.kind or p.kind == "ok" and diff(S.mod, h, p, o):
                return True
    return False


def undef(S, f, gen, seed, a, b, w):
    """the difference depends on what the storage held before it was assigned"""
    if "uninitialised" in w[1]:
        return ("undef", w[1])
    try:
        c = instantiate(S, f, gen, seed, 0x11)
    except (Unknown, OverflowError):
        return None
    if c.kind != a.kind:
        return ("undef", "what it does depends on storage that was never assigned")
    d = diff(S.mod, f, c, b) if c.kind == "ok" else w
    return ("undef", "%s, depending on storage that was never assigned" % w[1]) if d != w else None


def search(S, fname, specname, hints=None, n=60, seed=1, kinds=("value", "fault", "reject", "accepts"), canons=None, stats=None):
    """returns (witness | None, statistics)"""
    mod = S.mod
    f, g = mod.fn(fname), mod.fn(specname)
    facts = []
    for e, loops, gd in walk(S.summary(g["name"]).effs):
        if e.kind == "fact" and not loops and gd == 1:
            facts += literals(e.val)
    pool = pool_of(canons[:2], f["args"]) if canons else {}
    if canons and len(canons) > 2:
        # the method that the wrapper calls has fields of its own: what it compares with constants may be any extent here
        inside = pool_of(canons[2:])
        if inside.get("big"):
            pool["big"] = pool.get("big", []) + [y for y in inside["big"] if y not in pool.get("big", ())]
        own = sorted({y for k, v in inside.items() if k[0] in ("fld", "arg") for y in v if isinstance(y, int) and 0 < y <= 3000})
        for i, a in enumerate(f["args"]) if own else ():
            if "HyperMat*" in (a.get("di") or ""):
                for o in ("samples", "lines", "bands"):
                    k = ("fld", i, fieldoff(mod, "HyperMat")[o])
                    pool[k] = sorted(set(pool.get(k, [])) | set(own))
            elif a["ty"] == "i32" and not re.search("type|format", (a["name"] or "").lower()) and a["name"] not in ("t", "f"):
                pool[("arg", i)] = sorted(set(pool.get(("arg", i), [])) | set(own))
    if canons:
        # NULL is tried only for arguments whose NULL-ness the reference mentions
        ref = pool_of(canons[1:2])
        pool["null"] = ref.get("null", [])
        pool["narrower"] = set(pool.get("sat", ())) - set(ref.get("sat", ()))
        for e, loops, gd in walk(S.summary(fname).effs):
            if e.kind == "alloca" and isinstance(e.size, Poly) and e.size.cval() is not None:
                for w in (1, 4, 8):
                    x = int(e.size.cval()) // w + 1
                    if 4 < x < 3000:
                        pool.setdefault("big", []).append(x)
    if kinds == ("accepts",):
        pool["violate"] = True
    if kinds == ("undef",):
        pool.setdefault("any", []).append(-1)
    late = None
    st = stats if stats is not None else {}
    st.update({"tried": 0, "compared": 0, "unknown": 0, "rejected": 0, "why": {}})
    t0 = time.process_time()
    for k in range(24 * n):
        # cheap instances are tried more often
        done = st["compared"] - (st["rejected"] if kinds != ("accepts",) else 0)
        if done >= n and (time.process_time() - t0 > min(n / 20, 8) or done >= 4 * n) or k >= 6 * n and done < n:
            break
        rng = random.Random("%s/%d/%d" % (fname, seed, k))
        try:
            gen = Gen(mod, f, rng, hints, facts, pool)
            st["tried"] += 1
            b = instantiate(S, g, gen, seed * 1000 + k, 0x5A)
        except Unknown as e:
            st["unknown"] += 1
            st["why"]["ref: " + str(e)] = st["why"].get("ref: " + str(e), 0) + 1
            continue
        if b.kind in ("fault", "hang"):
            st["why"]["ref fault: " + b.msg] = st["why"].get("ref fault: " + b.msg, 0) + 1
            continue
        if kinds == ("accepts",):
            if b.kind != "reject":
                continue
        elif b.kind == "reject" and st["rejected"] > max(n, done) // 3:
            continue
        try:
            a = instantiate(S, f, gen, seed * 1000 + k, 0xA5)
        except Unknown as e:
            st["unknown"] += 1
            st["why"]["lib: " + str(e)] = st["why"].get("lib: " + str(e), 0) + 1
            continue
        st["compared"] += 1
        w = None
        if b.kind == "reject":
            st["rejected"] += 1
            if a.kind != "reject" and "accepts" in kinds:
                w = ("accepts", "accepts what the precondition excludes" + (" and then: " + a.msg if a.kind == "fault" else ""))
        elif a.kind == "reject":
            w = ("reject", "rejects an input that satisfies the precondition")
        elif a.kind == "fault":
            w = ("fault", a.msg)
        elif a.kind == "hang":
            w = ("value", a.msg)
        else:
            w = diff(mod, f, a, b)
            if w and "undef" in kinds:
                w = undef(S, f, gen, seed * 1000 + k, a, b, w)
            elif w and not w[1].startswith("read of the result's") and ill(S, f, g, gen, seed * 1000 + k, a, b):
                st["ill"] = st.get("ill", 0) + 1
                w = None
        if w and w[0] in kinds:
            r = {"kind": w[0], "what": w[1], "instance": gen.describe(), "n": k}
            if w[0] != "accepts" or "then:" in w[1]:
                return r, st
            late = late or r
    return late, st
