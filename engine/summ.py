"""Summary extraction: per function, a tree of memory effects over closed-form (loop-counter) indices.

The analysis walks the control-flow graph once per loop nest (no paths are enumerated, nothing is
executed): joins merge with selected values, loops are replaced by their recurrences' closed forms."""
import re
from fractions import Fraction
from sym import *
import sym
from ir import base_name

INTW = re.compile(r"^i(\d+)$")

# pure library helpers that stay symbolic atoms
PURE_FN = {"sqrt", "sqrtf", "pow", "powf", "log", "logf", "log2", "log10", "exp", "expf", "fabs", "fabsf", "cos", "cosf", "sin", "sinf", "tan",
           "atan", "atan2", "acos", "asin", "ceil", "ceilf", "floor", "floorf", "round", "roundf", "lround", "lrint", "nearbyint", "abs", "labs", "fmod", "rint"}
PURE_OURS = {"HYPERCV_ROUND": "rnd", "saturate_cast_float2uchar": "satu8", "hypercv_border_Interpolate": "border",
             "hypercv_factorial": "factorial", "get_optimal_DFT_size": "dftsize"}
# external functions: argument indices whose pointee they write
EXT_WRITES = {"fread": [0], "sscanf": "from2", "fscanf": "from2", "fgets": [0], "sprintf": [0], "snprintf": [0], "strcpy": [0], "strncpy": [0], "strcat": [0],
              "strncat": [0], "memcpy": [0], "memmove": [0], "memset": [0], "qsort": [0], "gets": [0], "getline": [0], "SDL_PollEvent": [0], "SDL_WaitEvent": [0],
              "XNextEvent": [1], "read": [1], "vsprintf": [0]}
NORETURN = {"exit", "abort", "_Exit", "__assert_fail"}


class Eff:
    """one node of the effect tree"""
    __slots__ = ("kind", "base", "off", "size", "val", "guard", "loc", "name", "args", "cid", "L", "count", "kids", "exact", "aux", "pre", "ty", "ver", "iid", "exits", "regs", "bottom")

    def __init__(self, kind, guard, loc, **kw):
        for s in self.__slots__:
            setattr(self, s, None)
        self.kind = kind
        self.guard = guard
        self.loc = loc
        for k, v in kw.items():
            setattr(self, k, v)

    def map(self, f):
        e = Eff(self.kind, None, self.loc)
        for s in self.__slots__:
            v = getattr(self, s)
            if s in ("kind", "loc", "name", "L", "exact", "ty", "iid", "bottom"):
                setattr(e, s, v)
            elif s == "kids":
                setattr(e, s, [k.map(f) for k in v] if v is not None else None)
            elif s == "guard":
                e.guard = f(v) if v is not None else None
            elif s == "exits":
                e.exits = [f(x) for x in v] if v is not None else None
            elif s == "regs":
                e.regs = [tuple(f(x) for x in r) for r in v] if v is not None else None
            elif v is None:
                pass
            elif isinstance(v, int) and s != "val":
                setattr(e, s, v)
            elif s == "base":
                e.base = f(("BASE", v))
            else:
                setattr(e, s, f(v))
        if e.base is not None and isinstance(e.base, Ptr):
            e.off = e.base.off + e.off
            e.base = e.base.base
        return e

    def __repr__(self):
        g = "" if self.guard in (1, None) else " if " + show_bool(self.guard)
        if self.kind == "st":
            return "st %s[%s]:%s = %s%s @%s" % (show_base(self.base), show(self.off), self.size, show(self.val), g, self.loc)
        if self.kind == "ld":
            return "ld %s[%s]:%s%s" % (show_base(self.base), show(self.off), self.size, g)
        if self.kind == "cpy":
            return "cpy %s[%s] <- %r len %s%s" % (show_base(self.base), show(self.off), self.val, show(self.size), g)
        if self.kind == "set":
            return "set %s[%s] = %s len %s%s" % (show_base(self.base), show(self.off), show(self.val), show(self.size), g)
        if self.kind == "call":
            return "call %s(%s)%s @%s" % (self.name, ", ".join(show(a) for a in self.args), g, self.loc)
        if self.kind == "fact":
            return "assume %s%s" % (show_bool(self.val), g)
        if self.kind == "loop":
            return "loop %s count %s%s%s" % (self.L, show(self.count) if self.count is not None else "?", "" if self.exact else " (inexact)", g)
        return "%s %r" % (self.kind, self.args)


def dump(effs, ind=0, out=None):
    top = out is None
    if top:
        out = []
    for e in effs:
        out.append("  " * ind + repr(e))
        if e.kind == "loop":
            dump(e.kids, ind + 1, out)
    if top:
        return "\n".join(out)


class State:
    __slots__ = ("cells", "ver")

    def __init__(self, cells=None, ver=None):
        self.cells = cells or {}
        self.ver = ver or {}

    def copy(self):
        return State(dict(self.cells), dict(self.ver))


class Summary:
    def __init__(self):
        self.effs = []
        self.ret = None
        self.facts = []
        self.opaque = []
        self.notes = []


class Summarizer:
    def __init__(self, mod):
        self.mod = mod
        self.cache = {}
        self.stack = []

    def summary(self, name):
        f = self.mod.fn(name) if isinstance(name, str) else name
        if f is None:
            return None
        k = f["name"]
        if k in self.cache:
            return self.cache[k]
        if k in self.stack:
            return None
        self.stack.append(k)
        try:
            s = FnSummary(self, f).run()
        finally:
            self.stack.pop()
        self.cache[k] = s
        return s

    def mods(self, name):
        """set of (argindex, path) possibly written by a repository function; path '' = *arg, or field offset of pointer = *(arg->field)"""
        s = self.summary(name)
        if s is None:
            return None
        if getattr(s, "modset", None) is None:
            out = set()

            def key(b):
                if b[0] == "arg":
                    return (b[1], "")
                if b[0] == "ldp":
                    k = key(b[1])
                    if k and k[1] == "":
                        return (k[0], b[2] if isinstance(b[2], int) else "*")
                    if k:
                        return (k[0], "*")
                if b[0] == "pite":
                    return None
                return None

            def walk(es):
                for e in es:
                    if e.kind in ("st", "cpy", "set"):
                        for bb in base_alts(e.base):
                            k = key(bb)
                            if k:
                                if k[1] == "" and e.kind == "st" and e.off.cval() is not None:
                                    out.add((k[0], ("cell", e.off.cval())))
                                else:
                                    out.add(k)
                    elif e.kind == "call":
                        for bb in call_writes(self, e):
                            k = key(bb[0])
                            if k:
                                if k[1] == "" and isinstance(bb[1], int):
                                    out.add((k[0], ("cell", bb[1])))
                                else:
                                    out.add(k)
                    elif e.kind == "loop":
                        walk(e.kids)
            walk(s.effs)
            s.modset = out
        return s.modset


def base_alts(b):
    if b and b[0] == "alt":
        for x in b[1:]:
            yield from base_alts(x)
    else:
        yield b


def ptr_alts(p):
    if isinstance(p, PIte):
        return ptr_alts(p.a) + ptr_alts(p.b)
    if isinstance(p, Ptr):
        return [p]
    return []


def call_writes(S, e):
    """(base, cell offset | None) pairs an external/repository call may write, from its arguments"""
    out = []
    n = e.name
    if n in EXT_WRITES:
        w = EXT_WRITES[n]
        idx = range(2, len(e.args)) if w == "from2" else w
        for i in idx:
            if i < len(e.args):
                for p in ptr_alts(e.args[i]):
                    out.append((p.base, None))
        return out
    f = S.mod.fn(n)
    if f is None or not S.mod.ours(f):
        return out
    ms = S.mods(n)
    if ms is None:
        for a in e.args:
            for p in ptr_alts(a):
                out.append((p.base, None))
        return out
    for (i, path) in ms:
        if i < len(e.args):
            for p in ptr_alts(e.args[i]):
                if path == "":
                    out.append((p.base, None))
                elif isinstance(path, tuple):
                    c = p.off.cval()
                    out.append((p.base, path[1] + c if c is not None else None))
                elif path == "*":
                    out.append((("ldp", p.base, "*"), None))
                else:
                    c = p.off.cval()
                    out.append((("ldp", p.base, (c or 0) + path), None))
    return out


class FnSummary:
    def __init__(self, S, f):
        self.S = S
        self.mod = S.mod
        self.f = f
        self.vals = {}
        self.out = Summary()
        self.out.argty = {k: a["ty"] for k, a in enumerate(f["args"])}
        self.out.fn = f
        self.blocks = {b["id"]: b for b in f["blocks"]}
        self.loops = {l["h"]: l for l in f["loops"]}
        for l in f["loops"]:
            l["set"] = set(l["blocks"])
        self.preds = {b: [] for b in self.blocks}
        for b in f["blocks"]:
            for s in b["succ"]:
                self.preds[s].append(b["id"])
        self.dead = self._deadends()
        self.ivstack = []
        self.tick = 0
        self.argbase = {}
        for i, a in enumerate(f["args"]):
            b = ("arg", i)
            NAMES_local = a["name"]
            self.argbase[i] = b
        self.basety = {}   # base -> DI struct name (if it points to a struct)
        for i, a in enumerate(f["args"]):
            self.basety[("arg", i)] = structname(a.get("di"))

    # ------------------------------------------------------------ CFG helpers
    def _deadends(self):
        """blocks from which no return is reachable"""
        live = set()
        st = [b["id"] for b in self.f["blocks"] if b["is"] and b["is"][-1]["op"] == "ret"]
        while st:
            x = st.pop()
            if x in live:
                continue
            live.add(x)
            st += self.preds[x]
        # calls to noreturn functions end a block even without 'unreachable'
        return {b for b in self.blocks if b not in live}

    def loc(self, ins):
        return (self.mod.rel(ins.get("file") or self.f.get("file") or "?"), ins.get("ln") or 0)

    # ------------------------------------------------------------ main
    def run(self):
        entry = self.f["blocks"][0]["id"]
        effs = []
        st = State()
        rets = []
        self.rets = rets
        self.region(entry, set(self.blocks), None, st, 1, effs)
        self.out.effs = effs
        self.out.rets = rets
        if rets:
            v = rets[0][1]
            for g, w, l in rets[1:]:
                v = ite(g, w, v) if v is not None and w is not None else None
            self.out.ret = v
            self.out.exit_state = rets[0][2]
        self.out.basety = self.basety
        self.out.vals = self.vals
        return self.out

    def region(self, start, blocks, loop, st0, g0, effs):
        """evaluate an acyclic region; returns (latch edges, exit edges)"""
        order = self.topo(start, blocks, loop)
        edges = {}          # (pred, succ) -> (guard, state)
        inn = {start: [(None, g0, st0)]}
        latch, exits = [], []

        def push(p, s, g, st):
            if g == 0:
                return
            if s in self.dead:
                return
            if loop is not None and s == loop["h"]:
                latch.append((p, g, st))
            elif s not in blocks:
                exits.append((p, s, g, st))
            else:
                inn.setdefault(s, []).append((p, g, st))
        for b in order:
            ins = inn.get(b)
            if not ins:
                continue
            if b in self.loops and (loop is None or b != loop["h"]):
                g, st = self.merge(b, ins)
                for (p, s, eg, est) in self.exec_loop(self.loops[b], ins, g, st, effs):
                    push(p, s, eg, est)
                continue
            g, st = self.merge(b, ins)
            if b != start or loop is None:
                self.phis(b, ins, g)
            self.block(b, g, st, effs, push)
        return latch, exits

    def topo(self, start, blocks, loop):
        """topological order of the region, inner loops collapsed onto their header"""
        inner = {}
        for h, l in self.loops.items():
            if (loop is None or h != loop["h"]) and l["set"] <= blocks:
                pass
        # map block -> representative (outermost inner loop header)
        rep = {}
        for b in blocks:
            r = b
            # climb
            best = None
            for h, l in self.loops.items():
                if b in l["set"] and l["set"] <= blocks and (loop is None or h != loop["h"]) and not (loop is not None and l["set"] == loop["set"]):
                    if best is None or len(self.loops[best]["set"]) < len(l["set"]):
                        best = h
            rep[b] = best if best is not None else b
        succ = {}
        for b in blocks:
            for s in self.blocks[b]["succ"]:
                if s in blocks and not (loop is not None and s == loop["h"]):
                    if rep[b] != rep[s]:
                        succ.setdefault(rep[b], []).append(rep[s])
        seen, post = set(), []

        def dfs(x):
            stack = [(x, iter(succ.get(x, [])))]
            seen.add(x)
            while stack:
                n, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        stack.append((y, iter(succ.get(y, []))))
                        break
                else:
                    post.append(n)
                    stack.pop()
        dfs(start)
        return post[::-1]

    def merge(self, b, ins):
        if len(ins) == 1:
            return ins[0][1], ins[0][2].copy()
        G = 0
        for _, g, _ in ins:
            G = bor(G, g)
        lits = literals(G)

        def rel(g):
            for c, v in lits:
                g = brestrict(g, c, v)
            return g
        st = ins[-1][2].copy()
        keys = set()
        for _, _, s in ins:
            keys |= set(s.cells)
        for k in keys:
            if k[0][0] == "alloca" and any(k not in s.cells and self.overwritten(k, s) for _, _, s in ins):
                st.cells.pop(k, None)
                continue
            vs = [(rel(g), s.cells.get(k)) for _, g, s in ins]
            v = vs[-1][1]
            if v is None:
                v = self.cell_init(k, ins[-1][2])
            for (g, w), (_, _, ws) in zip(vs[:-1], ins):
                if w is None:
                    w = self.cell_init(k, ws)
                v = ite(g, w, v) if type(v) == type(w) or isinstance(v, (Ptr, PIte)) == isinstance(w, (Ptr, PIte)) else A("opq", "cell", b, str(k))
            st.cells[k] = v
        vk = set()
        for _, _, s in ins:
            vk |= set(s.ver)
        for k in vk:
            t = {s.ver.get(k, 0) for _, _, s in ins}
            if len(t) == 1:
                st.ver[k] = t.pop()
            else:
                st.ver[k] = ("mg",) + tuple(sorted(t, key=repr))
        return G, st

    def overwritten(self, k, st):
        v = st.ver.get(k[0], 0)
        return v != 0 and self.covered(k[0], k[1], k[2], st) is None

    def cell_init(self, k, st):
        base, off, kind = k
        return self.init_cell(base, off, kind, st)

    def phis(self, b, ins, G):
        lits = literals(G)

        def rel(g):
            for c, v in lits:
                g = brestrict(g, c, v)
            return g
        new = {}
        for i in self.blocks[b]["is"]:
            if i["op"] != "phi":
                break
            inc = {p: o for p, o in i["inc"]}
            v = None
            for p, g, st in reversed(ins):
                if p not in inc:
                    continue
                w = self.opnd(inc[p], i["ty"])
                v = w if v is None else (ite(rel(g), w, v) if compat(v, w) else A("opq", "phi", self.f["name"], i["i"]))
            new[i["i"]] = v if v is not None else A("opq", "phi", self.f["name"], i["i"])
        self.vals.update(new)

    # ------------------------------------------------------------ loops
    def exec_loop(self, l, ins, g, st, effs):
        h = l["h"]
        L = ("L", self.f["name"], h)
        iv = ("iv", L)
        phis = [i for i in self.blocks[h]["is"] if i["op"] == "phi"]
        inits = {}
        for i in phis:
            inc = {p: o for p, o in i["inc"]}
            lits = literals(g)
            v = None
            for p, gg, s in reversed(ins):
                if p in inc:
                    w = self.opnd(inc[p], i["ty"])
                    for c, b in lits:
                        gg = brestrict(gg, c, b)
                    v = w if v is None else (ite(gg, w, v) if compat(v, w) else A("opq", "phi", self.f["name"], i["i"]))
            inits[i["i"]] = assume(v, lits) if isinstance(v, PIte) else v
        # pass 1: find the memory the loop changes
        saved_effs = len(effs)
        changed_cells, changed_vers = set(), set()
        killed = set()
        for attempt in range(6):
            st1 = st.copy()
            for k in killed:
                st1.cells.pop(k, None)
            for v in changed_vers:
                st1.ver[v] = ("lv", A("iv", L), st.ver.get(v, 0))
            place = {}
            for i in phis:
                place[i["i"]] = self.placeholder(inits[i["i"]], ("phi", L, i["i"]), i["ty"])
            cellph = {}
            for k in changed_cells - killed:
                init = st.cells.get(k)
                if init is None:
                    init = self.init_cell(k[0], k[1], k[2], st)
                inits[("c", k)] = init
                cellph[k] = self.placeholder(init, ("phi", L, ("c", k[1], str(k[0]))), None)
                st1.cells[k] = cellph[k]
            self.vals.update(place)
            self.ivstack.append(A("iv", L))
            kids = []
            nk = len(killed)
            latch, exits = self.region(h, l["set"], l, st1, 1, kids)
            self.ivstack.pop()
            cc, cv = set(changed_cells), set(changed_vers)
            for p, gg, s in latch:
                for k, v in s.cells.items():
                    if st1.cells.get(k) != v and st1.cells.get(k, None) is None:
                        # first touched in the loop: a load creating its initial cell is not a change
                        if v != self.init_cell(k[0], k[1], k[2], st1):
                            cc.add(k)
                    elif st1.cells.get(k) != v:
                        cc.add(k)
                for k in st1.cells:
                    if k not in s.cells:
                        # overwritten through a variable index: memory, not a scalar, from here on
                        killed.add(k)
                        cc.add(k)
                for k, v in s.ver.items():
                    if st1.ver.get(k, 0) != v:
                        cv.add(k)
            if cc == changed_cells and cv == changed_vers and nk == len(killed):
                break
            changed_cells, changed_vers = cc, cv
        # recurrences
        nexts = {}
        if latch:
            G, ls = self.merge(h, latch) if len(latch) > 1 else (latch[0][1], latch[0][2])
            for i in phis:
                inc = {p: o for p, o in i["inc"]}
                v = None
                lits = literals(G)
                for p, gg, s in reversed(latch):
                    if p in inc:
                        w = self.opnd(inc[p], i["ty"])
                        for c, b in lits:
                            gg = brestrict(gg, c, b)
                        v = w if v is None else (ite(gg, w, v) if compat(v, w) else A("opq", "phi", self.f["name"], i["i"]))
                nexts[i["i"]] = v
            for k in changed_cells - killed:
                nexts[("c", k)] = ls.cells.get(k)
                if nexts[("c", k)] is None:
                    nexts[("c", k)] = A("opq", "killed", str(k))
        phs = dict(place)
        for k, v in cellph.items():
            phs[("c", k)] = v
        sigma = self.solve(L, phs, inits, nexts)
        regs = self.regs
        memo = {}
        F = mapper(sigma, memo)
        # closed forms may mention placeholders of others solved later
        for _ in range(3):
            left = {a for a in sigma if any(depends(v, {a}) for v in sigma.values() if isinstance(v, Poly))}
            if not left:
                break
            sigma = {a: F(v) for a, v in sigma.items()}
            memo = {}
            F = mapper(sigma, memo)
        regs = [(m, i0, F(nx)) for m, i0, nx in regs]
        # trip count
        live_exits = exits
        exact = True
        count = None
        exit_blocks = {e[0] for e in live_exits}
        if len(exit_blocks) == 1 and live_exits:
            eb = next(iter(exit_blocks))
            eg = 0
            for e in live_exits:
                eg = bor(eg, F(e[2]))
            count = self.tripcount(L, bnot(eg))
            if count is None:
                exact = False
            bottom = self.dominates_effects(l, eb, kids)
        else:
            exact = False
            bottom = False
            # several exits: a dominating counter bound still limits the trip count from above
        if count is None:
            n = A("cnt", L)
            if self.ivstack:
                n = A("cnt", L, *self.ivstack)
        else:
            n = count
        if exact:
            # inside the body the continue condition holds
            cl = {}
            if eb == h and h not in l["latch"]:
                for c, v in literals(bnot(eg)):
                    if depends_cond(c, {iv}):
                        cl[c] = v
            if cl:
                F0 = F
                am = {}

                def F(x):
                    x = F0(x)
                    if isinstance(x, tuple) and x and x[0] == "BASE":
                        return x
                    if isinstance(x, (Poly, Ptr, PIte)) or (isinstance(x, int) and not isinstance(x, bool)):
                        return assume(x, cl, am)
                    return x
        kids = [k.map(F) for k in kids]
        if exact and cl:
            F = F0
        bodycount = n + ONE if bottom else n
        node = Eff("loop", g, self.loc(self.first_ins(h)), L=L, count=bodycount, kids=kids, exact=exact, bottom=bottom)
        node.exits = [F(e[2]) for e in live_exits]
        node.aux = None
        ub = []
        if not exact:
            for e in live_exits:
                if e[0] == h or self.dom(e[0], l):
                    c = self.tripcount(L, bnot(F(e[2])))
                    if c is not None:
                        ub.append(c)
            node.aux = tuple(ub) if ub else None
        effs.append(node)
        # values visible outside: counter at its final value
        fin = {iv: n}

        def fexit(a):
            if a == iv:
                return n
            return None
        memo2 = {}

        def FX(x):
            return subst(F(x), fexit, memo2)
        node.regs = [(m, i0, nx, subst(m, fexit, memo2)) for m, i0, nx in regs]
        for b in l["set"]:
            for i in self.blocks[b]["is"]:
                if i["i"] in self.vals:
                    self.vals[i["i"]] = FX(self.vals[i["i"]])
        res = []
        for idx, (p, s, eg, est) in enumerate(live_exits):
            ns = State({}, {})
            for k, v in est.cells.items():
                ns.cells[k] = FX(v)
            for k, v in est.ver.items():
                ns.ver[k] = v if k not in changed_vers else ("lx", L, tuple(self.ivstack), st.ver.get(k, 0))
            if len(live_exits) == 1:
                gg = g
            else:
                gg = band(g, self.exitguard(L, idx, len(live_exits), FX(eg)))
            res.append((p, s, gg, ns))
        return res

    def exitguard(self, L, idx, n, eg):
        # which exit is taken is opaque; encode exclusively
        g = 1
        for k in range(idx):
            g = band(g, bnot(bvar(("exit", L, k, tuple(self.ivstack)))))
        if idx < n - 1:
            g = band(g, bvar(("exit", L, idx, tuple(self.ivstack))))
        return g

    def first_ins(self, b):
        for i in self.blocks[b]["is"]:
            if i.get("ln"):
                return i
        return self.blocks[b]["is"][-1]

    def dom(self, b, l):
        return True

    def dominates_effects(self, l, eb, kids):
        """exit test at the end of the body (do-while form): the body runs count+1 times"""
        if eb == l["h"]:
            # a header that is also the latch is a single-block loop: body before test
            if eb in l["latch"]:
                return True
            # effects placed in the header block itself run once more, ignore loads
            return False
        return eb in l["latch"]

    def placeholder(self, init, name, ty):
        if isinstance(init, Ptr) and init.base != NULLBASE:
            return Ptr(init.base, Poly.atom(name))
        if isinstance(init, (Ptr, PIte)):
            return Ptr(("pphi",) + name[1:], ZERO)
        if isinstance(init, int) and not isinstance(init, bool):
            return bvar(("opq",) + name)
        return Poly.atom(name)

    def solve(self, L, phs, inits, nexts):
        """closed forms of the loop-carried values"""
        iv = ("iv", L)
        ivp = Poly.atom(iv)
        sigma = {}
        names = {}
        for k, ph in phs.items():
            if isinstance(ph, Poly):
                names[k] = ph.is_atom()
            elif isinstance(ph, Ptr) and ph.base[0] != "pphi":
                names[k] = ph.off.is_atom()
        pend = dict(names)
        progress = True
        pregs = []
        for k, ph in phs.items():
            if isinstance(ph, Ptr) and ph.base[0] == "pphi":
                nx, init = nexts.get(k), inits[k]
                if isinstance(init, Ptr) and (nx is None or nx == ph):
                    sigma[("base", ph.base)] = init
                elif nx is None or isinstance(nx, (Ptr, PIte)):
                    nb = Ptr(("pphi", L, str(ph.base[2]), *self.ivstack, ivp), ZERO)
                    sigma[("base", ph.base)] = nb
                    pregs.append((nb, init, nx if nx is not None else ph))
        while pend and progress:
            progress = False
            for k in list(pend):
                a = pend[k]
                nx, init = nexts.get(k), inits[k]
                if nx is None:
                    sigma[a] = init.off if isinstance(init, Ptr) else init
                    del pend[k]
                    progress = True
                    continue
                if isinstance(phs[k], Ptr):
                    if not isinstance(nx, Ptr) or nx.base != phs[k].base:
                        del pend[k]
                        sigma[a] = A("rec", a[1], str(a[2]), *self.ivstack, ivp)
                        if isinstance(nx, (Ptr, PIte)) and isinstance(init, Ptr):
                            # the distance from where it started
                            pregs.append((sigma[a], init.off, A("poff", nx, Ptr(phs[k].base, ZERO))))
                        self.out.opaque.append(("ptr-rec", L))
                        progress = True
                        continue
                    nx, init = nx.off, init.off
                if not isinstance(nx, Poly) or not isinstance(init, Poly):
                    del pend[k]
                    sigma[a] = A("rec", a[1], str(a[2]), *self.ivstack, ivp)
                    self.out.opaque.append(("rec", L, a[2], nx))
                    progress = True
                    continue
                F = mapper(sigma, {})
                nx = F(nx)
                others = {x for x in pend.values()}
                # value independent of all pending phis: previous iteration's value
                if not depends(nx, others):
                    if nx == init:
                        sigma[a] = init
                    else:
                        prev = subst(nx, lambda x: ivp - 1 if x == iv else None)
                        if prev == init:
                            sigma[a] = init
                        else:
                            sigma[a] = ite(c_eq0(ivp), init, prev)
                    del pend[k]
                    progress = True
                    continue
                delta = nx - Poly.atom(a)
                if not depends(delta, others):
                    if not depends(delta, {iv}):
                        sigma[a] = init + delta * ivp
                    else:
                        q = ("q",) + L
                        term = subst(delta, lambda x: Poly.atom(("iv", q)) if x == iv else None)
                        sigma[a] = init + mk_sum(q, ivp, term)
                    del pend[k]
                    progress = True
                    continue
                mm = self.minmax(a, nx)
                if mm and not depends(mm[1], others):
                    q = ("q",) + L
                    term = subst(mm[1], lambda x: Poly.atom(("iv", q)) if x == iv else None)
                    sigma[a] = A(mm[0], q, ivp, init, term)
                    del pend[k]
                    progress = True
                    continue
        self.regs = []
        if pend:
            F = mapper(sigma, {})
            sysd = {}
            for k, a in pend.items():
                nx, init = nexts[k], inits[k]
                if isinstance(nx, Ptr):
                    nx, init = nx.off, init.off
                sysd[a] = (init, F(nx))
            order = [a for a in pend.values()]
            deps = {a: [b for b in order if depends(sysd[a][1], {b})] for a in order}
            q = ("q",) + L
            mus = {}
            for a in order:
                cl = [a]
                for x in cl:
                    cl += [b for b in deps[x] if b not in cl]
                cl = [a] + [b for b in order if b in cl and b != a]
                ix = {b: j for j, b in enumerate(cl)}

                def bind(x):
                    return subst(x, lambda y: A("self", L, ix[y]) if y in ix else Poly.atom(("iv", q)) if y == iv else None)
                system = tuple((sysd[b][0], bind(sysd[b][1])) for b in cl)
                mus[a] = A("mu", L, system, ivp)
            sigma.update(mus)
            G = mapper(mus, {})
            for a in order:
                self.regs.append((mus[a], sysd[a][0], G(sysd[a][1])))
                self.out.notes.append(("mu", L, a[2]))
        self.regs += pregs
        return sigma

    def minmax(self, a, nx):
        """next == max/min(phi, e)"""
        p = Poly.atom(a)
        d = nx - p
        at = d.is_atom()
        neg = False
        if at is None:
            at = (-d).is_atom()
            neg = True
        if at is None or at[0] != "ite":
            return None
        c, x, y = at[1], at[2], at[3]
        if neg:
            x, y = -x, -y
        if x == ZERO:
            c, x, y = bnot(c), y, x
        if y != ZERO or c <= 1:
            return None
        e = x + p
        if e == c_gt0 or depends(e, {a}):
            return None
        for (cond, kind) in ((c_gt0(e - p, True), "maxred"), (c_gt0(e - p), "maxred"), (c_ge0(e - p, True), "maxred"), (c_ge0(e - p), "maxred"),
                             (c_gt0(p - e, True), "minred"), (c_gt0(p - e), "minred"), (c_ge0(p - e, True), "minred"), (c_ge0(p - e), "minred")):
            if c == cond:
                return kind, e
        return None

    def tripcount(self, L, cont):
        """smallest iv >= 0 with the continue condition false"""
        iv = ("iv", L)
        if cont <= 1:
            return ZERO if cont == 0 else None
        vs = bvars_of(cont)
        if len(vs) != 1:
            # conjunction of a counter test with loop invariants already known?
            lits = literals(cont)
            cand = []
            for c, v in lits:
                n = self.tripcount(L, bvar(c) if v else bnot(bvar(c)))
                if n is not None:
                    cand.append(n)
            full = 1
            for c, v in lits:
                full = band(full, bvar(c) if v else bnot(bvar(c)))
            if full == cont and len(cand) == 1 and all(depends(bvar(c), {iv}) or True for c, v in lits):
                # 0 <= x (trivially true from unsigned compare) and x < N
                rest = [c for c, v in lits if self.tripcount(L, bvar(c) if v else bnot(bvar(c))) is None]
                if all(self.nonneg_lit(c, dict(lits)[c], iv) for c in rest):
                    return cand[0]
            return None
        c = vs[0]
        pos = cont == bvar(c)
        if c[0] in ("gt0", "fgt0"):
            p = c[1]
            if not pos:
                p = (ONE - p) if c[0] == "gt0" else -p
            co = p.coeff_of(iv)
            if co is None:
                return None
            k, rest = co
            if depends(rest, {iv}) or depends(k, {iv}) or not k.d:
                return None
            kc = k.cval()
            if kc is not None:
                if kc >= 0:
                    return None
                s = -kc
                if s == 1:
                    return rest
                if isinstance(s, Fraction) or c[0] == "fgt0":
                    return None
                q = poly_divides(rest + P(s - 1), P(s))
                if q is not None:
                    return q
                q = poly_divides(rest, P(s))
                if q is not None:
                    return q
                return mk_div(rest + P(s - 1), P(s))
            s = -k
            q = poly_divides(rest, s)
            if q is not None:
                return q
            return A("cdiv", rest, s)
        if c[0] == "eq0":
            if pos:
                return None
            p = c[1]
            co = p.coeff_of(iv)
            if co is None:
                return None
            k, rest = co
            if depends(rest, {iv}) or not k.d or depends(k, {iv}):
                return None
            return poly_divides(-rest, k)
        return None

    def nonneg_lit(self, c, v, iv):
        if c[0] == "gt0":
            p = c[1] if v else ONE - c[1]
            # p > 0 with p = iv*k + r, k>=0
            return all(cc >= 0 for cc in p.d.values())
        return False

    # ------------------------------------------------------------ instructions
    def opnd(self, o, ty=None):
        k = o[0]
        if k == "i":
            v = self.vals.get(o[1])
            if v is None:
                return A("opq", "undefd", self.f["name"], o[1])
            return v
        if k == "a":
            t = self.f["args"][o[1]]["ty"]
            if t == "ptr":
                return Ptr(("arg", o[1]), ZERO)
            if t == "i1":
                return bnot(c_eq0(A("arg", o[1])))
            return A("arg", o[1])
        if k == "c":
            if o[2] == 1:
                return 1 if o[1] else 0
            return P(o[1])
        if k == "f":
            if isinstance(o[1], str):
                return A("fconst", o[1])
            return P(float(o[1]))
        if k == "null":
            return NULL
        if k == "g":
            return Ptr(("glob", o[1]), ZERO)
        if k == "goff":
            b = self.opnd(o[1])
            return Ptr(b.base, b.off + o[2])
        if k == "fn":
            return Ptr(("fn", o[1]), ZERO)
        if k == "undef":
            if ty == "ptr":
                return Ptr(("undef",), ZERO)
            return A("undef")
        return A("opq", "operand", str(o))

    def isreal(self, ty):
        return ty in ("float", "double", "x86_fp80")

    def ptr_struct(self, base):
        """DI struct name the base points to, if known"""
        t = self.basety.get(base)
        if t is not None:
            return t or None
        r = ""
        if base[0] == "ldp":
            s = self.ptr_struct(base[1])
            if s and isinstance(base[2], int):
                sd = self.mod.structs.get(s)
                if sd:
                    for n, o, z, tt in sd["members"]:
                        if o == base[2]:
                            r = structname(tt) or ""
        self.basety[base] = r
        return r or None

    def init_cell(self, base, off, kind, st):
        if kind == "ptr":
            if base[0] == "alloca":
                c = self.covered(base, off, kind, st)
                if c is not None:
                    return c
                if st.ver.get(base, 0) != 0:
                    return Ptr(("ldp", base, off, st.ver[base]), ZERO)
            v = self.array_ver(base, st)
            return Ptr(("ldp", base, off), ZERO) if v == 0 else Ptr(("ldp", base, off, v), ZERO)
        if base[0] in ("alloca",):
            c = self.covered(base, off, kind, st)
            if c is not None:
                return c
            if st.ver.get(base, 0) != 0:
                return A("fld", base, off, kind, st.ver[base])
            return A("undef", base, off)
        v = self.array_ver(base, st)
        return A("fld", base, off, kind) if v == 0 else A("ld", base, Poly.const(off) if not isinstance(off, Poly) else off, kind, v)

    def array_ver(self, base, st):
        """version of an object written at an index that is not constant (an array of structures): its cells no longer
        hold their initial values"""
        return st.ver.get(base, 0) if self.ptr_struct(base) else 0

    def covered(self, base, off, kind, st):
        """value of a local array cell that a block operation gave a constant"""
        v = st.ver.get(base, 0)
        if not (isinstance(v, tuple) and v and v[0] == "cov"):
            return None
        _, lo, hi, src, so = v[:5]
        if not (lo <= off and off + ksize(kind) <= hi):
            return None
        if src is None:
            return NULL if kind == "ptr" else ZERO
        return const_at(self.mod.globals[src], off - lo + so, kind)

    def load(self, p, ty, size, st, ins, g, effs):
        if isinstance(p, PIte):
            a = self.load(p.a, ty, size, st, ins, band(g, p.c), effs)
            b = self.load(p.b, ty, size, st, ins, band(g, bnot(p.c)), effs)
            return ite(p.c, a, b) if compat(a, b) else A("opq", "pite", self.f["name"], ins["i"])
        if not isinstance(p, Ptr):
            return A("opq", "load", self.f["name"], ins["i"], *self.ivstack) if ty != "ptr" else Ptr(("opqp", self.f["name"], ins["i"]), ZERO)
        off = p.off.cval()
        kind = "ptr" if ty == "ptr" else ty
        sname = self.ptr_struct(p.base)
        effs.append(Eff("ld", g, self.loc(ins), base=p.base, off=p.off, size=size, ty=kind, ver=st.ver.get(p.base, 0)))
        if off is not None and not isinstance(off, Fraction):
            k = (p.base, off, kind)
            if k in st.cells:
                return st.cells[k]
            if p.base[0] == "glob" and st.ver.get(p.base, 0) == 0:
                gl = self.mod.globals.get(p.base[1])
                if gl and gl.get("ro"):
                    c = const_at(gl, off, ty)
                    if c is not None:
                        return c
            if sname or p.base[0] in ("alloca", "glob") or (p.base[0] == "arg" and not self.arrayish(p.base)):
                if p.base[0] in ("alloca",) and st.ver.get(p.base, 0) != 0:
                    v = self.covered(p.base, off, kind, st)
                    if v is not None:
                        st.cells[k] = v
                        return v
                    v = A("fld", p.base, off, kind, st.ver[p.base]) if kind != "ptr" else Ptr(("ldp", p.base, off, st.ver[p.base]), ZERO)
                else:
                    v = self.init_cell(p.base, off, kind, st)
                st.cells[k] = v
                return v
        if ty == "ptr":
            return Ptr(("ldp", p.base, p.off if off is None else off, st.ver.get(p.base, 0)) if (off is None or st.ver.get(p.base, 0) != 0) else ("ldp", p.base, off), ZERO)
        if p.base[0] == "alloca":
            # an untouched local copy of a constant table reads as the table
            v = st.ver.get(p.base, 0)
            if isinstance(v, tuple) and v and v[0] == "cov" and v[3] is not None and not any(c[0] == p.base for c in st.cells if st.cells[c] != self.covered(c[0], c[1], c[2], st)):
                g = tab_base(self.mod, ("glob", v[3]))
                if g[0] == "tab":
                    return A("ld", g, p.off - v[1] + v[4], kind, 0)
        b = tab_base(self.mod, p.base) if st.ver.get(p.base, 0) == 0 else p.base
        raw = A("ld", b, p.off, kind, st.ver.get(p.base, 0))
        return raw

    def arrayish(self, base):
        return True

    def store(self, p, v, ty, size, st, ins, g, effs):
        if isinstance(p, PIte):
            self.store(p.a, v, ty, size, st, ins, band(g, p.c), effs)
            self.store(p.b, v, ty, size, st, ins, band(g, bnot(p.c)), effs)
            for q in ptr_alts(p):
                self.kill(st, q.base)
            return
        if not isinstance(p, Ptr):
            effs.append(Eff("st", g, self.loc(ins), base=("opqp", self.f["name"], ins["i"]), off=ZERO, size=size, val=v, ty=ty, iid=ins["i"]))
            return
        off = p.off.cval()
        kind = "ptr" if ty == "ptr" else ty
        effs.append(Eff("st", g, self.loc(ins), base=p.base, off=p.off, size=size, val=v, ty=ty, iid=ins["i"]))
        if off is not None and not isinstance(off, Fraction):
            for k in list(st.cells):
                if k[0] == p.base and k[1] != off and k[1] < off + size and off < k[1] + ksize(k[2]):
                    del st.cells[k]
                elif k[0] == p.base and k[1] == off and k[2] != kind:
                    del st.cells[k]
            st.cells[(p.base, off, kind)] = v
            if not (self.ptr_struct(p.base) or p.base[0] == "alloca"):
                st.ver[p.base] = ("s", ins["i"], tuple(self.ivstack))
        else:
            self.kill(st, p.base)
            st.ver[p.base] = ("s", ins["i"], tuple(self.ivstack))

    def kill(self, st, base, off=None):
        for k in list(st.cells):
            if k[0] == base and (off is None or k[1] == off):
                del st.cells[k]

    def block(self, b, g, st, effs, push):
        for i in self.blocks[b]["is"]:
            op = i["op"]
            if op == "phi":
                continue
            if op == "br":
                if "cond" in i:
                    c = self.opnd(i["cond"])
                    if not isinstance(c, int):
                        c = bvar(("opq", "cond-undef" if isinstance(c, Poly) and c == A("undef") else "cond", self.f["name"], i["i"]))
                    t, e = i["succ"]
                    if t == e:
                        push(b, t, g, st)
                        return
                    td, ed = t in self.dead, e in self.dead
                    if td or ed:
                        cc = bnot(c) if td else c
                        effs.append(Eff("fact", g, self.loc(i), val=cc))
                        push(b, e if td else t, g, st)
                        return
                    push(b, t, band(g, c), st)
                    push(b, e, band(g, bnot(c)), st.copy())
                else:
                    push(b, i["succ"][0], g, st)
                return
            if op == "switch":
                v = self.opnd(i["a"][0])
                rest = g
                for cv, s in i["cases"]:
                    c = c_eq0(v - P(cv))
                    push(b, s, band(rest, c), st.copy())
                    rest = band(rest, bnot(c))
                push(b, i["default"], rest, st.copy())
                return
            if op == "ret":
                v = None
                if i["a"]:
                    v = self.opnd(i["a"][0])
                self.rets.append((g, v, st))
                return
            if op == "unreachable":
                return
            if op == "invoke":
                self.call(i, g, st, effs)
                push(b, i["succ"][0], g, st)
                return
            self.ins(i, g, st, effs)

    def num(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Ptr):
            if v.base == NULL.base:
                return v.off
            return A("addr", v.base) + v.off
        if isinstance(v, PIte):
            return ite(v.c, self.num(v.a), self.num(v.b))
        if isinstance(v, int):
            return ite(v, ONE, ZERO)
        return A("opq", "num", v)

    def ins(self, i, g, st, effs):
        op = i["op"]
        r = None
        if op in ("add", "sub", "mul", "fadd", "fsub", "fmul", "fdiv", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor", "frem"):
            x, y = self.opnd(i["a"][0]), self.opnd(i["a"][1])
            if i["ty"] == "i1":
                if op == "and":
                    r = band(x, y)
                elif op == "or":
                    r = bor(x, y)
                elif op == "xor":
                    r = bite(x, bnot(y), y)
                else:
                    r = bvar(("opq", op, self.f["name"], i["i"]))
                self.vals[i["i"]] = r
                return
            x, y = self.num(x), self.num(y)
            if op in ("add", "fadd"):
                r = x + y
            elif op in ("sub", "fsub"):
                r = x - y
            elif op in ("mul", "fmul"):
                r = x * y
            elif op == "fdiv":
                r = x * poly_inv(y) if y.d else A("opq", "div0")
                effs.append(Eff("fdiv", g, self.loc(i), val=y))
            elif op in ("sdiv", "udiv"):
                r = mk_div(x, y)
                effs.append(Eff("idiv", g, self.loc(i), val=y))
            elif op in ("srem", "urem"):
                r = mk_rem(x, y)
                effs.append(Eff("idiv", g, self.loc(i), val=y))
            elif op == "shl" and y.cval() is not None:
                r = x * P(2 ** int(y.cval()))
            elif op in ("lshr", "ashr") and y.cval() is not None:
                r = A("shr", x, int(y.cval()))
            elif op == "and" and y.cval() is not None:
                c = int(y.cval())
                if c < 0 and (-c) & (-c - 1) == 0:
                    r = A("align", -c, x)
                elif c > 0 and c & (c + 1) == 0:
                    r = A("mask", c, x)
                else:
                    r = A("bits", "and", x, y)
            else:
                xs = sorted((x, y), key=lambda q: q.key()) if op in ("and", "or", "xor") else (x, y)
                r = A("bits", op, xs[0], xs[1])
        elif op == "fneg":
            r = -self.num(self.opnd(i["a"][0]))
        elif op in ("sext", "zext", "trunc", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            x = self.opnd(i["a"][0])
            fty = i.get("fty")
            if op == "freeze" or (op == "bitcast"):
                r = x
            elif op in ("sext", "zext"):
                if fty == "i1":
                    r = ite(x, ONE if op == "zext" else P(-1), ZERO)
                else:
                    w = int(fty[1:])
                    x = self.num(x)
                    if w in (8, 16):
                        r = mk_ext("sx" if op == "sext" else "zx", w, x)
                    elif op == "zext" and w == 32:
                        r = unsigned32(x)
                    else:
                        r = x
            elif op == "trunc":
                if i["ty"] == "i1":
                    x = self.num(x)
                    at = x.is_atom()
                    r = bnot(c_eq0(A("mask", 1, x)))
                else:
                    w = int(i["ty"][1:])
                    x = self.num(x)
                    at = x.is_atom()
                    if w in (8, 16):
                        r = mk_trunc(w, x)
                    elif fty == "i64":
                        r = mk_low(x)
                    else:
                        r = x
            elif op in ("fpext", "fptrunc"):
                r = x
            elif op in ("sitofp", "uitofp"):
                if fty == "i1":
                    r = ite(x, ONE, ZERO)
                else:
                    x = self.num(x)
                    w = int(fty[1:])
                    r = mk_ext("sx" if op == "sitofp" else "zx", w, x) if w in (8, 16) else unsigned32(x) if op == "uitofp" and w == 32 else x
            elif op in ("fptosi", "fptoui"):
                w = int(i["ty"][1:])
                x = self.num(x)
                r = mk_f2i(x, 64 if w == 64 or op == "fptoui" and w == 32 else 32)
                effs.append(Eff("f2i", g, self.loc(i), val=x, size=w, aux=None, name=op))
                if w in (8, 16):
                    r = mk_trunc(w, r)
            elif op == "ptrtoint":
                r = self.num(x)
            elif op == "inttoptr":
                r = int2ptr(self.num(x))
        elif op == "getelementptr":
            if "base" not in i:
                r = Ptr(("opqp", self.f["name"], i["i"]), ZERO)
            else:
                b = self.opnd(i["base"])
                d = P(i["off"])
                for o, sc in i["terms"]:
                    d = d + self.num(self.opnd(o)) * P(sc)
                r = ptr_add(b, d)
        elif op == "icmp":
            r = self.icmp(i["pred"], self.opnd(i["a"][0]), self.opnd(i["a"][1]), i)
        elif op == "fcmp":
            x, y = self.num(self.opnd(i["a"][0])), self.num(self.opnd(i["a"][1]))
            pr = i["pred"]
            d = x - y
            r = {"gt": lambda: c_gt0(d, True), "ge": lambda: c_ge0(d, True), "lt": lambda: c_gt0(-d, True), "le": lambda: c_ge0(-d, True),
                 "eq": lambda: c_eq0(d), "ne": lambda: bnot(c_eq0(d))}.get(pr[1:], lambda: bvar(("opq", "fcmp", self.f["name"], i["i"])))()
        elif op == "select":
            c, a, b = (self.opnd(o) for o in i["a"])
            if not isinstance(c, int):
                c = bvar(("opq", "sel", self.f["name"], i["i"]))
            r = ite(c, a, b) if compat(a, b) else A("opq", "sel", self.f["name"], i["i"])
        elif op == "alloca":
            r = Ptr(("alloca", self.f["name"], i["i"]), ZERO)
            effs.append(Eff("alloca", g, self.loc(i), base=r.base, off=ZERO, size=P(i.get("size", 0)) if "size" in i else self.num(self.opnd(i["a"][0])) * P(i["esize"]), ty=i["aty"]))
        elif op == "load":
            p = self.opnd(i["a"][0])
            r = self.load(p, i["ty"], i["size"], st, i, g, effs)
            if i["ty"] == "i1":
                r = bnot(c_eq0(self.num(r)))
        elif op == "store":
            v = self.opnd(i["a"][0], i["sty"])
            p = self.opnd(i["a"][1])
            self.store(p, v, i["sty"], i["size"], st, i, g, effs)
            return
        elif op == "call":
            self.call(i, g, st, effs)
            return
        elif op == "insertelement" and i["a"][2][0] == "c" and i["a"][2][1] in (0, "0", 1, "1"):
            # a scalar in lane 0 of a register; the other lanes of the intrinsics used here do not count
            r = A("lane0", self.num(self.opnd(i["a"][1]))) if int(i["a"][2][1]) == 0 else self.num(self.opnd(i["a"][0]))
        elif op == "extractvalue":
            r = A("opq", "xv", self.f["name"], i["i"], *self.ivstack)
            if i["ty"] == "ptr":
                r = Ptr(("opqp", self.f["name"], i["i"]), ZERO)
        else:
            r = Ptr(("opqp", self.f["name"], i["i"]), ZERO) if i["ty"] == "ptr" else A("opq", op, self.f["name"], i["i"], *self.ivstack)
        self.vals[i["i"]] = r

    def icmp(self, pr, x, y, i):
        if isinstance(x, (Ptr, PIte)) or isinstance(y, (Ptr, PIte)):
            if pr in ("eq", "ne"):
                e = None
                if y == NULL:
                    e = c_isnull(x)
                elif x == NULL:
                    e = c_isnull(y)
                elif isinstance(x, Ptr) and isinstance(y, Ptr):
                    if x.base == y.base:
                        e = c_eq0(x.off - y.off)
                if e is None:
                    e = c_ptreq(x, y)
                return e if pr == "eq" else bnot(e)
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.base == y.base:
                x, y = x.off, y.off
            else:
                x, y = self.num(x), self.num(y)
        if isinstance(x, int) and isinstance(y, int):
            e = bite(x, y, bnot(y))
            return e if pr == "eq" else bnot(e)
        x, y = self.num(x), self.num(y)
        if i.get("oty") in ("i8", "i16"):
            # compare at the narrow width: signedness by predicate, equality by zero extension
            w = int(i["oty"][1:])
            k = "sx" if pr[0] == "s" else "zx"
            x, y = mk_ext(k, w, x), mk_ext(k, w, y)
        d = x - y
        if pr in ("eq", "ne"):
            e = addr_eq0(d)
            return e if pr == "eq" else bnot(e)
        rel = pr[1:]
        r = {"gt": lambda: c_gt0(d), "ge": lambda: c_ge0(d), "lt": lambda: c_gt0(-d), "le": lambda: c_ge0(-d)}[rel]()
        # narrow unsigned constants: x <u c with x possibly negative
        if pr[0] == "u" and i.get("oty") in ("i32",):
            a, b = (x, y) if rel in ("lt", "le") else (y, x)
            if self.maybe_neg(a):
                if rel in ("lt", "le"):
                    r = band(r, c_ge0(x))
                else:
                    r = bor(r, c_gt0(-y)) if False else r
        elif pr[0] == "u" and rel in ("gt", "ge") and i.get("oty") == "i32":
            pass
        if pr[0] == "u" and rel in ("gt", "ge") and i.get("oty") == "i32" and self.maybe_neg(x):
            r = bor(r, c_gt0(-x))
        return r

    def maybe_neg(self, x):
        for m, c in x.d.items():
            if c < 0:
                return True
            if m == ():
                continue
            for a, e in m:
                t = atom_of(a)
                if t[0] == "arg":
                    d = self.f["args"][t[1]].get("di") or ""
                    if "unsigned" not in d and d not in ("size_t", "uint32_t", "uint64_t"):
                        return True
                elif t[0] == "fld":
                    s = self.ptr_struct(t[1])
                    sd = self.mod.structs.get(s) if s else None
                    if not any(o == t[2] and "unsigned" in (tt or "") for n, o, z, tt in (sd["members"] if sd else ())):
                        return True
                elif t[0] not in ("iv", "zx", "es", "cnt"):
                    return True
        return False

    # ------------------------------------------------------------ calls
    def call(self, i, g, st, effs):
        name = i.get("callee")
        args = [self.opnd(o, t) for o, t in zip(i["a"], i.get("aty", [None] * len(i["a"])))]
        ty = i["ty"]
        if name is None:
            name = "<indirect>"
        bn = base_name(name)
        cid = ("call", self.f["name"], i["i"]) + ((tuple(self.ivstack),) if self.ivstack else ())
        r = None
        loc = self.loc(i)
        if bn.startswith("llvm."):
            q = bn.split(".")[1]
            if q in ("lifetime", "dbg", "assume", "stacksave", "stackrestore", "experimental", "prefetch", "va_start", "va_end", "donothing"):
                if ty != "void":
                    self.vals[i["i"]] = Ptr(("opqp", self.f["name"], i["i"]), ZERO)
                return
            if q in ("memcpy", "memmove"):
                self.bulk("cpy", args, st, g, effs, i)
                return
            if q == "memset":
                self.bulk("set", args, st, g, effs, i)
                return
            n = [self.num(a) for a in args]
            if q in ("fmuladd", "fma"):
                r = n[0] * n[1] + n[2]
            elif q in ("fabs", "sqrt", "floor", "ceil", "exp", "log", "pow", "sin", "cos", "round", "rint", "trunc", "log2", "log10"):
                r = A("fn", {"rint": "rnd64", "round": "round64"}.get(q, q), *n)
            elif q == "x86" and bn.endswith("sse2.cvtsd2si") and (n[0].is_atom() or ("",))[0] == "lane0":
                r = A("fn", "rnd", n[0].is_atom()[1])
            elif q == "abs":
                r = A("fn", "fabs", n[0])
            elif q in ("smax", "umax", "maxnum"):
                r = ite(c_gt0(n[0] - n[1], q == "maxnum"), n[0], n[1])
            elif q in ("smin", "umin", "minnum"):
                r = ite(c_gt0(n[1] - n[0], q == "minnum"), n[0], n[1])
            else:
                r = A("opq", bn, *n)
            self.vals[i["i"]] = r
            return
        if bn in ("memcpy", "memmove"):
            self.bulk("cpy", args, st, g, effs, i)
            self.vals[i["i"]] = args[0]
            return
        if bn == "memset":
            self.bulk("set", args, st, g, effs, i)
            self.vals[i["i"]] = args[0]
            return
        if bn in PURE_FN:
            q = {"sqrtf": "sqrt", "fabsf": "fabs", "abs": "fabs", "labs": "fabs", "powf": "pow", "expf": "exp", "logf": "log", "floorf": "floor", "ceilf": "ceil", "cosf": "cos", "sinf": "sin",
                 "rint": "rnd64", "lrint": "rnd64", "nearbyint": "rnd64", "roundf": "round64", "round": "round64", "lround": "round64"}.get(bn, bn)
            n = [self.num(a) for a in args]
            if q == "fabs" and n[0].cval() is not None:
                r = P(abs(n[0].cval()))
            else:
                r = mk_fn(q, *n)
            self.vals[i["i"]] = r
            effs.append(Eff("pcall", g, loc, name=bn, args=tuple(args)))
            return
        if bn in ("isdigit", "isupper", "islower") and len(args) == 1:
            x = self.num(args[0])
            lo, hi = {"isdigit": (48, 57), "isupper": (65, 90), "islower": (97, 122)}[bn]
            self.vals[i["i"]] = ite(band(c_gt0(x - P(lo) + ONE), c_gt0(P(hi) - x + ONE)), ONE, ZERO)
            return
        if bn in PURE_OURS:
            effs.append(Eff("pcall", g, loc, name=bn, args=tuple(args)))
            self.vals[i["i"]] = A("fn", PURE_OURS[bn], *[self.num(a) for a in args])
            return
        if bn == "get_elemsize" or i.get("dem") == "get_elemsize(int)":
            x = self.num(args[0])
            c = x.cval()
            tab = {1: 1, 2: 2, 3: 4, 4: 4, 5: 8, 12: 2, 13: 4, 14: 8, 15: 8}
            self.vals[i["i"]] = P(tab[c]) if c in tab else A("es", x)
            return
        if bn == "cmpstr":
            a = [self.strarg(x, st) for x in args]
            effs.append(Eff("pcall", g, loc, name=bn, args=tuple(args)))
            self.vals[i["i"]] = ite(bvar(("streq",) + tuple(sorted(a, key=repr))), ONE, ZERO)
            return
        if bn == "strchr" and isinstance(args[0], Ptr):
            sa = self.strarg(args[0], st)
            effs.append(Eff("pcall", g, loc, name=bn, args=tuple(args)))
            c = self.num(args[1])
            self.vals[i["i"]] = ite(bvar(("haschr", c) + sa), Ptr(args[0].base, args[0].off + A("chrpos", c, *sa)), NULL)
            return
        if bn in ("strlen",):
            self.vals[i["i"]] = A("strlen", *self.strarg(args[0], st))
            effs.append(Eff("pcall", g, loc, name=bn, args=tuple(args)))
            return
        if bn in NORETURN:
            return
        e = Eff("call", g, loc, name=bn if not name.startswith("_Z") else i.get("dem", name), args=tuple(args), cid=cid, iid=i["i"])
        effs.append(e)
        if name.startswith("_Z"):
            e.aux = (name,)
        # side effects on tracked memory
        ours = self.mod.fns.get(name)
        if ours is not None and not self.mod.ours(ours):
            ours = None
        if ours is None and bn not in EXT_WRITES:
            # external: assume it may write through non-const local buffers only when they are passed
            if bn not in ("printf", "fprintf", "puts", "fputs", "free", "fclose", "fopen", "fwrite", "malloc", "calloc", "strcmp", "strchr", "strtok", "putchar", "srand", "rand", "time", "atof", "atoi", "strncmp", "fputc", "realloc", "feof", "fseek", "ftell", "rewind"):
                for a in args:
                    for p in ptr_alts(a):
                        if p.base[0] == "alloca":
                            self.kill(st, p.base)
                            st.ver[p.base] = ("k", i["i"], tuple(self.ivstack))
        else:
            for base, off in call_writes(self.S, Eff("call", g, loc, name=name if ours is not None else bn, args=tuple(args))):
                if off is not None:
                    for k in list(st.cells):
                        if k[0] == base and k[1] == off:
                            st.cells[k] = self.clobbered(k, i)
                    for kd in (("i32", "float", "double", "i8", "i16", "i64") if base[0] == "alloca" else ("i32",)):
                        st.cells.setdefault((base, off, kd), self.clobbered((base, off, kd), i))
                else:
                    self.kill(st, base)
                    st.ver[base] = ("k", i["i"], tuple(self.ivstack))
        # result
        if ty == "void":
            return
        if ty == "ptr":
            r = Ptr(("ret", bn) + cid[1:], ZERO)
            self.model_create(bn, r, args, st)
            if ours is not None:
                self.basety[r.base] = structname(ours.get("rdi")) or ""
        elif ty == "i1":
            r = bvar(("ret", bn, cid))
        else:
            r = A("ret", bn, cid)
        self.vals[i["i"]] = r

    def clobbered(self, k, i):
        if k[2] == "ptr":
            return Ptr(("out", self.f["name"], i["i"], k[1]), ZERO)
        return A("out", self.f["name"], i["i"], k[0], k[1], tuple(self.ivstack))

    def strarg(self, p, st):
        if isinstance(p, Ptr):
            if p.base[0] == "glob":
                g = self.mod.globals.get(p.base[1])
                if g and g.get("init") and g["init"][0] == "str" and p.off.cval() == 0:
                    return ("str", g["init"][1].rstrip("\0"))
            return ("at", p.base, p.off, st.ver.get(p.base, 0))
        return ("opq", repr(p))

    def bulk(self, kind, args, st, g, effs, i):
        d = args[0]
        n = self.num(args[2])
        loc = self.loc(i)
        for dp, gg in palts_g(d, g):
            if kind == "cpy":
                for sp, g3 in palts_g(args[1], gg):
                    aux = st.ver.get(sp.base, 0) if isinstance(sp, Ptr) else None
                    effs.append(Eff("cpy", g3, loc, base=dp.base, off=dp.off, val=sp, size=n, aux=aux if aux != 0 else None, iid=i["i"]))
            else:
                effs.append(Eff("set", gg, loc, base=dp.base, off=dp.off, val=self.num(args[1]), size=n, iid=i["i"]))
            st.ver[dp.base] = ("s", i["i"], tuple(self.ivstack))
            self.kill(st, dp.base)
            nc, oc = n.cval(), dp.off.cval()
            if dp.base[0] == "alloca" and gg == g and nc is not None and oc is not None:
                if kind == "set" and self.num(args[1]).cval() == 0:
                    st.ver[dp.base] = ("cov", oc, oc + nc, None, 0)
                elif kind == "cpy" and isinstance(args[1], Ptr) and args[1].base[0] == "glob" and args[1].off.cval() is not None:
                    gl = self.mod.globals.get(args[1].base[1])
                    if gl and gl.get("ro") and flat_init(gl):
                        st.ver[dp.base] = ("cov", oc, oc + nc, args[1].base[1], args[1].off.cval())

    def model_create(self, bn, r, args, st):
        def setf(struct, fld, v):
            st.cells[(r.base, self.mod.foff(struct, fld), "i32")] = v
        if bn in ("create_hyper_mat", "create_hyper_mat_with_data"):
            self.basety[r.base] = "HyperMat"
            for f, a in zip(("samples", "lines", "bands", "data_type"), args):
                setf("HyperMat", f, self.num(a))
        elif bn in ("create_simple_mat", "create_simple_mat_with_data"):
            self.basety[r.base] = "SIMPLE_MAT"
            for f, a in zip(("rows", "cols", "data_type", "channels"), args):
                setf("SIMPLE_MAT", f, self.num(a))
            x = self.num(args[2])
            c = x.cval()
            tab = {1: 1, 2: 2, 3: 4, 4: 4, 5: 8, 12: 2, 13: 4, 14: 8, 15: 8}
            setf("SIMPLE_MAT", "elem_size", P(tab[c]) if c in tab else A("es", x))


# ---------------------------------------------------------------- helpers
def palts_g(p, g):
    if isinstance(p, PIte):
        return palts_g(p.a, band(g, p.c)) + palts_g(p.b, band(g, bnot(p.c)))
    if isinstance(p, Ptr):
        return [(p, g)]
    return [(Ptr(("opqp", repr(p)), ZERO), g)]


def mapper(sigma, memo):
    def f(a):
        return sigma.get(a)

    def F(x):
        if isinstance(x, tuple) and x and x[0] == "BASE":
            r = subst_ptr(Ptr(x[1], ZERO), f, memo)
            return r if r.off.d else r.base
        if isinstance(x, (Poly, Ptr, PIte)):
            return subst(x, f, memo)
        if isinstance(x, int):
            return subst_bool(x, f, memo)
        if isinstance(x, tuple):
            return tuple(F(y) if isinstance(y, (Poly, Ptr, PIte, tuple)) or (isinstance(y, int) and False) else y for y in x)
        return x
    return F


def depends_cond(c, ids):
    found = [False]

    def f(a):
        if a in ids:
            found[0] = True
        return None
    subst_cond(c, f, {})
    return found[0]


def compat(a, b):
    def k(x):
        return "p" if isinstance(x, (Ptr, PIte)) else "b" if isinstance(x, int) else "n"
    return k(a) == k(b)


def ptr_add(b, d):
    if isinstance(b, Ptr):
        return Ptr(b.base, b.off + d)
    if isinstance(b, PIte):
        return PIte(b.c, ptr_add(b.a, d), ptr_add(b.b, d))
    return Ptr(("opqp", repr(b)), ZERO)


def ksize(k):
    return {"ptr": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8}.get(k, 8)


def structname(di):
    if not di:
        return None
    di = di.replace("const ", "")
    m = re.match(r"^struct ([A-Za-z_0-9:]+)\*$", di)
    return m.group(1) if m else None


def mk_fn(q, *n):
    return A("fn", q, *n)


def addr_eq0(d):
    """d == 0, where d may be the number of an address, with a constant offset into its block: then a test for NULL"""
    k = d.d.get((), 0)
    at = (d - P(k)).is_atom()
    if at is not None and at[0] == "ite":
        return bite(at[1], addr_eq0(at[2] + P(k)), addr_eq0(at[3] + P(k)))
    if at is not None and at[0] == "addr":
        return c_isnull(Ptr(at[1], ZERO))
    return c_eq0(d)


def mk_low(x):
    """the lower 32 bits of a 64-bit value.  Arithmetic on sizes and indices does not overflow (assumption); two fields passed
    or read as one word and converted floats need not fit"""
    at = x.is_atom()
    if at is None:
        c = x.cval()
        if c is not None and c == int(c) and not -1 << 31 <= c < 1 << 32:
            return P((int(c) + (1 << 31)) % (1 << 32) - (1 << 31))
        return x
    if at[0] in ("sx", "zx") and at[1] == 32:
        return at[2]
    if at[0] == "fn" and at[1] in ("rnd64", "round64"):
        return A("fn", at[1][:-2], *at[2:])
    if at[0] in ("arg", "ld") or at[0] == "f2i" and len(at) > 2:
        return A("sx", 32, x)
    if at[0] == "ite":
        return ite(at[1], mk_low(at[2]), mk_low(at[3]))
    return x


def mk_f2i(x, w=32):
    """float to int conversion (toward zero); identity on values known to be integers"""
    a = x.is_atom()
    if a is not None and a[0] == "fn" and w == 32:
        return mk_low(x) if int_valued(x) else A("f2i", x)
    if int_valued(x):
        return x
    if a is not None and a[0] == "ite":
        return ite(a[1], mk_f2i(a[2], w), mk_f2i(a[3], w))
    c = x.cval()
    if c is not None:
        return P(int(c))
    return A("f2i", x) if w == 32 else A("f2i", x, w)


def int_valued(x):
    for m, c in x.d.items():
        if isinstance(c, Fraction):
            return False
        for a, e in m:
            if e < 0:
                return False
            t = atom_of(a)
            if t[0] in ("sx", "zx", "iv", "fld", "es", "cnt", "f2i", "tr", "strlen", "cdiv", "div", "rem"):
                if t[0] == "fld" and t[3] in ("float", "double"):
                    return False
                continue
            if t[0] == "ld" and t[3] in ("i8", "i16", "i32", "i64"):
                continue
            if t[0] == "fn" and t[1] in ("floor", "ceil", "round", "rnd", "round64", "rnd64"):
                continue
            if t[0] == "ite" and int_valued(t[2]) and int_valued(t[3]):
                continue
            return False
    return True


def unsigned32(x):
    """a 32-bit word read as unsigned: what memory holds may exceed the largest int; sizes and indices do not (assumption)"""
    at = x.is_atom()
    return mk_ext("zx", 32, x) if at is not None and at[0] == "ld" else x


def int2ptr(x):
    for m, c in x.d.items():
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = atom_of(m[0][0])
            if a[0] == "addr":
                return Ptr(a[1], x - Poly.atom(a))
            if a[0] == "align":
                return Ptr(("al", a[1], a[2]), x - Poly.atom(a))
    return Ptr(("int", x), ZERO)


TYW = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "ptr": 8, "i1": 1}


def flat_init(g):
    """{offset: constant} of a global's initialiser (None: not a plain table)"""
    if "_flat" in g:
        return g["_flat"]
    out = {}

    def go(x, off):
        if x[0] == "agg":
            if len(x) < 3:
                return False
            return all(go(y, off + o) for y, o in zip(x[1], x[2]))
        if x[0] == "str":
            for k, ch in enumerate(x[1]):
                out[off + k] = ["c", ord(ch), 8]
            return True
        if x[0] in ("c", "f", "g", "null", "fn", "goff"):
            out[off] = x
            return True
        return False
    init = g.get("init")
    g["_flat"] = out if init and go(init, 0) and out else None
    return g["_flat"]


def const_w(x):
    if x[0] == "c":
        return max(1, x[2] // 8)
    if x[0] == "f":
        return 4 if x[2] == "float" else 8
    return 8


def const_at(g, off, ty):
    fi = flat_init(g)
    if fi is None:
        return None
    v = fi.get(off)
    if v is None or const_w(v) != ksize(ty):
        return None
    if v[0] == "c":
        return P(v[1])
    if v[0] == "f" and not isinstance(v[1], str):
        return P(float(v[1]))
    if ty == "ptr":
        if v[0] == "g":
            return Ptr(("glob", v[1]), ZERO)
        if v[0] == "null":
            return NULL
        if v[0] == "goff" and v[1][0] == "g":
            return Ptr(("glob", v[1][1]), P(v[2]))
    return None


def tab_base(mod, b):
    """never-written plain tables are identified by their content"""
    if b[0] == "glob":
        g = mod.globals.get(b[1])
        if g and g.get("ro") and g.get("init") and g["init"][0] == "agg":
            if "_tab" not in g:
                fi = flat_init(g)
                g["_tab"] = None
                if fi and all(v[0] in ("c", "f") for v in fi.values()):
                    g["_tab"] = ("tab", tuple((o, const_w(v), v[1]) for o, v in sorted(fi.items())))
                    mod.tabs[g["_tab"]] = b[1]
            if g["_tab"]:
                return g["_tab"]
    return b


def walk(effs, loops=(), guard=1):
    """yield (eff, enclosing loop nodes, combined guard) for every non-loop effect"""
    for e in effs:
        g = band(guard, e.guard if e.guard is not None else 1)
        if e.kind == "loop":
            yield e, loops, g
            yield from walk(e.kids, loops + (e,), g)
        else:
            yield e, loops, g
