"""Path-sensitive ownership and file-handle typestate over the SSA form of every C function.

Abstract state along a path: status of every block/handle the function obtained (by allocation site), the value of
every pointer phi / call result / tracked memory cell, and the outcomes of branch conditions that are tested again.
Callees are replaced by their inferred set of outcomes (returned block, blocks stored through parameters, released and
captured parameters); release routines have the contract their definition in C03/C05/C23 gives them."""
import collections, ir

NULL = ("null",)
UNK = ("unk",)
ALLOC = {"malloc", "calloc"}
EXIT = {"exit", "abort", "_exit", "__assert_fail"}
# library release routines: argument 0 and everything the object owns is given up
RELEASE = {"delete_simple_mat": "simple_mat", "delete_hyper_mat": "hyper_mat", "delete_S_2D": "S_2D", "wavelet_base_free": "wavelet_base",
           "wt_coefset_free": "wt_coefset", "wt_info_free": "wt_info"}
UNFINISHED = {"hypercv_wavedec", "sub_wavedec", "hypercv_dwt1D_float"}
DATA_OFF = {"simple_mat": "SIMPLE_MAT"}
FILE_USE = {"fread": 3, "fwrite": 3, "fgets": 2, "fputs": 1, "fprintf": 0, "fscanf": 0, "__isoc99_fscanf": 0, "__isoc23_fscanf": 0, "fseek": 0, "ftell": 0, "rewind": 0,
            "fputc": 1, "fgetc": 0, "getc": 0, "feof": 0, "fflush": 0, "fclose": 0, "putc": 1, "ferror": 0}
CAP = 6000


CMP = {"eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "slt": lambda x, y: x < y, "sgt": lambda x, y: x > y, "sle": lambda x, y: x <= y, "sge": lambda x, y: x >= y}


class GaveUp(Exception):
    pass


class State:
    __slots__ = ("obj", "env", "mem", "facts", "rel", "an")

    def __init__(self):
        self.obj = {}    # site -> (kind, status, line) status in live/freed/null/maybe/escaped
        self.env = {}    # inst id -> value
        self.mem = {}    # (base key, off) -> value
        self.facts = {}  # cond key -> bool
        self.rel = frozenset()   # parameters (or cells of parameters) released
        self.an = {}     # parameter -> found NULL?

    def copy(self):
        s = State()
        s.obj, s.env, s.mem, s.facts, s.rel = dict(self.obj), dict(self.env), dict(self.mem), dict(self.facts), self.rel
        s.an = dict(self.an)
        return s

    def key(self):
        return (frozenset(self.obj.items()), frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.facts.items()), self.rel, frozenset(self.an.items()))


class Analysis:
    def __init__(self, mod):
        self.mod = mod
        self.sum = {}
        self.busy = set()
        self.findings = []
        self.stats = collections.Counter()
        self.gave_up = {}
        self.done = []

    # ---- drivers
    def c_fns(self):
        return [f for f in self.mod.our_fns() if (f.get("file") or "").endswith((".c", ".h"))]

    def run(self):
        for f in self.c_fns():
            self.summary(f["name"])
        return self

    def summary(self, name):
        if name in self.sum:
            return self.sum[name]
        f = self.mod.fns.get(name)
        if f is None or name in self.busy:
            return None
        self.busy.add(name)
        try:
            F = Fn(self, f)
            out = F.go()
            self.sum[name] = out
            self.done.append(name)
            if f["bn"] not in UNFINISHED:
                self.findings += F.findings
            self.stats.update(F.stats)
        except GaveUp as e:
            self.sum[name] = None
            self.gave_up[f["bn"]] = str(e)
        finally:
            self.busy.discard(name)
        return self.sum[name]


class Fn:
    def __init__(self, A, f):
        self.A, self.f, self.mod = A, f, A.mod
        self.insts = {}
        self.blk = {b["id"]: b for b in f["blocks"]}
        self.where = {}
        for b in f["blocks"]:
            for i in b["is"]:
                self.insts[i["i"]] = i
                self.where[i["i"]] = b["id"]
        self.findings = []
        self.seen = set()
        self.stats = collections.Counter()
        self.outcomes = set()
        self.idx = None
        self.prep()

    # ---- static preparation: reachability, liveness, condition keys
    def prep(self):
        f = self.f
        self.loops = {}
        for n, l in enumerate(f["loops"]):
            self.loops[l["h"]] = set(l["blocks"])
        uses = collections.defaultdict(set)
        for b in f["blocks"]:
            for i in b["is"]:
                for o in self.operands(i):
                    if o[0] == "i":
                        uses[o[1]].add(b["id"])
        self.reach = {}
        succ = {b["id"]: list(b["succ"]) for b in f["blocks"]}

        def rch(x):
            out, st = set(), [x]
            while st:
                y = st.pop()
                for z in succ[y]:
                    if z not in out:
                        out.add(z)
                        st.append(z)
            return out
        for b in succ:
            self.reach[b] = rch(b)
        self.uses = uses
        self.storefields = set()
        for b in f["blocks"]:
            for i in b["is"]:
                if i["op"] == "store":
                    self.storefields.add(self.vkey(i["a"][1]))
        # reachability that takes no back edge
        dag = {b: [z for z in succ[b] if not (z in self.loops and b in self.loops[z])] for b in succ}
        full, succ = succ, dag
        self.fwd = {b: rch(b) for b in full}
        succ = full
        self.ckblocks = collections.defaultdict(set)
        for b in f["blocks"]:
            t = b["is"][-1] if b["is"] else None
            if t and t["op"] == "br" and len(t["succ"]) == 2:
                for k in self.keys_of(t["a"][0]):
                    self.ckblocks[k].add(b["id"])
        # integer phis that only ever merge constants: flags, tracked across loops too
        self.flags = {i["i"] for i in self.insts.values() if i["op"] == "phi" and i["ty"].startswith("i")}
        while True:
            bad = {p for p in self.flags if not all(v[0] == "c" or v[0] == "i" and v[1] in self.flags for _, v in self.insts[p]["inc"])}
            if not bad:
                break
            self.flags -= bad
        self.inloop = {}
        for k in self.ckblocks:
            self.inloop[k] = any(self.where[d] in l for d in self.deps(k) for l in self.loops.values())

    def indexed(self):
        """local arrays of pointers that are read at a variable index"""
        if self.idx is None:
            self.idx = set()

            def root(o, var, d=0):
                if o[0] != "i" or d > 12:
                    return
                i = self.insts[o[1]]
                if i["op"] == "alloca":
                    if var:
                        self.idx.add(o[1])
                elif i["op"] == "getelementptr":
                    root(i["base"], var or bool(i.get("terms")), d + 1)
                elif i["op"] == "phi":
                    for _, v in i["inc"]:
                        root(v, True, d + 1)
                elif i["op"] == "bitcast":
                    root(i["a"][0], var, d + 1)
            for i in self.insts.values():
                if i["op"] == "load" and i["ty"] == "ptr":
                    root(i["a"][0], False)
        return self.idx

    def argrooted(self, k):
        while k[0] in ("gep", "load"):
            k = k[1]
        return k[0] == "a"

    def operands(self, i):
        a = list(i.get("a", []))
        if "base" in i:
            a.append(i["base"])
            for t in i.get("terms", []):
                a += [x for x in t if isinstance(x, list)]
        for p, v in i.get("inc", []):
            a.append(v)
        if i.get("callee") is None and i.get("fp"):
            a.append(i["fp"])
        return a

    def vkey(self, o, d=0):
        """structural key of an SSA operand (stable while no loop redefines it)"""
        if o[0] != "i" or d > 6:
            return tuple(map(str, o))
        i = self.insts[o[1]]
        op = i["op"]
        if op in ("load",):
            k = self.vkey(i["a"][0], d + 1)
            return ("load", k) if self.argrooted(k) and k not in self.storefields else ("i", o[1])
        if op == "getelementptr" and not i.get("terms"):
            return ("gep", self.vkey(i["base"], d + 1), i["off"])
        if op in ("sext", "zext", "trunc", "bitcast", "add", "sub", "mul", "and", "icmp", "fcmp", "sdiv", "srem"):
            return (op, i.get("pred"), i["ty"]) + tuple(self.vkey(x, d + 1) for x in i["a"])
        return ("i", o[1])

    def keys_of(self, o):
        k = self.vkey(o)
        out = [k]
        if k[0] == "and":
            out += [k[3], k[4]]
        return out

    def deps(self, k):
        out = set()

        def go(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == "i" and isinstance(x[1], int):
                    out.add(x[1])
                for y in x:
                    go(y)
        go(k)
        return out

    # ---- findings
    def report(self, rule, ln, what):
        k = (rule, ln, what)
        if k in self.seen:
            return
        self.seen.add(k)
        self.findings.append({"rule": rule, "fn": self.f["bn"], "where": "%s:%s" % (self.mod.rel(self.f.get("file") or "?"), ln), "what": what})

    # ---- main loop
    def go(self):
        s = State()
        work = [(self.f["blocks"][0]["id"], None, s)]
        seen = set()
        n = 0
        while work:
            b, prev, s = work.pop()
            s = self.enter(b, prev, s)
            k = (b, s.key())
            if k in seen:
                continue
            seen.add(k)
            n += 1
            if n > CAP:
                raise GaveUp("more than %d path states" % CAP)
            for nb, ns in self.block(b, s):
                work.append((nb, b, ns))
        self.stats["states"] += n
        self.stats["functions"] += 1
        return self.outcomes

    def enter(self, b, prev, s):
        s = s.copy()
        blk = self.blk[b]
        new = {}
        if prev is not None and b in self.loops and prev in self.loops[b]:
            dead = self.loops[b]
            phis = {i["i"] for i in blk["is"] if i["op"] == "phi"}
            for i in list(s.env):
                if self.where[i] in dead and i not in phis:
                    pass
            for k in list(s.facts):
                if any(self.where[d] in dead for d in self.deps(k)):
                    del s.facts[k]
        for i in blk["is"]:
            if i["op"] != "phi":
                break
            for p, v in i["inc"]:
                if p == prev:
                    w = self.val(v, s)
                    if i["ty"] != "ptr" and (w[0] != "const" or b in self.loops and i["i"] not in self.flags):
                        # flags are tracked, counters are not
                        if v[0] == "i" and i["ty"] == "i1" and self.vkey(v) in s.facts:
                            new[i["i"]] = ("const", int(s.facts[self.vkey(v)]))
                        continue
                    if b in self.loops and w[0] in ("in", "argin", "stackin"):
                        w = (w[0], w[1], None)   # widened: the offset may change in each iteration
                    new[i["i"]] = w
        if prev is not None and b in self.loops and prev in self.loops[b]:
            for i in list(s.env):
                if self.where[i] in self.loops[b]:
                    del s.env[i]
        s.env.update(new)
        # prune
        rb = self.reach[b] | {b}
        fb = self.fwd[b] | {b}
        for i in list(s.env):
            if not (self.uses[i] & rb):
                del s.env[i]
        for k in list(s.facts):
            if not (self.ckblocks.get(k, set()) & (fb if self.inloop.get(k) else rb)):
                del s.facts[k]
        return s

    # ---- values
    def val(self, o, s):
        if o[0] == "null":
            return NULL
        if o[0] == "a":
            return NULL if s.an.get(o[1]) else ("arg", o[1])
        if o[0] == "g":
            return ("glob", o[1])
        if o[0] == "c":
            return ("const", o[1])
        if o[0] == "i":
            if o[1] in s.env:
                return s.env[o[1]]
            i = self.insts[o[1]]
            op = i["op"]
            if op == "alloca":
                return ("stack", o[1])
            if op == "getelementptr":
                b = self.val(i["base"], s)
                return self.offset(b, i["off"] if not i.get("terms") else None)
            if op in ("bitcast", "inttoptr", "ptrtoint", "freeze", "zext", "sext", "trunc"):
                return self.val(i["a"][0], s)
            if op in ("add", "sub", "and", "or") and i["ty"] == "i64":
                for x in i["a"]:
                    v = self.val(x, s)
                    if v[0] in ("obj", "in", "stack", "arg", "argin"):
                        return self.offset(v, None)
                return UNK
            return UNK
        return UNK

    def offset(self, b, off):
        """pointer arithmetic: ('obj',site) + constant stays addressable through ('in',site,off)"""
        if off == 0:
            return b
        t = b[0]
        if t == "obj":
            return ("in", b[1], off)
        if t == "in":
            return ("in", b[1], None if off is None or b[2] is None else b[2] + off)
        if t == "arg":
            return ("argin", b[1], off)
        if t == "argin":
            return ("argin", b[1], None if off is None or b[2] is None else b[2] + off)
        if t == "stack":
            return ("stackin", b[1], off)
        if t == "stackin":
            return ("stackin", b[1], None if off is None or b[2] is None else b[2] + off)
        if t == "ld":
            return UNK
        return UNK

    def cell(self, a):
        """address value -> memory cell key or None"""
        t = a[0]
        if t == "obj":
            return (("o", a[1]), 0)
        if t == "in" and a[2] is not None:
            return (("o", a[1]), a[2])
        if t == "arg":
            return (("a", a[1]), 0)
        if t == "argin" and a[2] is not None:
            return (("a", a[1]), a[2])
        if t == "stack":
            return (("s", a[1]), 0)
        if t == "stackin" and a[2] is not None:
            return (("s", a[1]), a[2])
        return None

    def use(self, v, s, ln, what):
        """a block is accessed through v"""
        if v[0] in ("obj", "in"):
            o = s.obj.get(v[1])
            if o and o[1] == "freed":
                self.report("no use after release", ln, "%s a block released earlier on this path (obtained at line %s)" % (what, o[2]))
            if o and o[0] == "file" and o[1] in ("maybe", "null"):
                pass

    def escape(self, v, s, seen=None):
        if v[0] in ("obj", "in"):
            o = s.obj.get(v[1])
            if o and o[1] in ("live", "maybe"):
                s.obj[v[1]] = (o[0], "escaped", o[2])
            seen = seen or set()
            if v[1] in seen:
                return
            seen.add(v[1])
            for (b, off), x in list(s.mem.items()):
                if b == ("o", v[1]):
                    self.escape(x, s, seen)
        elif v[0] in ("stack", "stackin"):
            for (b, off), x in list(s.mem.items()):
                if b == ("s", v[1]):
                    self.escape(x, s)
                    del s.mem[(b, off)]

    def owned(self, v, s, seen=None):
        """sites reachable from value v"""
        seen = set() if seen is None else seen
        if v[0] in ("obj", "in") and v[1] not in seen:
            seen.add(v[1])
            for (b, off), x in s.mem.items():
                if b == ("o", v[1]):
                    self.owned(x, s, seen)
        return seen

    def new(self, site, kind, status, ln, s):
        old = s.obj.get(site)
        if old and old[1] == "live":
            refs = any(v[0] in ("obj", "in") and v[1] == site for v in list(s.env.values()) + list(s.mem.values()))
            if not refs:
                self.report("every block is released", ln, "the block obtained here is overwritten by the next iteration without having been released")
            else:
                # the previous iteration's block is still referenced: keep it apart from the new one
                prev = site + ("prev",)
                if s.obj.get(prev, (0, "freed"))[1] != "freed":
                    self.escape(("obj", prev), s)
                s.obj[prev] = old

                def mv(v):
                    return (v[0], prev) + v[2:] if v[0] in ("obj", "in") and v[1] == site else v
                s.env = {k: mv(v) for k, v in s.env.items()}
                s.mem = {((("o", prev), k[1]) if k[0] == ("o", site) else k): mv(v) for k, v in s.mem.items()}
        for k in [k for k in s.mem if k[0] == ("o", site)]:
            del s.mem[k]
        s.obj[site] = (kind, status, ln)
        self.stats["acquisitions"] += 1

    def free(self, v, s, ln, how, kinds=("heap",)):
        t = v[0]
        self.stats["releases"] += 1
        if t == "null":
            return
        if t == "in":
            self.report("only whole blocks are released", ln, "%s is given a pointer into the middle of a block" % how)
            return
        if t in ("stack", "stackin"):
            self.report("only owned blocks are released", ln, "%s is given the address of a local variable" % how)
            return
        if t == "glob":
            self.report("only owned blocks are released", ln, "%s is given the address of a static object" % how)
            return
        if t == "obj":
            o = s.obj.get(v[1])
            if o is None:
                return
            if o[1] == "freed":
                self.report("no block is released twice", ln, "%s releases a block already released on this path (obtained at line %s)" % (how, o[2]))
                return
            if o[0] not in kinds and not (how == "free" and o[0] != "file"):
                self.report("each block goes to its own release routine", ln, "%s is given a %s (obtained at line %s)" % (how, o[0], o[2]))
            s.obj[v[1]] = (o[0], "freed", o[2])
            return
        if t in ("arg", "argin", "ld"):
            if v in s.rel:
                self.report("no block is released twice", ln, "%s releases the same caller's block twice" % how)
            s.rel = s.rel | {v}
            # the cell now dangles until it is overwritten
            return

    # ---- one block
    def block(self, b, s):
        states = [s]
        blk = self.blk[b]
        for i in blk["is"]:
            op = i["op"]
            if op == "phi":
                continue
            nxt = []
            for s in states:
                nxt += self.inst(i, s)
            states = nxt
            if not states:
                return []
        out = []
        t = blk["is"][-1]
        if t["op"] == "unreachable" or not blk["succ"] and t["op"] != "ret":
            return []
        for s in states:
            if t["op"] == "ret":
                self.ret(t, s)
                continue
            if t["op"] == "br" and len(t["succ"]) == 2:
                for want, nb in ((True, t["succ"][0]), (False, t["succ"][1])):
                    for ns in self.assume(t["a"][0], want, s):
                        out.append((nb, ns))
            elif t["op"] == "switch":
                for nb in t["succ"] if "succ" in t else blk["succ"]:
                    out.append((nb, s.copy()))
            else:
                for nb in blk["succ"]:
                    out.append((nb, s.copy()))
        return out

    def assume(self, o, want, s):
        """states in which condition o has the value want"""
        if o[0] == "c":
            return [s.copy()] if bool(o[1]) == want else []
        k = self.vkey(o)
        if k in s.facts:
            return [s.copy()] if s.facts[k] == want else []
        if o[0] == "i":
            i = self.insts[o[1]]
            if o[1] in s.env and s.env[o[1]][0] == "const":
                return [s.copy()] if bool(s.env[o[1]][1]) == want else []
            if i["op"] == "xor":
                return self.assume(i["a"][0], not want, s)
            if i["op"] == "select" and i["ty"] == "i1":
                c, x, y = i["a"]
                return [r2 for w, z in ((True, x), (False, y)) for r in self.assume(c, w, s) for r2 in self.assume(z, want, r)]
            if i["op"] in ("and", "or") and i["ty"] == "i1":
                x, y = i["a"]
                if (i["op"] == "and") == want:
                    return [r2 for r in self.assume(x, want, s) for r2 in self.assume(y, want, r)]
                return [r2 for r in self.assume(x, not want, s) for r2 in self.assume(y, want, r)] + self.assume(x, want, s)
            if i["op"] == "icmp":
                x, y = self.val(i["a"][0], s), self.val(i["a"][1], s)
                if x[0] == "const" and y[0] == "const" and i.get("oty") != "ptr" and i["pred"] in CMP:
                    return [s.copy()] if CMP[i["pred"]](x[1], y[1]) == want else []
            if i["op"] == "icmp" and i["pred"] in ("eq", "ne"):
                eq = (i["pred"] == "eq") == want
                x, y = self.val(i["a"][0], s), self.val(i["a"][1], s)
                if i.get("oty") == "ptr" or "null" in (x[0], y[0]):
                    r = self.ptr_eq(x, y, eq, s)
                    if r is not None:
                        return r
                elif x[0] == "const" and y[0] == "const":
                    return [s.copy()] if (x[1] == y[1]) == eq else []
        ns = s.copy()
        if self.ckblocks.get(k):
            ns.facts[k] = want
        return [ns]

    def ptr_eq(self, x, y, eq, s):
        if x[0] == "null":
            x, y = y, x
        if y[0] == "null":
            if x[0] == "null":
                return [s.copy()] if eq else []
            if x[0] == "obj":
                o = s.obj.get(x[1])
                if o and o[1] in ("maybe", "live") and not (o[1] == "live" and o[0] == "known"):
                    ns = s.copy()
                    if o[1] == "maybe":
                        ns.obj[x[1]] = (o[0], "null" if eq else "live", o[2])
                        if eq:
                            self.subst(ns, x, NULL)
                        return [ns]
                    # an allocation that was not tested yet: the null branch has no block
                    if eq:
                        return []
                    return [ns]
                return [] if eq else [s.copy()]
            if x[0] in ("in", "stack", "stackin", "argin", "glob"):
                return [] if eq else [s.copy()]
            if x[0] == "arg":
                if x[1] in s.an:
                    return [s.copy()] if s.an[x[1]] == eq else []
                ns = s.copy()
                ns.an[x[1]] = eq
                if eq:
                    self.subst(ns, x, NULL)
                return [ns]
            return None
        if x[0] in ("unk", "ld", "glob") or y[0] in ("unk", "ld", "glob"):
            return None
        if x == y and x[0] in ("obj", "arg", "stack"):
            return [s.copy()] if eq else []
        if x[0] in ("obj", "stack") and y[0] in ("obj", "arg", "stack") or y[0] in ("obj", "stack") and x[0] in ("arg",):
            return [] if eq else [s.copy()]
        return None

    def subst(self, s, old, new):
        for k, v in list(s.env.items()):
            if v == old:
                s.env[k] = new
        for k, v in list(s.mem.items()):
            if v == old:
                s.mem[k] = new

    def inst(self, i, s):
        op = i["op"]
        ln = i.get("ln")
        if op == "load":
            a = self.val(i["a"][0], s)
            self.use(a, s, ln, "reads")
            if i["ty"] == "ptr":
                s = s.copy()
                c = self.cell(a)
                v = s.mem.get(c) if c else None
                if v is None:
                    if c is None and a[0] in ("stackin", "in"):
                        # an element picked by a variable index: whatever the array holds may be given up through it
                        kind = "s" if a[0] == "stackin" else "o"
                        if kind == "s" or s.obj.get(a[1], ("?",))[0] not in ("simple_mat", "hyper_mat", "S_2D"):
                            for k in [k for k in s.mem if k[0] == (kind, a[1])]:
                                self.escape(s.mem.pop(k), s)
                    if a[0] in ("obj", "in"):
                        # an image, cube or mask keeps its data in its own block; a raw array's elements are not tracked
                        v = ("in", a[1], None) if s.obj.get(a[1], ("?",))[0] in ("simple_mat", "hyper_mat", "S_2D") else UNK
                    elif a[0] in ("arg", "argin") and c:
                        v = ("ld", a[1], c[1])
                    else:
                        v = UNK
                s.env[i["i"]] = v
            return [s]
        if op == "store":
            a = self.val(i["a"][1], s)
            v = self.val(i["a"][0], s)
            self.use(a, s, ln, "writes to")
            c = self.cell(a)
            s = s.copy()
            if i.get("sty") == "ptr" or v[0] in ("obj", "in", "null"):
                if c is not None and c[0][0] == "s" and c[0][1] in self.indexed():
                    self.escape(v, s)   # an array walked by index: what it holds is not followed any further
                elif c is not None:
                    old = s.mem.get(c)
                    s.mem[c] = v
                    if old is not None and old[0] == "obj" and old != v and old[0] != "null":
                        self.lost(old, s, ln)
                else:
                    self.escape(v, s)
            return [s]
        if op == "select":
            s = s.copy()
            if i["ty"] == "ptr":
                c, x, y = i["a"]
                out = []
                for want, z in ((True, x), (False, y)):
                    for ns in self.assume(c, want, s):
                        ns.env[i["i"]] = self.val(z, ns)
                        out.append(ns)
                return out
            return [s]
        if op == "call":
            return self.call(i, s.copy())
        return [s]

    def lost(self, v, s, ln):
        """the last stored reference to a block was overwritten"""
        o = s.obj.get(v[1])
        if not o or o[1] != "live":
            return
        if any(x[0] in ("obj", "in") and x[1] == v[1] for x in list(s.env.values()) + list(s.mem.values())):
            return
        # values that are still computable from SSA (call results) count as references
        return

    def call(self, i, s):
        n, a, ln = i.get("callee"), i.get("a", []), i.get("ln")
        vals = [self.val(x, s) for x in a]
        res = i["i"]
        if n is None:
            for v in vals:
                self.escape(v, s)
            return [s]
        if n in EXIT or i.get("noret"):
            return []
        if i.get("intr") or n.startswith("llvm."):
            for v, nm in zip(vals[:2], ("writes to", "reads")):
                if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                    self.use(v, s, ln, nm)
            return [s]
        bn = ir.base_name(n)
        if bn in ALLOC:
            self.new((res, 0), "heap", "live", ln, s)
            s.env[res] = ("obj", (res, 0))
            return [s]
        if bn == "realloc":
            for v in vals[:1]:
                if v[0] == "obj":
                    self.free(v, s, ln, "realloc")
            self.new((res, 0), "heap", "live", ln, s)
            s.env[res] = ("obj", (res, 0))
            return [s]
        if bn in ("fopen", "fopen64"):
            self.new((res, 0), "file", "maybe", ln, s)
            s.env[res] = ("obj", (res, 0))
            return [s]
        if bn == "free":
            self.free(vals[0], s, ln, "free")
            return [s]
        if bn in FILE_USE:
            k = FILE_USE[bn]
            v = vals[k] if k < len(vals) else UNK
            if v[0] == "null":
                self.report("a handle is used only after it was found open", ln, "%s on a file handle that is NULL on this path" % bn)
            if v[0] == "obj":
                o = s.obj.get(v[1])
                if o and o[0] == "file":
                    if o[1] == "maybe":
                        self.report("a handle is used only after it was found open", ln, "%s on the handle opened at line %s, which no test on this path found open" % (bn, o[2]))
                        s.obj[v[1]] = (o[0], "live", o[2])
                    elif o[1] == "freed":
                        self.report("no use after release", ln, "%s on a file handle closed earlier on this path (opened at line %s)" % (bn, o[2]))
            if bn == "fclose":
                self.free(v, s, ln, "fclose", ("file",))
                return [s]
            for j, w in enumerate(vals):
                if j != k:
                    self.use(w, s, ln, bn + " accesses")
            return [s]
        if bn in RELEASE:
            v = vals[0]
            sub = [(k, x) for k, x in s.mem.items() if v[0] == "obj" and k[0] == ("o", v[1])]
            o = s.obj.get(v[1]) if v[0] == "obj" else None
            self.free(v, s, ln, bn, (RELEASE[bn], "heap"))
            if o and o[1] != "freed":
                for k, x in sub:
                    if RELEASE[bn] == "S_2D":
                        continue
                    if x[0] == "obj":
                        self.free(x, s, ln, bn, ("heap", "simple_mat"))
                    elif x[0] in ("arg", "argin", "ld", "stack", "stackin", "glob"):
                        if RELEASE[bn] == "simple_mat" and k[1] == self.data_off():
                            if x[0] in ("stack", "stackin", "glob"):
                                self.free(x, s, ln, bn)
                            elif x not in s.rel:
                                s.rel = s.rel | {x}
                    elif x[0] == "in" and x[1] != v[1]:
                        if RELEASE[bn] == "simple_mat" and k[1] == self.data_off():
                            self.report("only owned blocks are released", ln, "%s releases an image whose data belongs to another object" % bn)
            return [s]
        g = self.mod.fns.get(n)
        if g is not None and (g.get("file") or "").endswith((".c", ".h")):
            sm = self.A.summary(n)
            self.stats["calls_resolved"] += 1
            for v in vals:
                self.use(v, s, ln, "passes to %s" % bn)
            if sm is None or g["bn"] in UNFINISHED:
                for v in vals:
                    self.escape(v, s)
                return [s]
            out = []
            for oc in sm:
                if any(j < len(vals) and self.nullness(vals[j], s) not in (None, isnull) for j, isnull in oc[4]):
                    continue
                out.append(self.apply(i, oc, vals, s.copy(), bn))
            return out
        # external routine: accesses its arguments, keeps none
        for v in vals:
            self.use(v, s, ln, "passes to %s" % bn)
        if g is not None or n.startswith("_Z"):
            for v in vals:
                self.escape(v, s)
        elif bn in ("strchr", "strstr", "strrchr", "memchr") and vals:
            v = vals[0]
            s.env[res] = ("in", v[1], None) if v[0] in ("obj", "in") else UNK
        elif bn.startswith("SDL_"):
            pass
        return [s]

    def nullness(self, v, s):
        if v[0] == "null":
            return True
        if v[0] == "obj":
            o = s.obj.get(v[1])
            return None if o and o[1] == "maybe" else False
        if v[0] in ("in", "stack", "stackin", "glob"):
            return False
        if v[0] == "arg":
            return s.an.get(v[1])
        return None

    def data_off(self):
        return self.mod.foff("SIMPLE_MAT", "data")

    KINDS = {"simple_mat": "simple_mat", "SIMPLE_MAT": "simple_mat", "struct SIMPLE_MAT": "simple_mat", "struct HyperMat": "hyper_mat", "struct STRUCT_2D": "S_2D",
             "struct wavelet_base": "wavelet_base"}

    def apply(self, i, oc, vals, s, bn):
        ret, fields, outs, rel, an = oc
        ln, res = i.get("ln"), i["i"]

        def imp(v, tag):
            """translate a callee value"""
            if v[0] == "arg":
                return vals[v[1]] if v[1] < len(vals) else UNK
            if v[0] == "argin":
                return self.offset(vals[v[1]], v[2]) if v[1] < len(vals) else UNK
            if v[0] == "ld":
                base = self.offset(vals[v[1]], v[2]) if v[1] < len(vals) else UNK
                c = self.cell(base)
                if c in s.mem:
                    return s.mem[c]
                if base[0] in ("arg", "argin") and c:
                    return ("ld", base[1], c[1])
                return UNK
            if v[0] == "new":
                site = (res, v[1])
                if site not in made:
                    made.add(site)
                    self.new(site, v[2], v[3], ln, s)
                return ("obj", site)
            if v[0] == "newin":
                return ("in", (res, v[1]), None)
            return v
        made = set()
        for v in rel:
            w = imp(v, 0)
            self.free(w, s, ln, bn, ("heap", "simple_mat", "hyper_mat", "file", "S_2D"))
        r = imp(ret, 0) if ret else None
        for b, off, v in fields:
            s.mem[(("o", (res, b)), off)] = imp(v, 1)
        for j, off, v in outs:
            if j < len(vals):
                base = self.offset(vals[j], off) if off else vals[j]
                c = self.cell(base)
                w = imp(v, 2)
                if c is not None:
                    s.mem[c] = w
                else:
                    self.escape(w, s)
        if r is not None:
            s.env[res] = r
        return s

    # ---- function exit
    def ret(self, t, s):
        v = self.val(t["a"][0], s) if t.get("a") else None
        ln = t.get("ln")
        f = self.f
        keep = set()
        isptr = f["ret"] == "ptr"
        self.stats["exit_states"] += 1
        if isptr and v is not None:
            self.use(v, s, ln, "returns")
            if v[0] in ("stack", "stackin"):
                self.report("no local storage is returned", ln, "returns the address of a local variable")
            keep |= self.owned(v, s)
        for (b, off), x in s.mem.items():
            if b[0] == "a":
                keep |= self.owned(x, s)
                if x[0] in ("obj", "in") and s.obj.get(x[1], (0, 0))[1] == "freed":
                    self.report("no use after release", ln, "leaves %s pointing into a block released on this path (obtained at line %s)" % (describe(f, ("ld", b[1], off)), s.obj[x[1]][2]))
        for st, o in s.obj.items():
            if o[1] == "escaped":
                keep |= self.owned(("obj", st), s)
        for st, o in s.obj.items():
            if o[1] in ("live",) and st not in keep:
                what = {"file": "the file handle opened at line %s is still open", "heap": "the block allocated at line %s is not released"}.get(
                    o[0], "the " + o[0] + " obtained at line %s is not released")
                self.report("every block is released", o[2], (what % o[2]) + " on the path leaving %s at line %s" % (f["bn"], ln))
            elif o[1] == "maybe" and st not in keep:
                self.report("every block is released", o[2], "the handle opened at line %s is neither tested nor closed on the path leaving %s at line %s" % (o[2], f["bn"], ln))
        self.outcomes.add(self.outcome(v if isptr else None, s))

    def outcome(self, v, s):
        num = {}
        fields = []
        outs = []
        order = []

        def exp(x):
            if x[0] == "obj":
                o = s.obj.get(x[1])
                if o is None:
                    return UNK
                if o[1] == "escaped":
                    return UNK
                if x[1] not in num:
                    num[x[1]] = len(num)
                    order.append(x[1])
                kind = o[0]
                if kind == "heap" and num[x[1]] == 0 and v is not None and x == v:
                    kind = self.KINDS.get((self.f.get("rdi") or "").rstrip("*"), "heap")
                return ("new", num[x[1]], kind, o[1])
            if x[0] == "in":
                return ("newin", num[x[1]]) if x[1] in num else UNK
            if x[0] in ("stack", "stackin"):
                return UNK
            return x
        ret = exp(v) if v is not None else None
        argcells = [((b[1], off), x) for (b, off), x in sorted(s.mem.items(), key=str) if b[0] == "a"]
        for (j, off), x in argcells:
            outs.append((j, off, exp(x)))
        k = 0
        while k < len(order):
            st = order[k]
            for (b, off), x in sorted(s.mem.items(), key=str):
                if b == ("o", st):
                    if x[0] == "in" and x[1] == st:
                        continue
                    fields.append((k, off, exp(x)))
            k += 1
        rel = tuple(sorted((x for x in s.rel), key=str))
        # what the path found out about NULL parameters matters only where outcomes differ in more than that
        return (ret, tuple(fields), tuple(outs), rel, tuple(sorted(s.an.items())))


PRIVATE_RELEASERS = set(RELEASE)


def public(mod):
    """names declared in the modules' headers"""
    import glob, re
    out = set()
    for h in glob.glob(mod.repo + "/modules/*/include/**/*.h*", recursive=True):
        t = open(h, encoding="latin1").read()
        out |= set(re.findall(r"\b([A-Za-z_]\w*)\s*\([^;{}]*\)\s*;", t))
    return out


def analyse(mod):
    A = Analysis(mod).run()
    pub = public(mod)
    for f in A.c_fns():
        sm = A.sum.get(f["name"])
        if not sm or f["bn"] in PRIVATE_RELEASERS or f["bn"] not in pub:
            continue
        for oc in sm:
            for v in oc[3]:
                replaced = v[0] == "ld" and any(o[0] == v[1] and o[1] == v[2] for o in oc[2])
                if not replaced:
                    A.findings.append({"rule": "the caller's objects stay the caller's", "fn": f["bn"], "where": "%s:%s" % (mod.rel(f.get("file") or "?"), f.get("line")),
                                       "what": "%s releases %s, which belongs to its caller" % (f["bn"], describe(f, v))})
    return A


def describe(f, v):
    a = f["args"][v[1]]["name"] if v[1] < len(f["args"]) else "argument %d" % v[1]
    if v[0] == "arg":
        return a
    return "a block held by %s (offset %s)" % (a, v[2])


if __name__ == "__main__":
    import sys, pickle, os
    if len(sys.argv) > 1:
        m = ir.Module(pickle.load(open(sys.argv[1], "rb")), ir.REPO)
    else:
        m = ir.load()
    A = analyse(m)
    print(A.stats, A.gave_up)
    for x in A.findings:
        print(x)
    if len(sys.argv) > 2:
        for n in sys.argv[2:]:
            print(n, A.sum.get(n))
