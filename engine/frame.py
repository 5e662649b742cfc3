"""Which caller-visible storage may each C function write, and does it keep or publish pointers into it?

Uses the extracted memory relations (path guards kept, so a pointer that is the caller's image on one path and a private copy on
another is only counted on the first), closed over the calls each function makes."""
import summ, canon, sym
from sym import Ptr, PIte, Poly

STREAM = {"fread": (0,), "fgets": (0,), "sprintf": (0,), "snprintf": (0,), "strcpy": (0,), "strncpy": (0,), "strcat": (0,), "strncat": (0,), "strtok": (0,), "memcpy": (0,),
          "memmove": (0,), "memset": (0,), "qsort": (0,), "gets": (0,), "free": (0,), "realloc": (0,), "bcopy": (1,), "swab": (1,)}
SCAN = {"sscanf": 2, "__isoc99_sscanf": 2, "__isoc23_sscanf": 2, "fscanf": 2, "__isoc99_fscanf": 2, "__isoc23_fscanf": 2}
# external routines that only read what they are given
READS = {"fwrite", "fopen", "printf", "fprintf", "puts", "fputs", "strlen", "strcmp", "strncmp", "strchr", "strrchr", "strstr", "atof", "atoi", "fclose", "memcmp", "strtol", "strtod",
         "strcasecmp", "strncasecmp", "access", "stat", "perror"}


def root(b, d=0):
    """('arg', i, depth) | ('own',) for storage the function obtained | ('glob', name) | ('?', why)"""
    t = b[0]
    if t == "arg":
        return ("arg", b[1], d)
    if t == "ldp":
        return root(b[1], d + 1)
    if t == "al":
        # an address rounded up inside the block whose address it was computed from
        rs = set()

        def addrs(x):
            for i in x.atom_ids() if isinstance(x, Poly) else ():
                a = sym.atom_of(i)
                if a[0] == "addr":
                    rs.add(root(a[1], d))
                elif a[0] in ("align", "and", "div", "rem", "ite"):
                    for y in a[1:]:
                        addrs(y)
        for x in b[1:]:
            addrs(x)
        return rs.pop() if len(rs) == 1 else ("?", "aligned")
    if t in ("alloca", "ret", "tab", "null"):
        return ("own",)
    if t == "out":
        return ("own",)
    if t == "glob":
        return ("glob", b[1])
    return ("?", t)


def alts(p):
    if isinstance(p, PIte):
        return alts(p.a) + alts(p.b)
    return [p] if isinstance(p, Ptr) else []


def galts(p, g):
    """the pointers p may be, each with the condition under which it is"""
    if isinstance(p, PIte):
        return galts(p.a, sym.band(g, p.c)) + galts(p.b, sym.band(g, sym.bnot(p.c)))
    return [(p, g)] if isinstance(p, Ptr) else []


class Frame:
    def __init__(self, mod):
        self.mod = mod
        canon.set_module(mod)
        self.S = summ.Summarizer(mod)
        self.memo = {}

    def writes(self, name, stack=()):
        """(writes {(arg, depth): (where, how)}, globals {name: where}, unresolved [..], shares {(dst, arg, depth): where}, externals {name: where})"""
        if name in self.memo:
            return self.memo[name]
        if name in stack:
            return {}, {}, [], {}, {}
        mod = self.mod
        f = mod.fn(name)
        s = self.S.summary(f["name"])
        W, G, U, H, X = {}, {}, [], {}, {}
        fl = mod.rel(f.get("file") or "?")

        def at(e):
            l = e.loc
            return "%s:%s" % (l[0], l[1]) if l and l[1] else "%s:%s" % (fl, f.get("line"))

        def hit(base, e, how, guard, extra=0):
            if not canon.live(guard):
                return
            r = root(base)
            if r[0] == "arg":
                W.setdefault((r[1], r[2] + extra), (at(e), how))
            elif r[0] == "glob":
                G.setdefault(r[1], (at(e), how))
            elif r[0] == "?":
                U.append((at(e), how, r[1]))

        def go(es):
            for e in es:
                if e.kind == "loop":
                    go(e.kids)
                elif e.kind in ("st", "cpy", "set"):
                    hit(e.base, e, "stores to it", e.guard)
                    if e.kind == "st":
                        rb = root(e.base)
                        for p, pg in galts(e.val, e.guard):
                            r = root(p.base)
                            if r[0] == "arg" and canon.live(pg):
                                if rb[0] == "own" and e.base[0] == "alloca":
                                    continue
                                H.setdefault((rb[:2], r[1], r[2]), at(e))
                elif e.kind == "call":
                    n = e.name
                    bn = n.split(".")[0] if mod.fn(n) is None else n
                    args = e.args or ()
                    if mod.fn(n) is not None:
                        cw, cg, cu, ch, cx = self.writes(n, stack + (name,))
                        for (i, d), (w, how) in cw.items():
                            if i < len(args):
                                for p, pg in galts(args[i], e.guard):
                                    hit(p.base, e, "passes it to %s, which %s (%s)" % (n, how, w), pg, d)
                        for (dst, i, d) in ch:
                            if i < len(args):
                                for p, pg in galts(args[i], e.guard):
                                    r = root(p.base)
                                    if r[0] == "arg" and canon.live(pg):
                                        H.setdefault((("through", n), r[1], r[2] + d), at(e))
                        for g, x in cg.items():
                            G.setdefault(g, x)
                        for x, y in cx.items():
                            X.setdefault(x, y)
                        U.extend((at(e), "through %s" % n, u[2]) for u in cu[:1])
                        continue
                    X.setdefault(bn, at(e))
                    if bn in READS:
                        continue
                    k = STREAM.get(bn)
                    if k is None and bn in SCAN:
                        k = range(SCAN[bn], len(args))
                    if k is None:
                        continue
                    for i in k:
                        if i < len(args):
                            for p, pg in galts(args[i], e.guard):
                                hit(p.base, e, "lets %s write it" % bn, pg)
        go(s.effs)
        for p in alts(s.ret) if s.ret is not None else []:
            r = root(p.base)
            if r[0] == "arg":
                H.setdefault((("returned",), r[1], r[2]), "%s:%s" % (fl, f.get("line")))
        for o in s.opaque:
            if o[0] in ("ptr-rec",):
                U.append(("%s:%s" % (fl, f.get("line")), "a pointer that changes object in a loop", "ptr-rec"))
        self.memo[name] = (W, G, U, H, X)
        return self.memo[name]
