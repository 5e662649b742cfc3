"""The whole-tree rules: each takes (report, property, module) and adds violations and coverage."""
import ir


def floor(n, least, what):
    if n < least:
        raise ir.AnalysisError("%s: %d found, at least %d expected" % (what, n, least))


def _own(mod):
    import own
    if not hasattr(mod, "_own"):
        mod._own = own.analyse(mod)
    return mod._own


def _is_handle(x):
    return "handle" in x["rule"] or "handle" in x["what"] or "fclose" in x["what"] or "given a file" in x["what"]


def _ownership(rep, mod, handles):
    A = _own(mod)
    st = A.stats
    floor(st["functions"], 100, "functions analysed")
    floor(st["acquisitions"], 40, "acquisition sites")
    floor(st["releases"], 40, "release sites")
    n = 0
    for x in A.findings:
        if _is_handle(x) == handles:
            rep.violation(x["rule"], x["where"], x["fn"], x["what"])
            n += 1
    for f, why in sorted(A.gave_up.items()):
        rep.notes.append("%s: ownership analysis gave up (%s)" % (f, why))
    c = rep.coverage
    c.setdefault("explanation", "")
    c["explanation"] += (" Path-sensitive typestate over the SSA form of every C function (callees replaced by their inferred outcomes): "
                         "functions = analysed, states = abstract states explored, acquisitions/releases = sites, exit_states = function exits at which every block was accounted for.")
    c["ownership_rules"] = sorted(OWN_RULES[handles])
    c.update({"own_" + k: v for k, v in st.items()})
    c["own_gave_up"] = sorted(A.gave_up)
    rep.assumptions += ["allocation succeeds or the function stops on the failure path it tests", "different pointer arguments do not overlap",
                        "callers pass well-formed objects"]


OWN_RULES = {
    False: ["every block is released or handed to the caller on every path", "no block is released twice", "no use after release", "only whole blocks are released",
            "only owned blocks are released", "each block goes to its own release routine", "no local storage is returned", "the caller's objects stay the caller's"],
    True: ["every opened handle is closed on every path", "a handle is used only after it was found open", "no handle is used after it was closed"],
}


def ownership(rep, p, mod):
    _ownership(rep, mod, False)


def handles(rep, p, mod):
    _ownership(rep, mod, True)


def _frame(mod):
    import frame
    if not hasattr(mod, "_frame"):
        mod._frame = frame.Frame(mod)
    return mod._frame


def _c_fns(mod):
    return [f for f in sorted(mod.our_fns(), key=lambda f: f["bn"]) if (f.get("file") or "").endswith(".c")]


def _is_ptr(a):
    return a["ty"] == "ptr"


def inputs_unmodified(rep, p, mod):
    """only destinations are written; no result shares storage with an input"""
    import own
    from outputs import OUTPUTS, WRAPS
    F = _frame(mod)
    pub = own.public(mod)
    nf = npar = nw = 0
    unresolved, skipped = [], []
    for f in _c_fns(mod):
        n = f["bn"]
        if n in own.RELEASE or not any(_is_ptr(a) for a in f["args"]):
            continue
        if n not in OUTPUTS:
            if n in pub:
                skipped.append(n)
            continue
        try:
            W, G, U, H, X = F.writes(f["name"])
        except Exception as e:
            rep.notes.append("%s: no summary (%s)" % (n, e))
            continue
        nf += 1
        out = OUTPUTS[n]
        npar += sum(1 for i, a in enumerate(f["args"]) if _is_ptr(a) and i not in out)
        for (i, d), (where, how) in sorted(W.items()):
            nw += 1
            a = f["args"][i]["name"]
            if i not in out:
                rep.violation("inputs are not written", where, n, "%s is an input of %s, but a path of it %s" % (a, n, how))
            elif d == 0 and 0 not in out[i]:
                rep.violation("a destination's shape and type are not changed", where, n, "%s writes a field of the destination object %s (%s)" % (n, a, how))
        for (dst, i, d), where in sorted(H.items(), key=str):
            if (n, i) not in WRAPS:
                rep.violation("results share no storage with inputs", where, n, "%s stores a pointer into its argument %s in %s" % (
                    n, f["args"][i]["name"], "an object of its own" if dst[0] == "own" else "the returned value" if dst[0] == "returned" else "another object (%s)" % (dst,)))
        if U:
            unresolved.append("%s (%s)" % (n, U[0][1]))
    floor(nf, 80, "routines with pointer arguments")
    rep.coverage.update({
        "explanation": "For every public C routine: the caller-visible storage its extracted effects, and those of everything it calls, may write on any live path, compared with the table of documented destinations (engine/outputs.py). "
                       "'unresolved' routines contain a write through a pointer whose object is not known; that write is not judged.",
        "rule": "writes(f) ⊆ destinations(f); no pointer into an input is stored in another object or returned",
        "functions": nf, "input_arguments": npar, "written_roots": nw, "unresolved": unresolved, "not_in_table": skipped})
    rep.assumptions += ["different pointer arguments do not overlap", "external routines write only through the arguments the C library documents"]


def no_hidden_state(rep, p, mod):
    """results are a function of the arguments"""
    import own, sym, canon
    from outputs import NONDET, NONDET_BY_DESIGN
    F = _frame(mod)
    seen = {}

    def has(x, memo):
        if isinstance(x, (sym.Poly, sym.Ptr, sym.PIte)):
            r = memo.get(x)
            if r is None:
                memo[x] = False
                if isinstance(x, sym.Poly):
                    r = any(has(sym.atom_of(i), memo) for i in x.atom_ids())
                elif isinstance(x, sym.Ptr):
                    r = has(x.base, memo) or has(x.off, memo)
                else:
                    r = hasg(x.c, memo) or has(x.a, memo) or has(x.b, memo)
                memo[x] = r
            return r
        if isinstance(x, tuple) and x:
            if x[0] == "undef":
                return True
            if x[0] == "ite":
                return hasg(x[1], memo) or has(x[2], memo) or has(x[3], memo)
            return any(has(y, memo) for y in x if not isinstance(y, (int, str)))
        return False

    def has_if(x, g, memo):
        """the same, without the alternatives of selections that g excludes"""
        if not has(x, {}):
            return False
        k = (x, g)
        if k in memo:
            return memo[k]
        memo[k] = False
        if isinstance(x, sym.Poly):
            r = any(has_if(sym.atom_of(i), g, memo) for i in x.atom_ids())
        elif isinstance(x, sym.Ptr):
            r = has_if(x.base, g, memo) or has_if(x.off, g, memo)
        elif isinstance(x, sym.PIte) or isinstance(x, tuple) and x and x[0] == "ite":
            c, a, b = (x.c, x.a, x.b) if isinstance(x, sym.PIte) else x[1:4]
            ga, gb = sym.band(g, c), sym.band(g, sym.bnot(c))
            r = hasg(c, {}) and ga != 0 and gb != 0 or ga != 0 and has_if(a, ga, memo) or gb != 0 and has_if(b, gb, memo)
        elif isinstance(x, tuple) and x:
            r = x[0] == "undef" or any(has_if(y, g, memo) for y in x if not isinstance(y, (int, str)))
        else:
            r = False
        memo[k] = r
        return r

    def hasg(g, memo):
        if not isinstance(g, int) or isinstance(g, bool) or g <= 1:
            return False
        return any(has(c, memo) for c in sym.bvars_of(g))
    nf = ne = nx = 0
    muts = set()
    for f in _c_fns(mod):
        n = f["bn"]
        if n in own.UNFINISHED or n in UNFINISHED_RESULTS:
            continue
        try:
            W, G, U, H, X = F.writes(f["name"])
            s = F.S.summary(f["name"])
        except Exception as e:
            rep.notes.append("%s: no summary (%s)" % (n, e))
            continue
        nf += 1
        loc = "%s:%s" % (mod.rel(f.get("file") or "?"), f.get("line"))
        for g, (where, how) in sorted(G.items()):
            if (g, where) in seen:
                continue
            seen[g, where] = 1
            rep.violation("no call changes what a later call computes", where, n, "writes the static object %s" % g)
        for x, where in sorted(X.items()):
            nx += 1
            if x in NONDET and x not in NONDET_BY_DESIGN.get(n, ()):
                if any(x in NONDET_BY_DESIGN.get(h, ()) for h in NONDET_BY_DESIGN) and (x, where) in muts:
                    continue
                if n in NONDET_BY_DESIGN or not _only_through(F, f["name"], x, NONDET_BY_DESIGN):
                    rep.violation("nothing outside the arguments decides a result", where, n, "calls %s" % x)
        # uninitialised variables
        memo = {}

        def go(es, outer=1):
            nonlocal ne
            for e in es:
                g = outer if e.guard is None else sym.band(outer, e.guard)
                if e.kind == "loop":
                    if has(e.count, memo) and canon.live(g) and decided(g, e.count):
                        und(e, "the number of iterations")
                    go(e.kids, g)
                    continue
                if e.kind not in ("st", "cpy", "set", "call") or not canon.live(g):
                    continue
                ne += 1
                for x, what in ((e.off, "an address"), (e.val, "a stored value"), (e.size, "a length")):
                    if x is not None and not isinstance(x, int) and has(x, memo):
                        if not decided(g, x):
                            continue
                        und(e, what)
                if e.kind == "call":
                    for a in e.args or ():
                        if has(a, memo) and decided(g, a):
                            und(e, "an argument of %s" % e.name)

        def decided(g, x):
            """does an unassigned variable remain in x where g holds?"""
            r = canon.under_guard(canon.Rec(kind="call", nest=[], guard=canon.no_oom(g), val=x if not isinstance(x, tuple) else None))
            return has_if(r.val if r.val is not None else x, r.guard, {})

        def und(e, what):
            where = "%s:%s" % (e.loc[0], e.loc[1]) if e.loc and e.loc[1] else loc
            k = (where, what)
            if k not in seen:
                seen[k] = 1
                rep.violation("no result depends on an uninitialised variable", where, n, "%s depends on a variable no path to it assigns" % what)
        go(s.effs)
        if s.ret is not None and not isinstance(s.ret, int) and has(s.ret, memo):
            rep.violation("no result depends on an uninitialised variable", loc, n, "the returned value depends on a variable some path leaves unassigned")
    floor(nf, 120, "functions")
    rep.coverage.update({
        "explanation": "For every C routine: the static objects its extracted effects (closed over calls) may write, the environment sources it calls, and whether any live effect or result contains an unassigned variable.",
        "rule": "writes(f) has no static or global object; externals(f) has no random, clock, environment or stateful source (clustering's seeded start excepted); no live effect contains an unassigned variable",
        "functions": nf, "effects_examined": ne, "external_calls_examined": nx,
        "excluded": sorted(own.UNFINISHED | UNFINISHED_RESULTS)})
    rep.assumptions += ["C library routines other than the listed sources are functions of their arguments and of the files named by them"]


# declared but never finished upstream: their result is never assigned
UNFINISHED_RESULTS = {"hypercv_colortransform", "smshow"}


def _only_through(F, name, ext, allowed):
    """is the external only called inside the routines that may?"""
    s = F.S.summary(name)
    from summ import walk
    for e, loops, g in walk(s.effs):
        if e.kind == "call":
            bn = e.name.split(".")[0]
            if F.mod.fn(e.name) is None and bn == ext:
                return False
            if F.mod.fn(e.name) is not None and e.name not in allowed:
                if ext in F.writes(F.mod.fn(e.name)["name"])[4] and not _only_through(F, F.mod.fn(e.name)["name"], ext, allowed):
                    return False
    return True


# library calls that leave something behind
LEAVES = {"fwrite", "fprintf", "fputs", "fputc", "printf", "puts", "putchar", "remove", "rename"}


def _of_arguments(x):
    """does the condition only speak of the arguments and what they held on entry?"""
    import sym
    if isinstance(x, sym.Poly):
        return all(_of_arguments(sym.atom_of(i)) for i in x.atom_ids())
    if isinstance(x, sym.Ptr):
        return _of_arguments(x.base) and _of_arguments(x.off)
    if isinstance(x, tuple) and x:
        if x[0] in ("ret", "opq", "out", "undef", "alloca", "iv", "sum", "ld", "opqp", "ite"):
            return False
        return all(_of_arguments(y) for y in x if not isinstance(y, (int, str)))
    return not isinstance(x, sym.PIte)


STRINGS = ("cmpstr", "strcmp", "strncmp", "strlen", "strchr", "strrchr", "strstr", "memcmp", "atof", "atoi")


def _derefs(F, name, memo, depth=0):
    """the arguments a routine reads without having found them to exist"""
    import sym, frame
    if name in memo or depth > 12:
        return memo.get(name, set())
    memo[name] = set()
    f = F.mod.fn(name)
    try:
        s = F.S.summary(f["name"]) if f else None
    except Exception:
        s = None
    if s is None:
        return memo[name]
    out, tested = set(), {}

    def read(i, g):
        nv = sym.bvar(("isnull", sym.Ptr(("arg", i), sym.ZERO)))
        if sym.band(sym.band(g, nv), sym.bnot(tested.get(i, 0))) != 0:
            out.add(i)

    def go(es, outer):
        for e in es:
            g = outer if e.guard is None else sym.band(outer, e.guard)
            if e.kind == "loop":
                go(e.kids, g)
            elif e.kind == "fact":
                for v in sym.bvars_of(e.val):
                    if v[0] == "isnull" and v[1].base[0] == "arg" and sym.band(e.val, sym.bvar(v)) == 0:
                        i = v[1].base[1]
                        tested[i] = sym.bor(tested.get(i, 0), g)
            else:
                for i, rg in _reads(F, e, g, memo, depth):
                    read(i, rg)
    go(s.effs, 1)
    memo[name] = out
    return out


def _reads(F, e, g, memo, depth=0):
    """(argument, condition) pairs read by one effect, through pointers the routine was given"""
    import sym, frame
    out = []
    if e.kind in ("ld", "st", "cpy", "set"):
        for b in [e.base] + ([e.val.base] if e.kind == "cpy" and isinstance(e.val, sym.Ptr) else []):
            r = frame.root(b)
            if r[0] == "arg":
                out.append((r[1], g))
    elif e.kind in ("call", "pcall") and e.name:
        n = e.name.split(".")[0]
        inner = _derefs(F, e.name, memo, depth + 1) if F.mod.fn(e.name) is not None else ()
        for i, a in enumerate(e.args or ()):
            if isinstance(a, (sym.Ptr, sym.PIte)):
                for q, qg in frame.galts(a, g):
                    if q.base[0] == "arg" and (n in STRINGS or i in inner):
                        out.append((q.base[1], qg))
    return out


def checks_first(rep, p, mod):
    """a check on the arguments comes before the object it tests for is read and before anything is done"""
    import own, sym, frame
    F = _frame(mod)
    nf = nc = nn = 0
    memo = {}
    for f in sorted(mod.our_fns(), key=lambda f: f["bn"]):
        n = f["bn"]
        if n in own.UNFINISHED:
            continue
        try:
            s = F.S.summary(f["name"])
        except Exception as e:
            rep.notes.append("%s: no summary (%s)" % (n, e))
            continue
        if s is None:
            continue
        nf += 1
        fl = mod.rel(f.get("file") or "?")
        reads, done = {}, []

        def at(e):
            return "%s:%s" % ((mod.rel(e.loc[0]), e.loc[1]) if e.loc and e.loc[1] else (fl, f.get("line")))

        def go(es, outer):
            nonlocal nc, nn
            for e in es:
                g = outer if e.guard is None else sym.band(outer, e.guard)
                if e.kind == "loop":
                    go(e.kids, g)
                    continue
                for i, rg in _reads(F, e, g, memo):
                    reads.setdefault(i, []).append((rg, at(e)))
                if e.kind in ("ld", "st", "cpy", "set"):
                    if e.kind != "ld" and frame.root(e.base)[0] == "arg":
                        done.append((g, at(e), "stores into its caller's object"))
                elif e.kind == "call" and e.name:
                    if mod.fn(e.name) is not None:
                        for (i, d) in F.writes(e.name)[0]:
                            for q, qg in frame.galts(e.args[i], g) if i < len(e.args or ()) else []:
                                if frame.root(q.base)[0] == "arg":
                                    done.append((qg, at(e), "has %s write its caller's object" % e.name))
                    elif e.name.split(".")[0] in LEAVES:
                        done.append((g, at(e), "calls %s" % e.name.split(".")[0]))
                elif e.kind == "fact":
                    nc += 1
                    vs = sym.bvars_of(e.val)
                    for v in vs:
                        if v[0] == "isnull" and v[1].base[0] == "arg" and sym.band(e.val, sym.bvar(v)) == 0:
                            nn += 1
                            i, nv = v[1].base[1], sym.band(g, sym.bvar(v))
                            for rg, where in reads.get(i, ()):
                                if sym.band(rg, nv) != 0:
                                    rep.violation("an object is tested for before it is read", where, n, "%s is read before the check that it exists (%s)" % (f["args"][i]["name"], at(e)))
                                    break
                    if all(_of_arguments(v) for v in vs):
                        bad = sym.band(g, sym.bnot(e.val))
                        for wg, where, how in done:
                            if sym.band(wg, bad) != 0:
                                rep.violation("the arguments are checked before anything is done", where, n, "%s before the check of its arguments at %s" % (how, at(e)))
                                break
        go(s.effs, 1)
    floor(nc, 200, "argument checks")
    rep.coverage.update({
        "order_explanation": "For every routine, in the order of its extracted effects: each check that an argument exists precedes every read through that argument it would exclude, "
                             "and no store to caller-owned storage, output or call writing either precedes a check that only speaks of the arguments.",
        "order_functions": nf, "order_checks": nc, "order_existence_checks": nn})
