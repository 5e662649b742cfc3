"""Where each header value goes: def-use over the SSA form of the cube reader (helpers inlined).

A header value is *obtained* under the key whose comparison guards it (the region dominated by the true edge of
cmpstr/strcmp/strncmp/strstr against a constant) by sscanf/atoi/strtol/atof or by copying text.  It *arrives* where the
created cube's constructor gets it.  The rule compares the key with the argument position.  Whatever cannot be followed
(a destination passed on to another routine, a table of keys) makes that position unknown, and unknown is not judged."""
import ir

SCAN = {"sscanf", "__isoc99_sscanf", "__isoc23_sscanf", "fscanf", "__isoc99_fscanf", "__isoc23_fscanf"}
CMPS = {"cmpstr": 1, "strcmp": 0, "strncmp": 0, "strcasecmp": 0, "strncasecmp": 0, "strstr": None}
CONV = {"atoi", "atol", "strtol", "strtoul", "atof", "strtod", "strtof"}
ALLOC = {"malloc", "calloc", "realloc"}
TEXT = {"memcpy", "memmove", "strcpy", "strncpy", "strcat", "strncat"}
NEUTRAL = {"fgets", "strlen", "strchr", "strtok", "free", "fclose", "printf", "lifetime", "memset", "strdup", "strspn", "strcspn"} | set(CMPS)
UNKNOWN = ("unknown",)
# the keys of the ENVI header format
ENVI = ["description", "samples", "lines", "bands", "header offset", "file type", "data type", "interleave", "sensor type", "byte order", "wavelength units", "band names", "wavelength",
        "data ignore value", "default bands", "map info", "x start", "y start", "reflectance scale factor", "fwhm", "data gain values", "data offset values", "default stretch", "pixel size",
        "z plot range", "z plot titles", "projection info", "coordinate system string", "acquisition time", "cloud cover", "bbl", "spectra names", "solar irradiance", "major frame offsets"]
KEYS = {0: "samples", 1: "lines", 2: "bands", 3: "data type", 4: "interleave", 6: "wavelength"}
MAKERS = {"create_hyper_mat_with_data": {0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 6: 6}, "create_hyper_mat": {0: 0, 1: 1, 2: 2, 3: 3, 4: 4}}


def short(i):
    n = i.get("callee") or ""
    if n.startswith("llvm."):
        n = n.split(".")[1]
    return n


class Reader:
    def __init__(self, mod, f):
        self.mod, self.f = mod, f
        self.I, self.at = {}, {}
        self.succ = {}
        for b in f["blocks"]:
            self.succ[b["id"]] = list(b["succ"])
            for i in b["is"]:
                self.I[i["i"]] = i
                self.at[i["i"]] = b["id"]
        self.dom = self.dominators()
        self.keyregions()
        self.cells()

    def dominators(self):
        bs = [b["id"] for b in self.f["blocks"]]
        pred = {b: [] for b in bs}
        for b in bs:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        D = {b: set(bs) for b in bs}
        D[bs[0]] = {bs[0]}
        ch = True
        while ch:
            ch = False
            for b in bs[1:]:
                ps = [D[p] for p in pred[b]]
                n = (set.intersection(*ps) if ps else set()) | {b}
                if n != D[b]:
                    D[b] = n
                    ch = True
        return D

    def string(self, o):
        if o[0] != "g":
            return None
        g = self.mod.globals.get(o[1])
        return g["init"][1].rstrip("\0") if g and g.get("init") and g["init"][0] == "str" else None

    def keyregions(self):
        """[(key, block that is entered only when the key was recognised)]"""
        self.regions, self.raw = [], {}
        for i in self.I.values():
            n = short(i)
            if i["op"] != "call" or n not in CMPS:
                continue
            ks = [self.string(a) for a in i["a"][:2]]
            k = next((x for x in ks if x), None)
            if k is None:
                continue
            self.truth(i["i"], n, k)

    def truth(self, call, n, key):
        for j in self.I.values():
            if j["op"] == "icmp" and ["i", call] in [x[:2] for x in j["a"]]:
                c = next((x for x in j["a"] if x[0] in ("c", "null")), None)
                if c is None:
                    continue
                v = 0 if c[0] == "null" else c[1]
                if n == "cmpstr":
                    pos = (j["pred"] == "eq") == (v == 1) if v in (0, 1) else None
                elif n == "strstr":
                    pos = j["pred"] == "ne"
                else:
                    pos = j["pred"] == "eq" if v == 0 else None
                if pos is None or j["pred"] not in ("eq", "ne"):
                    continue
                self.branch(j["i"], pos, key, n)

    def branch(self, cond, pos, key, how, d=0):
        for b in self.I.values():
            if b["op"] == "br" and len(b["succ"]) == 2 and b["a"][0][:2] == ["i", cond]:
                t = b["succ"][0 if pos else 1]
                if t != b["succ"][1 if pos else 0] and self.pred[t] == [self.at[b["i"]]]:
                    k = key.strip().rstrip("={ \t").strip()
                    self.regions.append((k, t))
                    self.raw[k] = (key, how, self.I[b["i"]])
            elif b["op"] == "xor" and ["i", cond] in [x[:2] for x in b["a"]] and d < 3:
                self.branch(b["i"], not pos, key, how, d + 1)
            elif b["op"] in ("and", "select") and pos and ["i", cond] in [x[:2] for x in b["a"]] and d < 3:
                if b["op"] == "and" or b["a"][2][0] == "c" and b["a"][2][1] == 0:
                    self.branch(b["i"], True, key, how, d + 1)

    def key(self, block):
        """the innermost recognised key of a block"""
        ks = [(len(self.dom[t]), k) for k, t in self.regions if t in self.dom[block]]
        return max(ks)[1] if ks else None

    # ---- memory
    def root(self, o, d=0):
        """(local object, constant offset) an address denotes; a variable offset gives (object, None)"""
        if o[0] != "i" or d > 10:
            return None
        i = self.I[o[1]]
        if i["op"] == "alloca":
            return o[1], 0
        if i["op"] == "getelementptr":
            r = self.root(i["base"], d + 1)
            return r and (r[0], None if i.get("terms") or r[1] is None else r[1] + i["off"])
        if i["op"] == "bitcast":
            return self.root(i["a"][0], d + 1)
        return None

    def cells(self):
        """what is put into each local: (block, origins)"""
        self.puts, self.esc = {}, set()
        self.scans = 0
        for i in self.I.values():
            b = self.at[i["i"]]
            if i["op"] == "store":
                r = self.root(i["a"][1])
                if r is not None:
                    self.puts.setdefault(r, []).append((b, ("v", i["a"][0]), i))
                r = self.root(i["a"][0])
                if r is not None:
                    self.esc.add(r[0])
            elif i["op"] == "call":
                n = short(i)
                rs = [(k, self.root(a)) for k, a in enumerate(i["a"]) if a[0] == "i" and self.root(a) is not None]
                if n in SCAN:
                    self.scans += 1
                    for k, r in rs:
                        if k >= 2:
                            self.puts.setdefault(r, []).append((b, ("key", self.key(b)), i))
                elif n in TEXT:
                    for k, r in rs:
                        if k == 0:
                            self.puts.setdefault(r, []).append((b, ("copy", i["a"][1]), i))
                elif n in NEUTRAL or n in MAKERS:
                    if n == "fgets":
                        for k, r in rs:
                            self.puts.setdefault(r, []).append((b, ("line",), i))
                else:
                    self.esc |= {r[0] for _, r in rs}
            elif i["op"] in ("phi", "select") and i["ty"] == "ptr":
                # one of several places, chosen at run time
                for v in [v for _, v in i["inc"]] if i["op"] == "phi" else i["a"][1:]:
                    r = self.root(v)
                    if r is not None:
                        self.esc.add(r[0])
        for r in self.puts:
            if r[1] is None:
                self.esc.add(r[0])

    def origins(self, o, seen=None, at=None):
        seen = seen or set()
        if o[0] in ("c", "f"):
            return {("const",)}
        if o[0] == "null":
            return {("const",)}
        if o[0] != "i":
            return {UNKNOWN}
        if o[1] in seen:
            return set()
        seen = seen | {o[1]}
        i = self.I[o[1]]
        op = i["op"]
        if op == "phi":
            out = set()
            for _, v in i["inc"]:
                out |= self.origins(v, seen)
            return out
        if op == "select":
            return self.origins(i["a"][1], seen) | self.origins(i["a"][2], seen)
        if op in ("sext", "zext", "trunc", "bitcast", "freeze", "fptosi", "sitofp", "fptrunc", "fpext", "fptoui"):
            return self.origins(i["a"][0], seen)
        if op == "load":
            r = self.root(i["a"][0])
            return self.cell(r, self.at[o[1]], seen) if r is not None else {UNKNOWN}
        if op == "call":
            n = short(i)
            if n in CONV:
                return {("key", self.key(self.at[o[1]]))}
            if n in ALLOC:
                k = self.key(self.at[o[1]])
                return {("key", k)} if k else {UNKNOWN}
            return {UNKNOWN}
        return {UNKNOWN}

    def cell(self, r, block, seen):
        """origins of what local r holds when read in the given block"""
        if r[0] in self.esc or r[1] is None:
            return {UNKNOWN}
        ps = self.puts.get(r, [])
        if not ps and any(x[0] == r[0] for x in self.puts):
            return {UNKNOWN}   # written at other offsets: possibly as a whole
        k = self.key(block)
        inner = [p for p in ps if k is not None and self.key(p[0]) == k and any(t in self.dom[p[0]] and t in self.dom[block] for kk, t in self.regions if kk == k)]
        if inner and all(p[1] != ("line",) for p in inner):
            ps = inner
        out = set()
        for b, w, i in ps:
            if w[0] == "key":
                out.add(w if w[1] else UNKNOWN)
            elif w[0] == "line":
                out.add(("text", self.key(block)))
            elif w[0] == "copy":
                out |= self.text(w[1], b, seen)
            else:
                out |= self.origins(w[1], seen)
        return out or {("const",)}

    def text(self, o, block, seen):
        if o[0] == "g":
            return {("const",)}
        r = self.root(o)
        if r is None:
            k = self.key(block)
            return {("key", k)} if k else {UNKNOWN}
        if ("cell", r) in seen:
            return set()
        out = self.cell(r, block, seen | {("cell", r)})
        return {(("key", self.key(block)) if x[0] == "text" else x) for x in out}


def reader(rep, p, mod):
    f = mod.fn("hmread_with_hdr")
    if f is None or not f.get("blocks"):
        raise ir.AnalysisError("the reader hmread_with_hdr is gone")
    R = Reader(mod, f)
    loc = lambda i: "%s:%s" % (mod.rel(f.get("file") or "?"), i.get("ln") or f.get("line"))
    makers = [i for i in R.I.values() if i["op"] == "call" and short(i) in MAKERS]
    judged, unknown = [], []
    keys = {k for k, _ in R.regions}
    for m in makers:
        for a, slot in MAKERS[short(m)].items():
            want = KEYS[slot]
            o = m["a"][a]
            if slot == 4:
                r = R.root(o)
                org = R.cell(r, R.at[m["i"]], set()) if r is not None else {("const",)} if o[0] == "g" else {UNKNOWN}
            else:
                org = R.origins(o)
            if UNKNOWN in org or any(x[0] == "text" for x in org) or any(x == ("key", None) for x in org):
                unknown.append(want)
                continue
            got = {x[1] for x in org if x[0] == "key"}
            judged.append(want)
            bad = [k for k in got if not same(k, want)]
            if bad:
                rep.violation("each header value goes where its key says", loc(m), "hmread_with_hdr", "the value of '%s' becomes the cube's %s" % (sorted(bad)[0], want))
            elif not got:
                rep.violation("each header value goes where its key says", loc(m), "hmread_with_hdr", "the cube's %s does not come from the header" % want)
    for k, (raw, how, i) in sorted(R.raw.items()):
        want = next((x for x in KEYS.values() if same(k, x)), None)
        hit = lambda h: raw in h if how == "strstr" else h.startswith(raw) or raw.startswith(h)
        if want and how in ("cmpstr", "strstr"):
            for other in ENVI:
                if other != want and (other, want) != ("wavelength units", "wavelength") and hit(other + " = {" if "=" in raw else other):
                    rep.violation("each header value goes where its key says", loc(i), "hmread_with_hdr", "the line of '%s' is taken for '%s' (compared with \"%s\")" % (other, want, raw))
    nfmt = formats(rep, R, loc)
    for m in makers:
        r = R.root(m["a"][4]) if 4 in MAKERS[short(m)] else None
        cp = [i for b, w, i in R.puts.get(r, []) if w[0] == "copy" and same(R.key(b), "interleave") and short(i) in ("memcpy", "memmove", "strncpy")] if r and r[0] not in R.esc else []
        if len(cp) == 1 and len(cp[0]["a"]) > 2 and cp[0]["a"][2][0] == "c" and cp[0]["a"][2][1] < 3:
            rep.violation("the value written after a key is the value read", loc(cp[0]), "hmread_with_hdr", "only %d characters of the interleave are kept" % cp[0]["a"][2][1])
    # streams
    nst = 0
    for i in R.I.values():
        n = short(i)
        if i["op"] == "call" and n in ("fread", "fgets", "fclose"):
            h = i["a"][3] if n == "fread" else i["a"][2] if n == "fgets" else None
            src = path_arg(R, h) if h is not None else None
            if src is None:
                continue
            nst += 1
            if n == "fread" and src != 0 or n == "fgets" and src != 1:
                rep.violation("pixels are read from the image file and the header from the header file", loc(i), "hmread_with_hdr", "%s reads the file named by argument %d" % (n, src + 1))
    total(rep, mod, f, loc, makers)
    if not makers or len(judged) < 4:
        rep.notes.append("hmread_with_hdr: %d of %d header values could be followed (unknown: %s)" % (len(judged), len(KEYS), ", ".join(sorted(unknown))))
    c = rep.coverage
    c["header_keys"] = sorted(keys)
    c["header_values_followed"] = judged
    c["header_values_unknown"] = unknown
    c["header_streams"] = nst
    c["header_formats"] = nfmt
    c["explanation"] = c.get("explanation", "") + " The reader: SSA def-use from each value obtained under a recognised key to the argument of the created cube it becomes; the stream each read uses; the number of bytes read against the created shape."


def scanf(fmt, text):
    """the fields a scanf format takes from a text (None: a directive this does not model)"""
    out, p, i = [], 0, 0
    while i < len(fmt):
        ch = fmt[i]
        if ch.isspace():
            while p < len(text) and text[p].isspace():
                p += 1
            i += 1
            continue
        if ch != "%":
            if p >= len(text) or text[p] != ch:
                return out
            p += 1
            i += 1
            continue
        i += 1
        star = fmt[i:i + 1] == "*"
        i += star
        w = ""
        while i < len(fmt) and fmt[i].isdigit():
            w += fmt[i]
            i += 1
        w = int(w) if w else None
        half = 0
        while fmt[i:i + 1] in ("l", "h"):
            half += fmt[i] == "h"
            i += 1
        k = fmt[i:i + 1]
        i += 1
        if k == "[":
            neg = fmt[i:i + 1] == "^"
            i += neg
            j = fmt.find("]", i + 1)
            if j < 0 or "-" in fmt[i:j]:
                return None
            st = fmt[i:j]
            i = j + 1
            q = p
            while q < len(text) and (text[q] in st) != neg and (w is None or q - p < w):
                q += 1
            if q == p:
                return out
        elif k == "c":
            q = p + (w or 1)
            if q > len(text):
                return out
        elif k in ("d", "i", "u", "f", "g", "s"):
            while p < len(text) and text[p].isspace():
                p += 1
            q = p
            ok = (lambda x: not x.isspace()) if k == "s" else (lambda x: x.isdigit() or x in "+-") if k in "diu" else (lambda x: x.isdigit() or x in "+-.eE")
            while q < len(text) and ok(text[q]) and (w is None or q - p < w):
                q += 1
            if q == p:
                return out
        else:
            return None
        if not star:
            got = text[p:q]
            if half and k in ("d", "i", "u") and got.lstrip("+-").isdigit():
                b = 16 if half == 1 else 8
                n = int(got) % (1 << b)
                got = str(n - (1 << b) if k != "u" and n >> (b - 1) else n)
            out.append(got)
        p = q
    return out


def formats(rep, R, loc):
    """a format applied to a whole header line takes the value the writer puts after the key"""
    n = 0
    for i in R.I.values():
        if i["op"] != "call" or short(i) not in SCAN or "sscanf" not in short(i):
            continue
        k, fmt = R.key(R.at[i["i"]]), R.string(i["a"][1])
        r = R.root(i["a"][0])
        want = next((x for x in KEYS.values() if same(k, x)), None) if k else None
        if fmt is None or want is None or want == "wavelength" or r is None or r[1] != 0 or not any(p[1] == ("line",) for p in R.puts.get(r, [])):
            continue
        values = {"interleave": ["bsq", "bil", "bip"], "data type": ["1", "2", "3", "4", "5", "6", "9", "12", "13", "14", "15"]}.get(want, ["1", "7", "250", "1024", "40000", "2147483647"])
        n += 1
        for value in values:
            got = scanf(fmt, "%s = %s\n" % (want, value))
            if got is None:
                n -= 1
                break
            if len(got) == len(i["a"]) - 2 and got and got[-1].strip() == value:
                continue
            rep.violation("the value written after a key is the value read", loc(i), "hmread_with_hdr", "the format \"%s\" takes %s from the line \"%s = %s\"" % (fmt, got[-1:] or "nothing", want, value))
            break
    return n


def same(k, want):
    k = (k or "").lower()
    return bool(k) and (want.startswith(k) or k.startswith(want))


def path_arg(R, o, d=0):
    """index of the argument naming the file a handle was opened on"""
    if o[0] != "i" or d > 4:
        return None
    i = R.I[o[1]]
    if i["op"] == "call" and short(i) == "fopen":
        return i["a"][0][1] if i["a"][0][0] == "a" else None
    if i["op"] == "phi":
        s = {path_arg(R, v, d + 1) for _, v in i["inc"] if v[0] != "null"}
        return s.pop() if len(s) == 1 else None
    return None


def total(rep, mod, f, loc, makers):
    """the one read of the pixel block covers exactly the created shape"""
    import summ
    from sym import A
    S = summ.Summarizer(mod)
    try:
        s = S.summary(f["name"])
    except Exception as e:
        rep.notes.append("hmread_with_hdr: no summary (%s)" % e)
        return
    mk = [e for e in s.effs if e.kind == "call" and e.name in MAKERS]
    rd = [(e, L) for e, L, g in summ.walk(s.effs) if e.kind == "call" and e.name == "fread"]
    if len(mk) != 1 or len(rd) != 1 or rd[0][1]:
        return
    a = mk[0].args
    r = rd[0][0]
    num = lambda x: x if hasattr(x, "d") else None
    dims = [num(x) for x in a[:4]]
    sz, ct = num(r.args[1]), num(r.args[2])
    if None in dims or sz is None or ct is None:
        return
    want = A("es", dims[3]) * dims[0] * dims[1] * dims[2]
    got = sz * ct
    rep.coverage["header_bytes"] = "followed"
    if want - got != want - want:
        ids = set(got.atom_ids())
        if ids <= set(want.atom_ids()):
            rep.violation("the pixel block is read whole", "%s:%s" % r.loc if r.loc else loc(makers[0]), "hmread_with_hdr", "the number of bytes read is not element size x samples x lines x bands")
        else:
            rep.coverage["header_bytes"] = "not comparable"
