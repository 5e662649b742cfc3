"""Compile /repo's library sources to IR, normalise and export them, load the result."""
import glob, json, os, re, subprocess, sys, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class AnalysisError(Exception):
    pass


def src_dirs(repo):
    return [os.path.join(repo, "modules", p) for p in
            ("core/src/c_src", "core/src/cxx_src", "process/src/c_src", "process/src/cxx_src", "highgui/src", "algorithm/src")]


def sources(repo):
    out = []
    for d in src_dirs(repo):
        out += sorted(glob.glob(d + "/*.c")) + sorted(glob.glob(d + "/*.cpp"))
    if len(out) < 10:
        raise AnalysisError("library sources not found under %s" % repo)
    return out


def flags(repo):
    inc = [os.path.join(repo, "test_tool")] + [os.path.join(repo, "modules", m, "include") for m in ("core", "process", "algorithm", "highgui")] + ["/usr/include/gdal", "/usr/include/SDL"]
    return ["-DUSE_SDL=1", "-DX11_switch=1", "-D_cplusplus", "-Dgdal_switch=1", "-Dhypercv_EXPORTS"] + ["-I" + i for i in inc] + ["-g", "-fPIC"]


LENIENT = ["-w", "-Wno-implicit-function-declaration", "-Wno-implicit-int", "-Wno-int-conversion", "-Wno-incompatible-function-pointer-types", "-Wno-error"]


def ensure_irx():
    src = os.path.join(HERE, "irx.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "irx-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + ".%d.tmp" % os.getpid()
    inc = subprocess.run(["llvm-config-18", "--includedir"], capture_output=True, text=True)
    incdir = inc.stdout.strip() if inc.returncode == 0 else "/usr/lib/llvm-18/include"
    r = subprocess.run(["clang++", "-O1", "-std=c++17", "-I" + incdir, src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"], capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError("cannot build the IR exporter: " + r.stderr[-2000:])
    os.rename(tmp, exe)
    return exe


# specification files that instantiate macros of the repository: a rejected instantiation is that property's finding
PROBES = ("vector.c", "hymat.cpp")


def build_ir(repo=None, keep=None, mode="norm", extra_cxx=True):
    """returns the exported module (dict)"""
    repo = repo or REPO
    exe = ensure_irx()
    keep = keep or os.path.join(HERE, "keep.txt")
    tmp = tempfile.mkdtemp(prefix="hcvir")
    try:
        srcs = sources(repo)
        if extra_cxx:
            srcs = srcs + sorted(glob.glob(os.path.join(VERIF, "spec", "*.c")) + glob.glob(os.path.join(VERIF, "spec", "*.cpp")))
        jobs = []
        for i, s in enumerate(srcs):
            cxx = s.endswith(".cpp")
            cc = ["clang++", "-std=gnu++11", "-femit-all-decls", "-fno-exceptions"] if cxx else ["clang", "-femit-all-decls"]
            jobs.append((s, cc + LENIENT + ["-O0", "-Xclang", "-disable-O0-optnone", "-emit-llvm", "-c"] + flags(repo) + [s, "-o", os.path.join(tmp, "%03d.bc" % i)], os.path.join(tmp, "%03d.bc" % i)))

        def run(j):
            r = subprocess.run(j[1], capture_output=True, text=True, cwd="/")
            return j, r
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(run, jobs))
        rejected = {}
        for j, r in res:
            if r.returncode != 0:
                if os.path.basename(j[0]) in PROBES:
                    rejected[os.path.basename(j[0])] = r.stderr[-1500:]
                    continue
                raise AnalysisError("cannot compile %s: %s" % (j[0], r.stderr[-1500:]))
        out = os.path.join(tmp, "m.json")
        r = subprocess.run([exe, keep, out, mode] + [j[2] for j in jobs if os.path.basename(j[0]) not in rejected], capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisError("IR exporter failed: " + r.stderr[-2000:])
        with open(out) as f:
            m = json.load(f)
        m["sources"] = srcs
        m["rejected"] = rejected
        return m
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def base_name(n):
    return re.sub(r"\.\d+$", "", n)


class Module:
    def __init__(self, m, repo):
        self.raw = m
        self.repo = repo
        self.fns = {}
        self.decls = {}
        self.structs = {}
        self.tabs = {}
        self.globals = {g["name"]: g for g in m["globals"]}
        self.sources = m["sources"]
        self.rejected = m.get("rejected", {})
        for s in m["structs"]:
            if s["name"] and s["name"] not in self.structs:
                self.structs[s["name"]] = s
        for f in m["functions"]:
            f["bn"] = base_name(f["name"])
            if f["decl"]:
                self.decls[f["name"]] = f
            else:
                self.fns[f["name"]] = f
        self.bydem = {}
        for f in self.fns.values():
            self.bydem.setdefault(f.get("dem"), f)
        self.rel = lambda p: p[len(repo) + 1:] if p and p.startswith(repo + "/") else p

    def ours(self, f):
        fl = f.get("file") or ""
        if not fl.startswith("/"):
            # clang shortens paths that share a directory with the compilation directory
            return not os.path.join(os.path.dirname(self.repo), fl).startswith(VERIF + "/")
        if fl.startswith(VERIF + "/"):
            return False
        return fl.startswith(self.repo + "/")

    def our_fns(self):
        """one representative per base name (header-defined statics appear once per TU)"""
        seen = {}
        for n in sorted(self.fns, key=lambda x: (base_name(x), len(x), x)):
            f = self.fns[n]
            if not self.ours(f) or n.startswith("spec_"):
                continue
            k = (f["bn"], f.get("file"), f.get("line"))
            if k not in seen:
                seen[k] = f
        return list(seen.values())

    def fn(self, name):
        f = self.fns.get(name) or self.bydem.get(name)
        if f is None:
            for g in self.fns.values():
                if g["bn"] == name:
                    return g
        return f

    def field(self, struct, off):
        s = self.structs.get(struct)
        if not s:
            return None
        for n, o, z, t in s["members"]:
            if o == off:
                return n
            if o <= off < o + z:
                return "%s+%d" % (n, off - o)
        return None

    def foff(self, struct, name):
        s = self.structs.get(struct)
        if s:
            for n, o, z, t in s["members"]:
                if n == name:
                    return o
        raise AnalysisError("anchor lost: struct %s has no member %s" % (struct, name))


_cache = {}


def load(repo=None, mode="norm"):
    repo = repo or REPO
    k = (repo, mode)
    if k not in _cache:
        _cache[k] = Module(build_ir(repo, mode=mode), repo)
    return _cache[k]
