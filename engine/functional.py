"""Decide, per library function, that the relation extracted from its source equals the reference definition's."""
import json, os, signal, time, traceback
import multiprocessing as mp
import ir, summ, sym, canon, witness
from sym import show, show_bool, band, bnot

_ctx = {}


class Result:
    def __init__(self, fn):
        self.fn = fn
        self.status = "?"
        self.loc = None
        self.what = ""
        self.kind = None
        self.nrec = 0
        self.guards = None
        self.detail = []
        self.stats = {}
        self.wall = 0.0


def locstr(mod, f, l=None):
    if l and l[1]:
        return "%s:%d" % (l[0], l[1])
    return "%s:%s" % (mod.rel(f.get("file") or "?"), f.get("line") or 0)


class Timeout(Exception):
    pass


def decide(S, name, hints, n, budget, seed, cross=False, kinds=None):
    mod = S.mod
    n *= (hints or {}).get("@n", 1)
    cross = cross or bool((hints or {}).get("@stdout"))     # printing is no part of the normal form
    r = Result(name)
    t0 = time.time()
    f = mod.fn(name)
    g = mod.fn("spec_" + name)
    if f is None:
        r.status = "ABSENT"
        return r
    pf, pg = name, "spec_" + name
    direct = (hints or {}).get("@direct")
    if direct:
        # name is a wrapper of this function, which has a reference of its own signature
        d = mod.fn(direct[0])
        if d is not None:
            f = d
            if direct[1] and mod.fn(direct[1]) is not None:
                pf, pg = d["name"], direct[1]
    for i, a in enumerate(f["args"]):
        sym.NAMES[("arg", i)] = a["name"]
    r.loc = locstr(mod, f)
    cmp = None

    def alarm(*_):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, max(30, budget))
    try:
        cmp = canon.compare(S.summary(pf), S.summary(pg))
        r.nrec = cmp.nrec if hasattr(cmp, "nrec") else 0
        r.guards = bool(cmp.guards)
        for what, c, s in cmp.diffs[:12]:
            r.detail.append("%s: %s | %s" % (what, c, s))
        for what, c, s in cmp.diffs:
            if getattr(c, "loc", None) and not (direct and "spec/" in locstr(mod, f, c.loc)):
                r.loc = locstr(mod, f, c.loc)
                break
    except Timeout:
        r.detail.append("normalisation did not finish in its time limit")
    except RecursionError:
        r.detail.append("terms too deep")
    except Exception as e:
        r.detail.append("normalisation: %s: %s" % (type(e).__name__, e))
        r.stats["trace"] = traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if kinds == ("accepts",) and cmp is not None and cmp.guards:
        # every precondition of the reference is implied by the code's
        r.status = "PROVED"
        r.wall = time.time() - t0
        return r
    if cmp is not None and cmp.equal and cmp.admits and cmp.guards and not cross:
        r.status = "PROVED"
        r.wall = time.time() - t0
        return r
    proved = cmp is not None and cmp.equal and cmp.admits and not (hints or {}).get("@stdout")
    # normal forms differ: look for a valuation on which the two extracted relations differ
    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, budget)
    w = None
    st = {}
    try:
        cs = []
        try:
            cs = [canon.Canon(S.summary(name)), canon.Canon(S.summary("spec_" + name))]
            if pf != name:
                cs.append(canon.Canon(S.summary(pf)))
        except Exception:
            pass
        w, st = witness.search(S, name, "spec_" + name, hints=hints, n=n, seed=seed, canons=cs, stats=r.stats, **({"kinds": kinds} if kinds else {}))
    except Timeout:
        r.stats["stopped"] = "time limit"
    except RecursionError:
        r.stats["stopped"] = "terms too deep"
    except Exception as e:
        r.stats["stopped"] = "%s: %s" % (type(e).__name__, e)
        r.stats["trace"] = traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if w is not None:
        r.kind = w["kind"]
        r.what = "%s (for %s)" % (w["what"], w["instance"])
        r.status = "REFUTED"
        if w.get("loc") and not (direct and "spec/" in w["loc"]):
            r.loc = w["loc"]
    elif proved:
        r.status = "PROVED" if cmp.guards else "PROVED-VALUE"
    else:
        r.status = "UNDECIDED"
    r.wall = time.time() - t0
    return r


def _worker(a):
    name, n, budget, seed, cross, kinds = a
    try:
        return decide(_ctx["S"], name, _ctx["hints"].get(name), n, budget, seed, cross, kinds)
    except BaseException as e:
        r = Result(name)
        r.status = "ERROR"
        r.what = "%s: %s" % (type(e).__name__, e)
        r.stats["trace"] = traceback.format_exc()[-2000:]
        return r


def run(mod, names, hints, n=40, budget=40, seed=1, cross=False, procs=8, kinds=None):
    S = summ.Summarizer(mod)
    canon.set_module(mod)
    for name in names:
        if mod.fn("spec_" + name) is None:
            raise ir.AnalysisError("no reference definition for %s" % name)
    _ctx["S"] = S
    _ctx["hints"] = hints
    jobs = [(x, n, budget, seed, cross, kinds) for x in names]
    if len(jobs) <= 1:
        return [_worker(j) for j in jobs]
    with mp.get_context("fork").Pool(min(procs, len(jobs))) as p:
        return p.map(_worker, jobs, chunksize=1)
