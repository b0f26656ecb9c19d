"""One analysis job = one (backend, transform kind, length, methods) combination run through the abstract interpreter, plus the
symbolic comparison with the mathematical transform.  Results are plain data so that jobs can run in worker processes."""
import multiprocessing
import os
import time
import traceback
import math
import numpy as np
from . import dft, drive, ir, lineval, rounding
from .interp import Interp, NeedChoice, Ptr, Region, Thrown, Unsupported, Violation, same_val
from .ir import AnalysisBroken
from .poly import Poly

BACKENDS = ("SSE2", "AVX", "AVX2")
PROGS = {}


def load(backends=BACKENDS):
    units = ir.frontend()
    for b in backends:
        PROGS[b] = ir.Program([u for u in units if u.namespace == "OTFFT_" + b])
    return units


def twins(a="AVX2", b="AVX"):
    """True when the two backends' compiled functions are the same code (up to their names and source path strings)"""
    import json
    import re

    def lines(ns):
        out = []
        for u in sorted(PROGS[ns].units, key=lambda u: u.name):
            for ln in open(u.jsonl):
                ln = ln.replace("10OTFFT_AVX2", "9OTFFT_AVX").replace("OTFFT_AVX2::", "OTFFT_AVX::").replace("avx2", "avx")
                if ln.startswith('{"k":"g"'):
                    if '"_ZTS' in ln[:40] or ('"name":""' in ln[:30] and '"i8",["i",59]]' in ln[:160]):     # type names, source location strings
                        continue
                    if ln.rstrip().endswith('["g","",0]]]}'):
                        ln = re.sub(r'\[12,4,"i32",\["i",\d+\]\]', "", ln)
                else:
                    ln = re.sub(r'"feat":"[^"]*"', "", ln)
                out.append(hash(ln))
        return out
    return lines(a) == lines(b)


def is_void(fn):
    r = fn.cache.get("void")
    if r is None:
        r = fn.cache["void"] = not any(i[0] == "ret" and len(i) > 4 and i[3] is not None for b in fn.bbs for i in instrs(b))
    return r


def instrs(b):
    return b["ins"] if isinstance(b, dict) else b


class Skip:
    """recognises that a method enters, before any effect, a computation already analysed for another method"""

    def __init__(self, it, known):
        self.it, self.known = it, known
        self.keys = {}
        self.hit = None

    def install(self):
        it = self.it
        mark = it.eid
        orig = it.run_function

        def run(fn, args):
            if it.eid == mark and self.hit is None and is_void(fn) and it.par is None:
                k = (fn.name,) + tuple(self.arg(a) for a in args)
                if k in self.known and None not in k:
                    self.hit = k
                    return None
                r = orig(fn, args)
                self.keys[k] = it.eid
                return r
            return orig(fn, args)
        it.run_function = run
        self.mark = mark

    def arg(self, a):
        if isinstance(a, Ptr):
            if a.r is None:
                return "null"
            if a.r not in self.it.regions:
                return None
            off = a.off
            return (self.it.regions.index(a.r), off.key() if isinstance(off, Poly) else off)
        if isinstance(a, (int, float)):
            return a
        return None


def c2c(kind, backend, L, methods, want_dft=True, n=None):
    """power-of-two complex transform: obligations, and equality with the DFT"""
    prog = PROGS[backend]
    n = n or 1 << L
    out = {"kind": kind, "backend": backend, "L": L, "n": n, "methods": {}, "viol": [], "obl": {}, "orphans": [], "functions": set(),
           "loops": 0, "error": None}
    known = {}

    def body(new, m, rec, known):
        it = new()
        o = drive.create(it, kind, n)
        x = drive.caller_array(it, "x", 2 * n)
        rec["setup_eid"] = it.eid
        sk = Skip(it, known)
        sk.install()
        it.cost, it.hot = 0, {}
        it.call(drive.method(it, o, m, 1), [o, x])
        if sk.hit is not None and it.eid == sk.mark:
            rec["same"] = known[sk.hit]
            return
        if sk.hit is not None:
            # the shared computation is not the whole method: analyse this one separately
            it = new()
            o = drive.create(it, kind, n)
            x = drive.caller_array(it, "x", 2 * n)
            sk = Skip(it, {})
            sk.install()
            it.cost, it.hot = 0, {}
            it.call(drive.method(it, o, m, 1), [o, x])
        for k, e in sk.keys.items():
            if e == it.eid:                 # nothing happened after that computation: it is the whole method
                known.setdefault(k, m)
        if want_dft and not numeric_viol(it):
            try:
                st = dft.analyse(it, x.r, L, rec["stats"])
                rec["scale"] = st.scale
                dft.verify(st, L, 1 if m.startswith("fwd") else -1)
                rec["decided_by"] = "path sums"
            except (dft.Mismatch, Unsupported, AnalysisBroken, KeyError, IndexError, AssertionError, TypeError, ValueError, ZeroDivisionError) as e:
                # decided by the other procedure: agreement of the derived map with the DFT on a generic vector
                rec["composition"] = "%s: %s" % (type(e).__name__, e)
                compare(it, kind, m, n, {"x": x}, rec)
                if rec["mismatch"] and isinstance(e, dft.Mismatch):
                    rec["mismatch"] = (e.msg + "; " + rec["mismatch"][0], e.loc or rec["mismatch"][1])
                elif not rec["mismatch"]:
                    rec["scale"] = float(n) ** lineval.SCALES[m]
    for m in methods:
        out["methods"][m] = explore(prog, out, m, known, body)
    return out


ENV_LIMIT = 160


def explore(prog, out, m, known, body):
    """body under every environment (threads supplied, addresses of the arguments ...) it turns out to depend on; an environment is
    a choice for each question asked on the way"""
    t0 = time.time()
    todo = [{}]
    res = []
    runs = 0
    while todo:
        env = todo.pop(0)
        rec = {"stats": {}, "mismatch": None, "scale": None, "same": None, "error": None, "scaled": None}
        last = []

        def new():
            last[:] = [Interp(prog)]
            last[0].env = env
            return last[0]
        runs += 1
        try:
            body(new, m, rec, known if not env else {})
        except NeedChoice as e:
            if runs + len(todo) > ENV_LIMIT:
                rec["error"] = "the behaviour depends on too many properties of the environment (%s)" % e.what
            else:
                todo[:0] = [dict(env, **{}) | {e.key: o} for o in e.options]
                continue
        except Violation as e:
            last[0].oblige(e.rule, False, None, e.loc, e.msg)
        except (Unsupported, AnalysisBroken) as e:
            rec["error"] = "%s: %s" % (type(e).__name__, e)
        except RecursionError:
            rec["error"] = "recursion limit"
        except MemoryError:
            rec["error"] = "out of memory"
        except Exception as e:                      # a bug of the analysis: reported as undecided, never as a violation
            rec["error"] = "internal %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
        it = last[0]
        when = ", ".join("%s is %s" % a for a in it.asked)
        if when:
            it.viol[:] = [(r, l, "%s [when %s]" % (x, when)) for r, l, x in it.viol]
            if rec["mismatch"]:
                rec["mismatch"] = ("%s [when %s]" % (rec["mismatch"][0], when), rec["mismatch"][1])
            if rec["error"]:
                rec["error"] += " [when %s]" % when
        rec["threads"] = it.threads_matter
        rec["cost"] = it.cost
        rec["hot"] = max(it.hot.items(), key=lambda x: x[1]) if it.hot else ("", 0)
        merge(out, it, m)
        res.append(rec)
    # one record for the method: the first environment's, with whatever went wrong in any
    r = res[0]
    r["scales"] = sorted({x["scale"] for x in res if x["scale"] is not None})
    for x in res[1:]:
        if x["mismatch"] and not r["mismatch"]:
            r["mismatch"], r["scaled"] = x["mismatch"], x["scaled"]
        r["error"] = r["error"] or x["error"]
        for k in ("tables", "chain"):
            if x.get(k) and x[k] > r.get(k, (0, "")):
                r[k] = x[k]
        if x["cost"] > r["cost"]:
            r["cost"], r["hot"] = x["cost"], x["hot"]
    r["threads"] = any(x["threads"] for x in res)
    r["environments"] = len(res)
    r["wall"] = time.time() - t0
    return r


SIGS = {"ComplexFFT": lambda m, n: [("x", 2 * n)], "BluesteinFFT": lambda m, n: [("x", 2 * n)],
        "RealFFT": lambda m, n: [("x", n), ("y", 2 * n)] if m.startswith("fwd") else [("x", 2 * n), ("y", n)],
        "DCT": lambda m, n: [("x", n)]}


def analyse_once(it, kind, n, m, known, history=()):
    """create the object, set it up, call the method on fresh caller arrays -> ({name: Ptr}, Skip, state before the method).
    A pair (length, k) in the history is a setup whose k-th allocation request fails."""
    o = drive.create(it, kind, history[0] if history else n)
    for h in tuple(history[1:]) + ((n,) if history else ()):
        f = drive.method(it, o, "setup", 1)
        if isinstance(h, tuple):
            it.exceptions, it.fail_at = True, (it.alloc_no + h[1],)
            try:
                it.call(f, [o, h[0]])
            except Thrown:
                del it.caught[:]
            it.exceptions, it.fail_at = False, ()
        else:
            it.call(f, [o, h])
    arrs = {}
    for nm, k in SIGS[kind](m, n):
        arrs[nm] = drive.caller_array(it, nm, k)
        arrs[nm].r.readonly_arg = kind == "RealFFT" and m.startswith("fwd") and nm == "x"
    eff = (it.eid, len(it.heap), len(it.freed), [(r, dict(r.cells)) for r in it.regions if r.cells is not None and r.kind in ("new", "global")])
    sk = Skip(it, known)
    sk.install()
    it.cost, it.hot = 0, {}
    it.call(drive.method(it, o, m, len(arrs)), [o] + list(arrs.values()))
    return arrs, sk, eff


def general(kind, backend, n, methods, want=True, history=()):
    """any transform kind at one length: obligations, effects, and equality of the derived linear map with the transform.
    history: lengths the object was set up for before n"""
    prog = PROGS[backend]
    out = {"kind": kind, "backend": backend, "L": None, "n": n, "methods": {}, "viol": [], "obl": {}, "orphans": [], "functions": set(),
           "loops": 0, "error": None, "history": history}
    known = {}

    def body(new, m, rec, known):
        t0 = time.time()
        it = new()
        arrs, sk, eff = analyse_once(it, kind, n, m, known, history)
        if sk.hit is not None and it.eid == sk.mark:
            rec["same"] = known[sk.hit]
            return
        if sk.hit is not None:
            it = new()
            arrs, sk, eff = analyse_once(it, kind, n, m, {}, history)
        for k, e in sk.keys.items():
            if e == it.eid:                 # nothing happened after that computation: it is the whole method
                known.setdefault(k, m)
        effects(it, arrs, eff)
        rec["t_interp"] = time.time() - t0
        if want == "chains":
            rec["tables"], rec["chain"] = rounding.chains(it, eff[0], [p.r for p in arrs.values()])
            if rec["chain"][0] > rounding.budget(kind, n) and n <= 1 << 20:
                k = rounding.exact(it, [p.r for p in arrs.values()])
                if k is not None:
                    rec["chain"] = (k, rec["chain"][1])
        elif (want or it.threads_matter and n <= 1 << 18) and not numeric_viol(it):
            compare(it, kind, m, n, arrs, rec)
    for m in methods:
        out["methods"][m] = explore(prog, out, m, known, body)
    return out


def many(kind, backend, ns, methods, want=True, histories=None):
    return [general(kind, backend, n, methods, want, h) for n in ns for h in (histories or [()])]


NUMERIC = ("race", "ompnest", "bounds", "null", "uaf", "undef", "const", "terminate")


def numeric_viol(it):
    return any(v[0] in NUMERIC for v in it.viol)


def effects(it, arrs, eff):
    """what the method did besides filling its output: memory management, object state, tables, read-only arguments"""
    eid, heap, freed, cells = eff
    new = it.heap[heap:]
    it.oblige("no-allocation", not new, None, it.alloc_calls[-1][0] if new and it.alloc_calls else "", "the method allocates memory")
    it.oblige("no-release", len(it.freed) == freed, None, "", "the method releases memory")
    for r, c in cells:
        same = r.cells is not None and set(c) == set(r.cells) and all(c[o][0] == r.cells[o][0] and same_val(c[o][1], r.cells[o][1]) for o in c)
        it.oblige("object-unchanged", same, None, "", "the method modifies %s" % r.name)
    tables = {}
    for a in it.log:
        if a.write and a.region.kind in ("heap", "new", "global"):
            if a.eid <= eid:
                tables[a.region.id] = True
            elif a.eid > eid:
                it.oblige("tables-unchanged", a.region.id not in tables, None, it.accloc(a).split("[")[0], "the method overwrites data computed by setup (%s)" % a.region.name)
    for nm, p in arrs.items():
        if getattr(p.r, "readonly_arg", False):
            w = [a for a in it.log if a.write and a.region is p.r]
            it.oblige("readonly", not w, None, it.accloc(w[0]).split("[")[0] if w else "", "the read-only argument %s is written" % nm)


def expand_on(it, kind, m, n, arrs, seed):
    inp, name, want = lineval.reference(kind, m, n, np.random.default_rng(seed))
    ex = lineval.Expansion(it, {arrs[k].r: v for k, v in inp.items()})
    ex.run()
    return ex, ex.final(arrs[name].r), want, arrs[name].r


def compare(it, kind, m, n, arrs, rec):
    ex, got, want, r = expand_on(it, kind, m, n, arrs, 20240 + n)
    rms = math.sqrt(float(np.mean(want * want))) or 1.0
    bad = ~(np.abs(got - want) <= 5e-13 * rms)
    rec["stats"]["clauses"] = len(ex.ents)
    rec["decided_by"] = "identity test"
    if bad.any():
        i = int(np.argmax(np.where(np.isnan(got), np.inf, np.abs(got - want))))
        ex2, got2, want2, _ = expand_on(it, kind, m, n, arrs, 77777 + n)
        with np.errstate(all="ignore"):
            q, q2 = got / want, got2 / want2
        sc = bad & (np.abs(q - q2) <= 1e-6 * np.abs(q)) & (np.abs(q) > 1e-9)
        if sc.any():
            j = int(np.argmax(sc))
            rec["scaled"] = (int(sc.sum()), j, float(q[j]))
        rec["mismatch"] = ("the derived linear map differs from the transform in %d of %d outputs, most in element %d%s" % (
            int(bad.sum()), len(want), i, "" if rec["scaled"] is None else " (%d outputs are scaled by a wrong constant, element %d by %.9g of its proper value)" % rec["scaled"]),
            writer(ex, r, i))


def writer(ex, r, i):
    """source location of the last clause that stored output i"""
    for e in reversed(ex.ents):
        if e.region is r:
            env, _ = lineval.expand(e.binders or ())
            off = np.asarray(env.ints(e.off)) // 8
            if ((off <= i) & (i < off + e.size // 8)).any():
                return ex.it.accloc(e).split("[")[0]
    return ""


def merge(out, it, m):
    for k, v in it.obl.items():
        c = out["obl"].setdefault(k, [0, 0])
        c[0] += v[0]
        c[1] += v[1]
    for v in it.viol:
        if v not in [x[:3] for x in out["viol"]]:
            out["viol"].append(tuple(v) + (m,))
    for o in it.omp_orphans:
        if o not in [x[:3] for x in out["orphans"]]:
            out["orphans"].append(tuple(o) + (m,))
    out["functions"] |= it.functions
    out["loops"] += it.loops_generic + it.loops_unrolled


def _work(job):
    fn, a = job
    t0 = time.time()
    r = globals()[fn](*a)
    if isinstance(r, dict):
        r["wall"] = time.time() - t0
    return r


def run(jobs, procs=None):
    """jobs: list of (function name, args), most expensive first"""
    if procs == 1 or len(jobs) <= 1:
        for j in jobs:
            r = _work(j)
            for x in r if isinstance(r, list) else [r]:
                yield x
        return
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(procs or min(8, os.cpu_count() or 8), maxtasksperchild=8) as p:
        for r in p.imap_unordered(_work, jobs, chunksize=1):
            for x in r if isinstance(r, list) else [r]:
                yield x
