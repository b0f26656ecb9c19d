"""C14: every allocation of creation / setup histories is released exactly once, also when any one of the requests fails."""
import re
import time
import traceback
from sa import drive, ir, jobs
from sa.interp import FnPtr, Interp, NeedChoice, Ptr, Thrown, Unsupported, Violation
from sa.ir import AnalysisBroken
from sa.report import Report
import dispatch

KINDS = {"ComplexFFT": "ComplexFFT", "BluesteinFFT": "ComplexFFT", "RealFFT": "RealFFT", "DCT": "RealDCT"}
ALL = "all backends"

# lengths reaching every class behind FFT0, every table layout, and the parallel variants
LEN = {"ComplexFFT": [1, 2, 4, 8, 16, 32, 64, 128, 1 << 12, 1 << 16, 1 << 17, 1 << 18, 1 << 19, 12, 30, 40500, 1 << 25],
       "RealFFT": [2, 4, 8, 16, 32, 64, 24, 1 << 15, 1 << 17, 1 << 19, 81000],
       "DCT": [2, 4, 8, 16, 32, 64, 24, 1 << 15, 1 << 17, 1 << 19, 81000],
       "BluesteinFFT": [1, 2, 3, 5, 9, 17, 100, 5000, 20011, 70000]}


def deleters(prog):
    """class -> [(namespace, function)]"""
    out = {}
    for nm in prog.index:
        if "unique_ptr_deleter" in nm:
            m = re.match(r"OTFFT_(\w+)::unique_ptr_deleter\(OTFFT::(\w+)\*\)$", prog.get(nm).dem)
            if m:
                out.setdefault(m.group(2), []).append((m.group(1), nm))
    return out


def creator(prog, be, kind):
    c = [nm for nm in prog.index if "create" in nm and ("OTFFT_" + be) in nm and re.match(r"OTFFT_%s::Factory::create%s\(int\)$" % (be, kind), prog.get(nm).dem)]
    if len(c) != 1:
        raise AnalysisBroken("factory %s create%s(int) not found" % (be, kind))
    return c[0]


def scenario(be, kind, lens, fail, again, dele, env=None):
    """create(lens[0]), setup(lens[1])..., delete; the requests with the ordinals in `fail` fail; after a failed setup the object is set up
    again for `again` (unless None).  -> (interpreter, number of requests, requests counted when each step began, what happened)"""
    prog = jobs.PROGS[ALL]
    it = Interp(prog)
    it.exceptions = True
    it.fail_at = fail
    it.env = env or {}
    trace, marks = [], []
    obj = None

    def step(what, f):
        marks.append(it.alloc_no)
        try:
            r = f()
            trace.append(what)
            return True, r
        except Thrown as e:
            trace.append(what + " throws %s" % e.ty.replace("_ZTI", ""))
            del it.caught[:]
            return False, None
    ok, p = step("create(%d)" % lens[0], lambda: it.call(creator(prog, be, kind), [lens[0]]))
    if ok:
        if not isinstance(p, Ptr) or p.r is None:
            raise AnalysisBroken("create%s returned %r" % (kind, p))
        obj = p
        setup = drive.method(it, obj, "setup", 1)
        failed = False
        for n in lens[1:]:
            ok, _ = step("setup(%d)" % n, lambda: it.call(setup, [obj, n]))
            if not ok and again is None:
                break
        if again is not None and any("throws" in t for t in trace):
            step("setup(%d)" % again, lambda: it.call(setup, [obj, again]))
        step("delete", lambda: it.call(dele, [obj]))
        if "throws" in trace[-1]:
            it.oblige("terminate", False, None, "src/otfft_factory.h", "destroying the object throws")
    for r in it.heap:
        it.oblige("released", r.freed, None, getattr(r, "loc", ""), "memory acquired here is never released")
    it.oblige("no-rethrow-leak", not it.caught, None, "", "an exception is swallowed without being finished")
    return it, marks, trace


def work(be, kind, lens, again, fails=None):
    """one history, without failure and with each single request failing"""
    prog = jobs.PROGS[ALL]
    dl = dict(deleters(prog)[KINDS[kind]])
    order = [be] + sorted(d for d in dl if d != be)
    out = {"kind": kind, "backend": be, "n": lens[-1], "lens": lens, "runs": 0, "requests": 0, "viol": [], "obl": {}, "error": [], "functions": set(), "trace": []}

    def one(fail, again, deb):
        todo, first = [{}], None
        while todo:
            env = todo.pop(0)
            try:
                r = one_env(fail, again, deb, env)
            except NeedChoice as e:
                if len(todo) > 60:
                    out["error"].append("%s %s %s: the behaviour depends on too many properties of the environment (%s)" % (be, kind, lens, e.what))
                    return first
                todo[:0] = [env | {e.key: o} for o in e.options]
                continue
            first = first or r
        return first

    def one_env(fail, again, deb, env):
        tag = "%s %s: " % (be, kind)
        try:
            it, marks, trace = scenario(be, kind, lens, fail, again, dl[deb], env)
        except Violation as e:
            out["viol"].append((e.rule, e.loc, tag + "%s failing: %s" % (fail or "nothing", e.msg)))
            return None
        except (Unsupported, AnalysisBroken) as e:
            out["error"].append(tag + "%s %s: %s" % (lens, fail, e))
            return None
        except Exception as e:
            out["error"].append(tag + "internal %s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-800:]))
            return None
        out["runs"] += 1
        out["functions"] |= it.functions
        for k, v in it.obl.items():
            if k in RULES:
                c = out["obl"].setdefault(k, [0, 0])
                c[0] += v[0]
                c[1] += v[1]
        for rule, loc, msg in it.viol:
            if rule in RULES:
                out["viol"].append((rule, loc, tag + "%s%s: %s" % ("; ".join(trace), ", deleted by the %s backend" % deb if deb != be else "", msg)))
        out["trace"].append(trace)
        return it, marks
    r = None
    for deb in order if fails is None else order[:1]:
        x = one((), None, deb)
        r = r or x
    if r is not None:
        it, marks = r
        total = it.alloc_no
        out["requests"] = total
        lo = marks[-2] if len(marks) >= 2 and len(lens) > 1 else 0      # requests of the last step (earlier ones belong to shorter histories)
        for k in range(lo + 1, total + 1):
            one((k,), None, be)
            if len(lens) > 1 and again is not None:
                one((k,), again, be)
                one((k, k + 1), again, be)
    return out


RULES = ("free", "dealloc-match", "dealloc-size", "released", "no-rethrow-leak", "uaf", "null", "terminate", "undef", "bounds")


def plan(bs, tier):
    out = []
    for b in bs:
        for kind, ls in LEN.items():
            out.append((b, kind, (0,), None))
            for i, n in enumerate(ls):
                out.append((b, kind, (n,), None))
                out.append((b, kind, (0, n), n))
                # another class / size before
                for d in (1, 3) if tier == "quick" else range(1, len(ls)):
                    out.append((b, kind, (ls[(i + d) % len(ls)], n), ls[(i + 2 * d) % len(ls)]))
                out.append((b, kind, (n, n), n))
            out.append((b, kind, (ls[3], ls[1], ls[-1]), ls[0]))
            out.append((b, kind, (ls[-1], ls[0], 0), ls[0]))
    out.sort(key=lambda j: -(sum(j[2]) + 1000 * len(j[2])))
    return out


def check(prop, tier):
    rep = Report(prop, tier)
    rep.rules = ["over each history create, setup..., delete, with no failure and with every single allocation request of its last step failing (and the one after it): "
                 "every region acquired is released exactly once, by the matching function, as an object of its own size; nothing released is used again; "
                 "no exception leaves a noexcept function or a parallel region",
                 "deleting through the public pointer types, with any machine's deleter, destroys the full object",
                 "the owning array type cannot be copied; the interface classes have virtual destructors"]
    rep.trusted = ["clang 18 lowering to LLVM IR", "sa/interp.py", "the C++ runtime's allocation and unwinding"]
    rep.assumptions = ["allocation requests fail one at a time or two in a row"]
    units = jobs.load()
    jobs.PROGS[ALL] = ir.Program([u for u in units if u.namespace])
    bs, same = __import__("transforms").backends()
    if tier != "quick":
        bs = list(jobs.BACKENDS)
    todo = plan(bs, tier)
    runs = reqs = 0
    hist = {}
    t = []
    jobs.work_resources = work
    for r in jobs.run([("work_resources", j) for j in todo]):
        runs += r["runs"]
        reqs += r["requests"]
        rep.units += 1
        hist.setdefault(r["kind"], set()).add(r["lens"])
        rep.functions |= r["functions"]
        rep.obligations(r["obl"])
        t.append((round(r["wall"], 1), r["backend"], r["kind"], r["lens"]))
        for rule, loc, what in r["viol"]:
            rep.violation(rule, loc, what)
        for e in r["error"]:
            rep.undecide(e)
        if r["trace"]:
            rep.sample("%s %s: %s" % (r["backend"], r["kind"], " | ".join("; ".join(x) for x in r["trace"][:3])))
    rep.cov.update({"histories": {k: len(v) for k, v in hist.items()}, "interpretations": runs, "allocation_requests": reqs, "slowest": sorted(t, reverse=True)[:8]})
    public(rep)
    if runs == 0:
        raise AnalysisBroken("nothing analysed")
    return rep.finish()


def public(rep):
    """the public pointer types: destruction reaches exactly one backend deleter with the object"""
    prog, us = dispatch.program()
    for c in ("ComplexFFT", "RealFFT", "RealDCT"):
        v = dispatch.probe(prog, "h_vdtor_" + c)
        rep.oblige("virtual destructor", v == 1, "inc/otfft.h class " + c, "the destructor of the interface class is not virtual: deleting through it does not destroy the object")
    if prog.has("h_copyable"):
        v = dispatch.probe(prog, "h_copyable")
        rep.oblige("owning arrays are not copyable", v == 0, "inc/otfft_complex.h simd_array", "copies of the array would release the same memory twice")
    dispatch.deletes(rep, prog)
