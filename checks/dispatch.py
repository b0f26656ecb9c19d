"""C12: the factory and the deleters interpreted over every CPUID/XCR0 content, request and length."""
import itertools
import re
from sa import ir
from sa.ir import AnalysisBroken
from sa.mini import Machine, P, R, FN, W, Bad, Thrown, NeedAtom, explore, NULL, mk, bits
from sa.report import Report

KINDS = ("ComplexFFT", "RealFFT", "DCT", "BluesteinFFT")
CLASS = {"ComplexFFT": "ComplexFFT", "BluesteinFFT": "ComplexFFT", "RealFFT": "RealFFT", "DCT": "RealDCT"}
LEVELS = ("SSE2", "AVX", "AVX2")            # ascending capability
# relevant facts of a machine
FACTS = ("l1.c.28", "l1.c.27", "l1.c.26", "l1.d.26", "xcr0.1", "xcr0.2", "l7.b.5")


def supported(f, maxleaf):
    """instruction sets the CPU and the operating system allow; None: no such machine exists"""
    if maxleaf < 1:
        return None
    osx, avx, xs = f["l1.c.27"], f["l1.c.28"], f["l1.c.26"]
    if osx and not xs or avx and not xs:
        return None
    if f["xcr0.2"] and not f["xcr0.1"]:
        return None
    if (avx or osx) and not f["l1.d.26"]:
        return None
    if f["l7.b.5"] and not avx:
        return None
    s = set()
    if f["l1.d.26"]:
        s.add("SSE2")
    if avx and osx and f["xcr0.1"] and f["xcr0.2"]:
        s.add("AVX")
        if maxleaf >= 7 and f["l7.b.5"]:
            s.add("AVX2")
    return s


class Dispatch(Machine):
    def __init__(self, prog, known):
        Machine.__init__(self, prog, known)
        self.serial = 0

    def external(self, name, args, argtys, retty, loc):
        d = self.prog.get_decl(name)
        dem = d.dem if d is not None else name
        m = re.match(r"OTFFT_(\w+)::Factory::create(\w+)\(int\)$", dem)
        if m:
            self.events.append(("create", m.group(1), m.group(2), args[0], loc))
            self.serial += 1
            r = R("object %d" % self.serial, None, False, "obj")
            return P(r, 0)
        m = re.match(r"OTFFT_(\w+)::unique_ptr_deleter\(OTFFT::(\w+)\*\)$", dem)
        if m:
            self.events.append(("delete", m.group(1), m.group(2), args[0], loc))
            return None
        if name == "_ZNSt6thread20hardware_concurrencyEv":
            return self.word("cores", 32, {i: 0 for i in range(32) if i != 2})
        if name in ("sysconf", "get_nprocs", "omp_get_max_threads", "omp_get_num_procs"):
            w = 64 if retty == "i64" else 32
            return self.word(name, w, {i: 0 for i in range(w) if i != 2})
        if name == "llvm.x86.xgetbv":
            return self.xgetbv(self.need(args[0]), loc, 64)
        if re.match(r"_ZNSt\d+(domain_error|runtime_error|logic_error|invalid_argument|out_of_range|exception|bad_alloc)[CD]\d", name):
            return None
        if name in ("_Znwm", "malloc"):
            return self.new("heap", self.need(args[0]), "heap")
        if name in ("_ZdlPv", "_ZdlPvm", "free"):
            return None
        if name == "__cpu_indicator_init":
            return 0
        if dem.startswith("std::__cxx11::basic_string") or dem.startswith("std::exception"):
            return NULL if retty == "p" else None
        raise AnalysisBroken("unmodelled external %s at %s" % (dem, loc))

    def load_hook(self, p, ty, loc):
        if p.r.name == "__cpu_model" and p.o == 12 and ty == "i32":
            # libgcc's own probe: honours OSXSAVE and XCR0
            f, ml = self.facts()
            s = supported(f, ml) or set()
            return ((1 << 4) if "SSE2" in s else 0) | ((1 << 9) if "AVX" in s else 0) | ((1 << 10) if "AVX2" in s else 0)
        return NotImplemented

    def facts(self):
        f = {}
        for a in FACTS:
            b = self.bit(a)
            if b not in (0, 1):
                raise NeedAtom(b)
            f[a] = b
        ml = self.word("l0.a", 32, {i: 0 for i in range(6, 32)})
        return f, 7 if self.icmp("uge", ml, 7, "i32") else 1 if self.icmp("uge", ml, 1, "i32") else 0

    def xgetbv(self, idx, loc, n):
        os = self.bit("l1.c.27")
        if os not in (0, 1):
            raise NeedAtom(os)
        if not os:
            raise Bad("XGETBV without OSXSAVE", loc, "executes XGETBV on a machine whose operating system has not enabled it (illegal instruction)")
        if idx != 0:
            raise Bad("XGETBV of an unsupported register", loc, "reads extended control register %d" % idx)
        return self.word("xcr0", n, {0: 1})

    def asm(self, text, args, retty, loc):
        code, cons = text.split("|", 1)
        cs = cons.split(",")
        outs = [c for c in cs if c.startswith("=")]
        ins = [c for c in cs if not c.startswith("=") and not c.startswith("~")]

        def inp(reg, pos):
            for c, a in zip(ins, args):
                if c == "{%s}" % reg or c == str(pos):
                    return a
            return None
        if re.search(r"\bcpuid\b", code):
            leaf, sub = inp("ax", 0), inp("cx", 2)
            if leaf is None:
                raise AnalysisBroken("cpuid without a leaf at %s" % loc)
            leaf = self.need(leaf)
            regs = []
            for k, c in enumerate(outs):
                m = re.search(r"\{(\w+)\}", c)
                r = {"ax": "a", "bx": "b", "cx": "c", "dx": "d"}.get(m.group(1)) if m else "b"
                if m and m.group(1) == "di":
                    r = "b"
                if r is None:
                    raise AnalysisBroken("cpuid outputs %s" % cons)
                regs.append(self.cpuid(leaf, sub, r, loc))
            return regs if len(regs) != 1 else regs[0]
        if re.search(r"\bxgetbv\b|0x0f,\s*0x01,\s*0xd0", code):
            v = self.xgetbv(self.need(inp("cx", 9)), loc, 64)
            lo, hi = mk(bits(v, 64)[:32]), mk(bits(v, 64)[32:])
            o = [hi if "dx" in c else lo for c in outs]
            return o if len(o) != 1 else o[0]
        if code.strip() == "":
            return None
        raise AnalysisBroken("inline assembly %r at %s" % (text, loc))

    def cpuid(self, leaf, sub, r, loc):
        if leaf == 0:
            if r == "a":
                return self.word("l0.a", 32, {i: 0 for i in range(6, 32)})
            return self.word("l0.%s" % r, 32)
        if leaf == 0x80000000 and r == "a":
            return self.word("lx0.a", 32, dict({i: 0 for i in range(5, 31)}, **{31: 1}))
        if leaf < 0x80000000:
            ml = self.word("l0.a", 32, {i: 0 for i in range(6, 32)})
            ok = self.icmp("ult", ml, leaf, "i32") == 0
            if not ok:
                return self.word("beyond%d.%s" % (leaf, r), 32)
        if leaf in (7, 4, 11, 13) and (sub is None or self.need(sub) != 0):
            return self.word("l%d.%s.%s" % (leaf, "?" if sub is None else self.need(sub), r), 32)
        return self.word("l%d.%s" % (leaf, r), 32)

    # ---- global state
    def regions(self):
        out, work, seen = [], sorted(self.globals.items()), set()
        work = [r for _, r in work]
        while work:
            r = work.pop(0)
            if id(r) in seen or r.const:
                continue
            seen.add(id(r))
            out.append(r)
            for _, (s, ty, v) in sorted(r.cells.items()):
                if isinstance(v, P) and v.r is not None:
                    work.append(v.r)
        return out

    def snapshot(self):
        rs = self.regions()
        key = tuple((r.name, tuple(sorted((o, s, ty, repr(v)) for o, (s, ty, v) in r.cells.items()))) for r in rs)
        return key, ([(r, dict(r.cells)) for r in rs], dict(self.globals))

    def restore(self, snap):
        # regions the state does not know are created afresh, with their initialisers, when first used
        for r, c in snap[0]:
            r.cells = dict(c)
        self.globals.clear()
        self.globals.update(snap[1])


def program():
    common = lambda u: u.target.endswith("common")
    us = ir.frontend(select=common, harness=[("dispatch.cpp", common)])
    return ir.Program(us), us


def probe(prog, name):
    m = Machine(prog)
    return m.call(name, [])


def check(prop, tier):
    rep = Report(prop, tier)
    prog, us = program()
    opts = {}
    for b in ("AUTO",) + LEVELS:
        if prog.has("h_opt_" + b):
            opts[b] = probe(prog, "h_opt_" + b)
    built = [b for b in LEVELS if b in opts]
    if "AUTO" not in opts or not built:
        raise AnalysisBroken("optimisation types not found")
    rep.rules = ["every CPUID/XCR0 content, request and length, for the first call and after any earlier calls: the object comes from exactly the requested "
                 "backend if CPU and OS support it, otherwise the factory throws; an automatic request takes the most capable supported backend",
                 "the length reaches the backend unchanged",
                 "destroying an object runs code of a supported backend only, exactly once, on that object",
                 "XGETBV is executed only when CPUID reports OSXSAVE"]
    rep.trusted = ["clang 18 lowering to LLVM IR", "sa/mini.py interpreter", "CPUID/XCR0 semantics of the Intel SDM as written in checks/dispatch.py"]
    rep.assumptions = ["the largest basic CPUID leaf is below 64; the reported core count is 0 or 4",
                       "lengths are in [0, 2^30]",
                       "machines that cannot exist (AVX without XSAVE, AVX2 without AVX, YMM state without SSE state) are not considered"]
    ctors = static_init(prog)
    ops = [("create", k, b) for k in KINDS for b in opts] + [("auto", k, "AUTO") for k in KINDS] + [("delete", c, None) for c in ("ComplexFFT", "RealFFT", "RealDCT")]
    leaves = [0]
    nstates = 0
    requests = 0

    def run(known):
        m = Dispatch(prog, known)
        results = []
        try:
            for c in ctors:
                m.call(c, [])
        except Bad as e:
            return m, [("bad", "static initialisation", None, e)], 1
        key, snap = m.snapshot()
        seen, work = {key}, [(snap, ())]
        while work:
            snap, hist = work.pop(0)
            for op in ops:
                m.restore(snap)
                m.events = []
                kind, k, b = op
                obj = None
                try:
                    if kind == "delete":
                        obj = P(R("the object", None, False, "obj"), 0)
                        m.call("h_delete_" + k, [obj])
                        out = ("ok", None)
                    else:
                        n = m.word("n", 32, {31: 0})
                        obj = m.call("h_%s_%s" % (kind, k), [n, opts[b]] if kind == "create" else [n])
                        out = ("ok", obj)
                except Thrown as t:
                    out = ("throw", t.ty)
                except Bad as e:
                    out = ("bad", e)
                results.append((op, out, list(m.events), hist))
                if out[0] != "bad":
                    key, s2 = m.snapshot()
                    if key not in seen:
                        seen.add(key)
                        if len(seen) > 24:
                            raise AnalysisBroken("more than 24 states of the library's globals")
                        work.append((s2, hist + (op,)))
        return m, results, len(seen)

    for known, (m, results, ns) in explore(run):
        leaves[0] += 1
        nstates = max(nstates, ns)
        rep.functions |= m.functions
        # machines this run stands for
        free = [a for a in FACTS if a not in known]
        mlfree = [i for i in range(6) if "l0.a.%d" % i not in known]
        mlset = set()
        base = sum(known["l0.a.%d" % i] << i for i in range(6) if "l0.a.%d" % i in known)
        for c in itertools.product((0, 1), repeat=len(mlfree)):
            v = base + sum(x << i for x, i in zip(c, mlfree))
            mlset.add((v >= 1) + (v >= 7))
        machines = []
        for c in itertools.product((0, 1), repeat=len(free)):
            f = {a: known[a] for a in FACTS if a in known}
            f.update(zip(free, c))
            for ml in mlset:
                s = supported(f, (0, 1, 7)[ml])
                if s is not None:
                    machines.append((f, (0, 1, 7)[ml], s & set(built)))
        if not machines:
            continue
        n0 = m.word("n", 32, {31: 0})
        for r in results:
            if r[0] == "bad":
                rep.oblige(r[3].rule, False, r[3].where, r[3].what)
                continue
            op, out, ev, hist = r
            requests += 1
            judge(rep, op, out, ev, hist, machines, built, n0)
    rep.cov.update({"machine_classes": leaves[0], "global_states_max": nstates, "calls_judged": requests,
                    "backends_built": built, "anchors": ["/repo/src/otfft.cpp", "/repo/inc/otfft.h"]})
    if leaves[0] == 0 or requests == 0:
        raise AnalysisBroken("nothing explored")
    rep.sample({"machine_classes": leaves[0], "calls": requests})
    return rep.finish()


def static_init(prog):
    g = prog.globals.get("llvm.global_ctors")
    if not g:
        return []
    return [c[1] for _, _, _, c in g["init"] if c[0] == "F"]


def show(f, ml):
    return "CPU with AVX=%d OSXSAVE=%d XCR0[2:1]=%d%d AVX2=%d SSE2=%d, max leaf %s" % (
        f["l1.c.28"], f["l1.c.27"], f["xcr0.2"], f["xcr0.1"], f["l7.b.5"], f["l1.d.26"], {1: "1..6", 7: ">=7"}.get(ml, ml))


def judge(rep, op, out, ev, hist, machines, built, n0):
    kind, k, b = op
    after = "" if not hist else " after %s" % ", ".join("%s%s(%s)" % h for h in hist)
    if out[0] == "bad":
        e = out[1]
        if kind == "delete" and not any(x for _, _, x in machines):
            return                      # no object can exist on such a machine
        rep.oblige(e.rule, False, e.where, "%s(%s): %s" % (k, b, e.what))
        return
    where = next((e[4] for e in ev), "src/otfft.cpp create%s" % k if kind != "delete" else "src/otfft.cpp unique_ptr_delete")
    where = ir.loc_site(where) if isinstance(where, str) else str(where)
    if kind == "delete":
        for f, ml, s in machines:
            if not s:
                continue
            good = out[0] == "ok" and len(ev) == 1 and ev[0][0] == "delete" and ev[0][1] in s and ev[0][2] == k
            rep.oblige("destruction runs supported code once", good, where,
                       "deleting a %s%s on a %s: %s" % (k, after, show(f, ml), describe(out, ev)))
            if good:
                rep.oblige("destruction gets the object", isinstance(ev[0][3], P) and ev[0][3].r.name == "the object" and ev[0][3].o == 0, where,
                           "the deleter does not receive the object")
        return
    for f, ml, s in machines:
        want = b if b in s else None
        if b == "AUTO":
            want = next((x for x in reversed(LEVELS) if x in s), None)
        if want is None:
            rep.oblige("unsupported requests are refused", out[0] == "throw" and not ev, where,
                       "create%s(%s)%s on a %s must throw: %s" % (k, b, after, show(f, ml), describe(out, ev)))
        else:
            good = out[0] == "ok" and len(ev) == 1 and ev[0][:3] == ("create", want, k)
            rep.oblige("the requested backend is used", good, where,
                       "create%s(%s)%s on a %s must give %s: %s" % (k, b, after, show(f, ml), want, describe(out, ev)))
            if good:
                rep.oblige("the length is passed on", ev[0][3] == n0 and type(ev[0][3]) is type(n0), where, "create%s passes %r for n" % (k, ev[0][3]))
                rep.oblige("the created object is returned", isinstance(out[1], P) and out[1].r is not None and out[1].r.kind == "obj" and out[1].o == 0, where,
                           "create%s returns %r" % (k, out[1]))


def describe(out, ev):
    if out[0] == "throw":
        return "throws %s%s" % (out[1], "" if not ev else " after " + ", ".join("%s %s::%s" % e[:3] for e in ev))
    return ", ".join("%s %s::%s" % e[:3] for e in ev) or "no backend called"


def deletes(rep, prog):
    """C14: on every machine that can hold an object, destroying a public pointer hands the object to exactly one backend's deleter"""
    ctors = static_init(prog)

    def run(known):
        m = Dispatch(prog, known)
        out = []
        for c in ctors:
            m.call(c, [])
        _, snap = m.snapshot()
        s = None
        for c in ("ComplexFFT", "RealFFT", "RealDCT"):
            m.restore(snap)
            m.events = []
            obj = P(R("the object", None, False, "obj"), 0)
            try:
                m.call("h_delete_" + c, [obj])
                out.append((c, "", list(m.events)))
            except Thrown as t:
                out.append((c, "throws " + t.ty, list(m.events)))
            except Bad as e:
                out.append((c, e.what, list(m.events)))
        f, ml = m.facts()
        s = supported(f, ml)
        return m, out, s
    n = 0
    for known, (m, out, s) in explore(run):
        if not s:
            continue
        for c, err, ev in out:
            n += 1
            good = not err and len(ev) == 1 and ev[0][0] == "delete" and ev[0][2] == c and isinstance(ev[0][3], P) and ev[0][3].r.name == "the object" and ev[0][3].o == 0
            rep.oblige("public destruction", good, ir.loc_site(ev[0][4]) if ev else "src/otfft.cpp unique_ptr_delete",
                       "destroying a %s on a machine with %s: %s" % (c, "+".join(sorted(s)), err or ", ".join("%s %s::%s" % e[:3] for e in ev) or "no deleter is called"))
    rep.cov["public_destructions"] = n
