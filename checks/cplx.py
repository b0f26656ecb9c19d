"""C20: every operation of the public complex type evaluated symbolically and compared with complex arithmetic; layout; purity attributes."""
import json
import os
import random
import sympy as sp
from sa import ir
from sa.ir import AnalysisBroken
from sa.mini import Machine, P, R, UNDEF, Bad, Thrown, NeedAtom, explore, vty
from sa.report import Report

ar, ai, br, bi, x, y = sp.symbols("ar ai br bi x y", real=True)


class DB:
    """the bit pattern of a double"""
    def __init__(self, e):
        self.e = e


class Sym:
    """symbolic doubles"""
    def const(self, v):
        if v != v or v in (float("inf"), float("-inf")):
            raise AnalysisBroken("non-finite constant")
        return sp.Rational(*float(v).as_integer_ratio())

    def bitcast(self, v, frm, to):
        if v is UNDEF:
            return v
        if isinstance(v, list):
            if to[0] == "<" and frm[0] == "<" and vty(to)[0] == vty(frm)[0]:
                return [self.bitcast(e, vty(frm)[1], vty(to)[1]) for e in v]
            raise AnalysisBroken("bitcast %s to %s" % (frm, to))
        if frm == to:
            return v
        if frm == "d" and to == "i64":
            return DB(v)
        if frm == "i64" and to == "d":
            if isinstance(v, DB):
                return v.e
            if isinstance(v, int):
                import struct
                return self.const(struct.unpack("<d", struct.pack("<Q", v))[0])
        raise AnalysisBroken("bitcast %s to %s" % (frm, to))

    def step(self, m, V, I, fn):
        op, ty = I[0], I[2]
        f = {"fadd": lambda a, b: a + b, "fsub": lambda a, b: a - b, "fmul": lambda a, b: a * b, "fdiv": lambda a, b: a / b}.get(op)
        if f:
            a, b = V(I[3], ty), V(I[4], ty)
            if ty[0] == "<":
                return [self.bin(f, p, q) for p, q in zip(a, b)]
            return self.bin(f, a, b)
        if op == "fneg":
            a = V(I[3], ty)
            return [-p for p in a] if isinstance(a, list) else -a
        if op == "fcmp":
            return m.fcmp(I[3], V(I[4], I[6]), V(I[5], I[6]))
        if op in ("sitofp", "uitofp"):
            return sp.Integer(m.need(V(I[3], I[4])))
        return NotImplemented

    @staticmethod
    def bin(f, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        return f(a, b)


class Cplx(Machine):
    F = Sym()

    def __init__(self, prog, known):
        Machine.__init__(self, prog, known)
        self.path = []

    def arith(self, op, a, b, ty, fn):
        if isinstance(b, DB):
            a, b = b, a
        if isinstance(a, DB):
            if isinstance(b, int) and op == "xor" and b == 1 << 63:
                return DB(-a.e)
            if isinstance(b, int) and op == "xor" and b == 0 or op == "or" and b == 0:
                return a
            if isinstance(b, int) and op == "and" and b == (1 << 63) - 1:
                return DB(sp.Abs(a.e))
            raise AnalysisBroken("bit operation %s on a double" % op)
        return Machine.arith(self, op, a, b, ty, fn)

    def fcmp(self, pred, a, b):
        if pred == "uno":
            return 0
        if pred == "ord":
            return 1
        rel = {"eq": sp.Eq, "ne": sp.Ne, "lt": sp.StrictLessThan, "le": sp.LessThan, "gt": sp.StrictGreaterThan, "ge": sp.GreaterThan}[pred[-2:]]
        r = rel(a, b)
        if r in (sp.true, sp.false):
            return int(bool(r))
        k = "cmp:" + str(r)
        if k not in self.known:
            raise NeedAtom(k)
        self.path.append(r if self.known[k] else sp.Not(r))
        return self.known[k]

    def external(self, name, args, argtys, retty, loc):
        n = name
        if n.startswith("llvm."):
            n = n.split(".")[1]
        f1 = {"sin": sp.sin, "cos": sp.cos, "sqrt": sp.sqrt, "fabs": sp.Abs, "exp": sp.exp, "tan": sp.tan}
        if n in f1:
            return [f1[n](e) for e in args[0]] if isinstance(args[0], list) else f1[n](args[0])
        if n in ("fma", "fmuladd"):
            if isinstance(args[0], list):
                return [p * q + r for p, q, r in zip(*args)]
            return args[0] * args[1] + args[2]
        if n == "atan2":
            return sp.Function("atan2")(args[0], args[1])
        if n in ("hypot", "cabs"):
            return sp.sqrt(args[0] ** 2 + args[1] ** 2)
        if n == "carg":
            return sp.Function("atan2")(args[1], args[0])
        if n == "sincos":
            self.put(args[1].r, args[1].o, 8, "d", sp.sin(args[0]))
            self.put(args[2].r, args[2].o, 8, "d", sp.cos(args[0]))
            return None
        if n == "cexp":
            return [sp.exp(args[0]) * sp.cos(args[1]), sp.exp(args[0]) * sp.sin(args[1])]
        if n == "__muldc3":
            a, b, c, d = args
            return [a * c - b * d, a * d + b * c]
        if n == "__divdc3":
            a, b, c, d = args
            q = c * c + d * d
            return [(a * c + b * d) / q, (b * c - a * d) / q]
        if n == "copysign" and args[0] == args[1]:
            return args[0]
        if n == "is":
            return 0
        raise AnalysisBroken("unmodelled external %s at %s" % (name, loc))


def C(re, im):
    return (re, im)


def cm(p, q):
    return (p[0] * q[0] - p[1] * q[1], p[0] * q[1] + p[1] * q[0])


def cd(p, q):
    n = q[0] ** 2 + q[1] ** 2
    return ((p[0] * q[0] + p[1] * q[1]) / n, (p[1] * q[0] - p[0] * q[1]) / n)


a, b, r = (ar, ai), (br, bi), (x, 0)
na, nb = ar ** 2 + ai ** 2, br ** 2 + bi ** 2
at = sp.Function("atan2")
Z = sp.Integer(0)
SPEC = {
    "ctor0": C(Z, Z), "ctor1": C(x, Z), "ctor2": C(x, y), "ctor_std": C(x, y), "to_std": a, "copy": a, "assign_real": C(x, Z), "assign_std": C(x, y),
    "init_list": C(x, y), "array": C(ai, br),
    "add_eq": C(ar + br, ai + bi), "sub_eq": C(ar - br, ai - bi), "mul_eq_real": C(ar * x, ai * x), "div_eq_real": C(ar / x, ai / x), "mul_eq": cm(a, b),
    "add_eq_chain": C(2 * ar + br, 2 * ai + bi), "sub_eq_chain": C(ar - 2 * br, ai - 2 * bi), "mul_eq_real_chain": C(ar * x * y, ai * x * y),
    "div_eq_real_chain": C(ar / x / y, ai / x / y), "mul_eq_chain": cm(cm(a, b), b),
    "add_eq_self": C(2 * ar, 2 * ai), "sub_eq_self": C(Z, Z), "mul_eq_self": cm(a, a),
    "mul_eq_own_re": C(ar * ar, ai * ar), "mul_eq_own_im": C(ar * ai, ai * ai), "div_eq_own_re": C(sp.Integer(1), ai / ar), "div_eq_own_im": C(ar / ai, sp.Integer(1)),
    "mul_into_first": cm(a, b), "mul_into_second": cm(a, b), "div_into_first": cd(a, b), "div_into_second": cd(a, b), "div_own_re": C(sp.Integer(1), ai / ar),
    "scale_own_im": C(ai * ar, ai * ai),
    "re": C(ar, br), "im": C(ai, bi), "norm": C(na, nb), "abs": C(sp.sqrt(na), sp.sqrt(nb)), "arg": C(at(ai, ar), at(bi, br)),
    "conj": C(ar, -ai), "proj": C(2 * ar / (na + 1), 2 * ai / (na + 1)), "polar": C(x * sp.cos(y), x * sp.sin(y)), "jx": C(-ai, ar), "neg": C(-ar, -ai),
    "mjx": C(ai, -ar), "add": C(ar + br, ai + bi), "sub": C(ar - br, ai - bi), "mul": cm(a, b), "div": cd(a, b), "scale": C(x * ar, x * ai),
    "div_real": C(ar / x, ai / x), "expj": C(sp.cos(x), sp.sin(x)),
    "add_real": C(ar + x, ai), "real_add": C(ar + x, ai), "sub_real": C(ar - x, ai), "real_sub": C(x - ar, -ai), "mul_real": C(ar * x, ai * x),
    "real_div": cd(r, a), "mul_std": cm(a, (x, y)), "norm_after_change": C(x ** 2 + ai ** 2, na),
}
WHERE = {"eq": "operator%s", }
LAYOUT = {0: (16, "sizeof(complex_t)"), 1: (0, "offset of Re"), 2: (8, "offset of Im"), 3: (8, "alignof(complex_t)"), 4: (1, "standard layout"),
          5: (1, "trivially copyable"), 6: (1, "trivially destructible"), 7: (48, "sizeof(complex_t[3])"), 8: (1, "Re is a double"), 9: (1, "Im is a double"),
          10: (1, "copying does not throw"), 11: (1, "converts from double and from/to std::complex<double>")}


def equal(e, s):
    d = sp.together(e - s)
    num = sp.fraction(d)[0]
    return sp.expand(num) == 0 or sp.simplify(d) == 0


def refute(e, s, path):
    """a point of the path on which both terms differ"""
    rnd = random.Random(7)
    syms = (ar, ai, br, bi, x, y)
    for k in range(400):
        pt = {v: sp.Rational(rnd.randint(-9, 9), rnd.choice((1, 1, 2, 3))) for v in syms}
        try:
            if not all(bool(c.subs(pt)) for c in path):
                continue
            fix = lambda t: t.replace(lambda q: q.func == at, lambda q: sp.atan2(*q.args)).subs(pt)
            u, v = complex(fix(sp.sympify(e))), complex(fix(sp.sympify(s)))
        except (TypeError, ZeroDivisionError, ValueError):
            continue
        if u != u or v != v:
            continue
        if abs(u - v) > 1e-9 * (1 + abs(v)):
            return {str(k): str(q) for k, q in pt.items()}, u, v
    return None


def check(prop, tier):
    rep = Report(prop, tier)
    common = lambda u: u.target.endswith("common")
    us = ir.frontend(harness=[("complex.cpp", common)] + [])
    h = [u for u in us if u.target == "harness"]
    prog = ir.Program(h)
    rep.rules = ["every constructor, operator and function of complex_t, as compiled, computes the complex operation as an identity of rational functions "
                 "(and of sin, cos, sqrt, atan2), also when an operand is the object itself or one of its components",
                 "two consecutive doubles, standard layout, no padding",
                 "a function promised to the compiler as const reads no memory, one promised as pure writes none"]
    rep.trusted = ["clang 18 lowering to LLVM IR", "sa/mini.py interpreter", "sympy rational-function normal forms", "libm functions are what they are named"]
    rep.assumptions = ["operands are finite and no intermediate overflows; rounding and signed zeros are abstracted away"]
    for op in sorted(SPEC):
        nm = "h_" + op
        if not prog.has(nm):
            raise AnalysisBroken("harness function %s missing" % nm)
        where = "inc/otfft_complex.h %s" % op

        def run(known):
            m = Cplx(prog, known)
            args = []
            for s in ("a", "b", "o"):
                rg = R(s, 16)
                args.append(P(rg, 0))
            m.put(args[0].r, 0, 8, "d", ar)
            m.put(args[0].r, 8, 8, "d", ai)
            m.put(args[1].r, 0, 8, "d", br)
            m.put(args[1].r, 8, 8, "d", bi)
            try:
                m.call(nm, [args[0], args[1], x, y, args[2]])
            except (Bad, Thrown) as e:
                return m, e, args
            return m, None, args
        for known, (m, err, args) in explore(run, 256):
            if err is not None:
                rep.oblige("operations complete", False, where, getattr(err, "what", None) or "throws %s" % getattr(err, "ty", "?"))
                continue
            rep.functions |= m.functions
            got = [args[2].r.cells.get(0, (0, 0, UNDEF))[2], args[2].r.cells.get(8, (0, 0, UNDEF))[2]]
            same = [args[0].r.cells[k][2] == v for k, v in ((0, ar), (8, ai))] + [args[1].r.cells[k][2] == v for k, v in ((0, br), (8, bi))]
            rep.oblige("operands are left alone", all(same), where, "%s changes an operand passed by constant reference" % op)
            for k in (0, 1):
                part = ("real", "imaginary")[k]
                if got[k] is UNDEF:
                    rep.oblige("component-wise result", False, where, "%s leaves the %s part undefined" % (op, part))
                    continue
                e, s = sp.sympify(got[k]), sp.sympify(SPEC[op][k])
                if equal(e, s):
                    rep.oblige("component-wise result", True)
                else:
                    w = refute(e, s, m.path)
                    if w:
                        rep.oblige("component-wise result", False, where,
                                   "%s: %s part is %s instead of %s (at %s: %s instead of %s)" % (op, part, e, s, w[0], w[1].real, w[2].real))
                    else:
                        rep.undecide("%s %s part: cannot relate %s and %s on path %s" % (op, part, e, s, m.path))
    m = Cplx(prog, {})
    for k, (v, what) in LAYOUT.items():
        g = m.call("h_layout", [k])
        rep.oblige("memory layout", g == v, "inc/otfft_complex.h struct complex_t", "%s is %s, expected %s" % (what, g, v))
    n = 0
    seen = set()
    for u in us:
        f = u.jsonl[:-6] + ".lint"
        if not os.path.exists(f):
            raise AnalysisBroken("no attribute dump for %s" % u.src)
        with open(f) as fh:
            for ln in fh:
                d = json.loads(ln)
                if not (d["none"] or d["ro"]):
                    continue
                if not os.path.realpath(d["file"] or "/").startswith(os.path.realpath(ir.REPO) + "/"):
                    continue
                key = (d["file"], d["line"], d["dem"])
                if key in seen:
                    continue
                seen.add(key)
                n += 1
                where = "%s:%s %s" % (os.path.relpath(d["file"], ir.REPO), d["line"], d["dem"])
                rep.oblige("const functions read no memory", not (d["none"] and d["reads"]), where,
                           "declared const but reads memory at %s: callers may use a stale value" % d["rdat"])
                rep.oblige("pure functions write no memory", not d["writes"], where, "declared pure/const but writes memory at %s" % d["wrat"])
    rep.cov.update({"operations": len(SPEC), "attributed_functions": n, "anchors": ["inc/otfft_complex.h"]})
    return rep.finish()
