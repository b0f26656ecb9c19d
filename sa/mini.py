"""A small interpreter for scalar code of the IR dump (the common unit and the complex-number harness): integers are known
values or words of symbolic bits, doubles are opaque symbolic terms.  A decision that needs an unknown bit raises NeedAtom; the
driver then splits on that bit and runs again, so every input is covered by some run."""
from .ir import AnalysisBroken


class NeedAtom(Exception):
    def __init__(self, atom):
        self.atom = atom.lstrip("~")


def neg(b):
    return 1 - b if b in (0, 1) else b[1:] if b[0] == "~" else "~" + b


class Thrown(Exception):
    """a C++ exception in flight"""
    def __init__(self, ty, obj=None):
        self.ty, self.obj = ty, obj


class Bad(Exception):
    """the code did something the property forbids"""
    def __init__(self, rule, where, what):
        self.rule, self.where, self.what = rule, where, what


class W:
    """word with at least one unknown bit; bits are 0, 1 or an atom (lsb first)"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = tuple(b)

    def __eq__(self, o):
        return isinstance(o, W) and self.b == o.b

    def __hash__(self):
        return hash(self.b)

    def __repr__(self):
        return "W(%s)" % ",".join(map(str, self.b))


class P:
    __slots__ = ("r", "o")

    def __init__(self, r, o=0):
        self.r, self.o = r, o

    def __eq__(self, x):
        return isinstance(x, P) and self.r is x.r and self.o == x.o

    def __hash__(self):
        return hash((id(self.r), self.o))

    def __repr__(self):
        return "null+%s" % self.o if self.r is None else "%s+%s" % (self.r.name, self.o)


NULL = P(None, 0)


class FN:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FN) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class UNDEF:
    def __repr__(self):
        return "undef"


UNDEF = UNDEF()


class R:
    n = 0

    def __init__(self, name, size, const=False, kind="mem"):
        self.name, self.size, self.const, self.kind = name, size, const, kind
        self.cells = {}
        self.dead = False


def bits(v, n):
    if isinstance(v, W):
        b = v.b
        return b if len(b) == n else tuple((list(b) + [0] * n)[:n])
    return tuple((v >> i) & 1 for i in range(n))


def mk(bs):
    v = 0
    for i, b in enumerate(bs):
        if b == 1:
            v |= 1 << i
        elif b != 0:
            return W(bs)
    return v


def width(ty):
    if ty == "p":
        return 64
    if ty and ty[0] == "i":
        return int(ty[1:])
    raise AnalysisBroken("not an integer type: %s" % ty)


def vty(ty):
    """<NxT> -> (N, T)"""
    n, t = ty[1:-1].split("x", 1)
    return int(n), t


def fields(ty):
    """{a,b,..} or [NxT] -> list of types"""
    if ty[0] == "[":
        n, t = ty[1:-1].split("x", 1)
        return [t] * int(n)
    out, d, cur = [], 0, ""
    for c in ty[1:-1]:
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
            continue
        d += c in "{[<"
        d -= c in "}]>"
        cur += c
    return out + ([cur] if cur else [])


def tsize(ty):
    if ty == "p" or ty == "d":
        return 8
    if ty == "f":
        return 4
    if ty[0] == "i":
        return (int(ty[1:]) + 7) // 8
    if ty[0] == "<":
        n, t = vty(ty)
        return n * tsize(t)
    o = 0
    for t in fields(ty):
        s = tsize(t)
        o = (o + s - 1) // s * s + s if s else o
    return o


class Machine:
    """subclass hooks: external(name, args, argtys, retty, loc), asm(...), float operations through self.F"""
    MAXSTEPS = 400000
    F = None

    def __init__(self, prog, known=None):
        self.prog = prog
        self.known = known or {}
        self.globals = {}
        self.steps = 0
        self.depth = 0
        self.events = []
        self.functions = set()

    # ---- atoms
    def bit(self, b):
        return b if b in (0, 1) else self.known.get(b, b)

    def word(self, name, n, fixed=None):
        fixed = fixed or {}
        return mk([fixed[i] if i in fixed else self.bit("%s.%d" % (name, i)) for i in range(n)])

    def need(self, v):
        """concrete value of an integer"""
        if isinstance(v, W):
            for b in reversed(v.b):
                if b not in (0, 1):
                    raise NeedAtom(b)
        return v

    # ---- memory
    def gptr(self, name, off=0):
        r = self.globals.get(name)
        if r is None:
            g = self.prog.globals.get(name)
            if g is None:
                raise AnalysisBroken("unknown global %s" % name)
            r = self.globals[name] = R(name, g["size"], bool(g["const"]) or bool(g["decl"]), "global")
            if not g["decl"]:
                if not any(True for _ in g["init"]):
                    pass
                for o, s, ty, c in g["init"]:
                    self.put(r, o, s, ty, self.const(c, ty))
                r.zero = True
        return P(r, off)

    def new(self, name, size, kind="mem"):
        return P(R(name, size, False, kind), 0)

    def chk(self, p, size, w, loc):
        if not isinstance(p, P):
            if isinstance(p, FN):
                raise Bad("memory access through a function pointer", loc, "access to %s" % p.name)
            raise AnalysisBroken("access through %r at %s" % (p, loc))
        if p.r is None:
            raise Bad("null pointer", loc, "access through a null pointer")
        if p.r.dead:
            raise Bad("use after free", loc, "access to released %s" % p.r.name)
        if isinstance(p.r.size, int) and (p.o < 0 or p.o + size > p.r.size):
            if p.r.kind == "global" and p.r.name in self.prog.globals and self.prog.globals[p.r.name]["decl"]:
                return
            raise Bad("out of bounds", loc, "%d bytes at offset %d of %s (size %d)" % (size, p.o, p.r.name, p.r.size))

    def evict(self, r, o, s):
        for q in [q for q, (t, ty, _) in r.cells.items() if q < o + s and o < q + t]:
            t, ty, v = r.cells.pop(q)
            if q >= o and q + t <= o + s:
                continue
            if ty[0] == "i":
                bs = bits(v, 8 * t) if v is not UNDEF else None
                for k in range(t):
                    if not (o <= q + k < o + s):
                        r.cells[q + k] = (1, "i8", UNDEF if bs is None else mk(bs[8 * k:8 * k + 8]))

    def put(self, r, o, s, ty, v):
        if ty[0] == "<":
            n, t = vty(ty)
            for k in range(n):
                self.put(r, o + k * tsize(t), tsize(t), t, v[k] if v is not UNDEF else UNDEF)
            return
        if ty[0] in "{[":
            q = 0
            for k, t in enumerate(fields(ty)):
                z = tsize(t)
                q = (q + z - 1) // z * z
                self.put(r, o + q, z, t, v[k] if v is not UNDEF else UNDEF)
                q += z
            return
        self.evict(r, o, s)
        r.cells[o] = (s, ty, v)

    def getm(self, r, o, ty):
        if ty[0] == "<":
            n, t = vty(ty)
            return [self.getm(r, o + k * tsize(t), t) for k in range(n)]
        if ty[0] in "{[":
            q, out = 0, []
            for t in fields(ty):
                z = tsize(t)
                q = (q + z - 1) // z * z
                out.append(self.getm(r, o + q, t))
                q += z
            return out
        s = tsize(ty)
        c = r.cells.get(o)
        if c is not None and c[0] == s:
            if c[1] == ty or ty[0] == c[1][0]:
                v = c[2]
                if ty[0] == "i" and c[2] is not UNDEF and not isinstance(v, (P, FN)):
                    v = mk(bits(v, width(ty)))
                return v
            if c[1] in ("p", "i64") and ty in ("p", "i64"):
                return self.cast_ip(c[2], ty)
            if self.F is not None and ty == "i64" and c[1] == "d" or ty == "d" and c[1] == "i64":
                return self.F.bitcast(c[2], c[1], ty)
            raise AnalysisBroken("load of %s from a %s cell of %s" % (ty, c[1], r.name))
        out = []
        for k in range(s):
            f = None
            for q in range(o + k, o + k - 16, -1):
                c = r.cells.get(q)
                if c is not None and q + c[0] > o + k:
                    f = (q, c)
                    break
            if f is None:
                if r.kind == "global" and not self.prog.globals.get(r.name, {"decl": 1})["decl"]:
                    out.extend([0] * 8)
                    continue
                return UNDEF
            q, c = f
            if c[2] is UNDEF:
                return UNDEF
            if c[1][0] != "i" or isinstance(c[2], (P, FN)):
                raise AnalysisBroken("partial load of a %s cell of %s" % (c[1], r.name))
            out.extend(bits(c[2], 8 * c[0])[8 * (o + k - q):8 * (o + k - q) + 8])
        v = mk(out)
        if ty[0] == "i":
            return mk(bits(v, width(ty)))
        if ty == "d" and v == 0 and self.F is not None:
            return self.F.const(0.0)
        if ty == "p" and v == 0:
            return NULL
        raise AnalysisBroken("load of %s assembled from bytes" % ty)

    def cast_ip(self, v, ty):
        if ty == "p":
            return NULL if v == 0 else v
        return 0 if v == NULL else v

    # ---- values
    def const(self, c, ty=None):
        k = c[0]
        if k == "i":
            w = width(ty) if ty and ty[0] == "i" else 64
            return c[1] & ((1 << w) - 1)
        if k == "d":
            return self.F.const(c[1]) if self.F else ("d", c[1])
        if k == "n":
            return NULL
        if k == "g":
            return self.gptr(c[1], c[2])
        if k == "F":
            return FN(c[1])
        if k == "u":
            return UNDEF
        if k == "z":
            return self.zero(c[1])
        if k == "c":
            ts = [vty(c[1])[1]] * len(c[2]) if c[1][0] == "<" else fields(c[1])
            return [self.const(x, t) for x, t in zip(c[2], ts)]
        raise AnalysisBroken("unsupported constant %r" % (c,))

    def zero(self, ty):
        if ty[0] == "<":
            n, t = vty(ty)
            return [self.zero(t) for _ in range(n)]
        if ty[0] in "{[":
            return [self.zero(t) for t in fields(ty)]
        if ty == "p":
            return NULL
        if ty == "d":
            return self.F.const(0.0)
        return 0

    # ---- calls
    def call(self, name, args, loc="", argtys=None, retty="v"):
        if self.prog.has(name):
            r = self.intercept(name, args, loc)
            if r is not NotImplemented:
                return r
            fn = self.prog.get(name)
            self.depth += 1
            if self.depth > 60:
                raise AnalysisBroken("recursion too deep in %s" % fn.dem)
            try:
                self.functions.add(fn.dem)
                return self.exec(fn, args)
            finally:
                self.depth -= 1
        return self.builtin(name, args, argtys or [], retty, loc)

    def intercept(self, name, args, loc):
        return NotImplemented

    def builtin(self, name, args, argtys, retty, loc):
        if name.startswith("llvm."):
            b = name.split(".")
            if b[1] in ("memcpy", "memmove"):
                n = self.need(args[2])
                if n:
                    self.chk(args[0], n, True, loc)
                    self.chk(args[1], n, False, loc)
                    src, dst = args[1], args[0]
                    cs = [(q - src.o, c) for q, c in src.r.cells.items() if src.o <= q and q + c[0] <= src.o + n]
                    self.evict(dst.r, dst.o, n)
                    for q, c in cs:
                        dst.r.cells[dst.o + q] = c
                return None
            if b[1] == "memset":
                n = self.need(args[2])
                v = self.need(args[1])
                if n:
                    self.chk(args[0], n, True, loc)
                    self.evict(args[0].r, args[0].o, n)
                    for k in range(n):
                        args[0].r.cells[args[0].o + k] = (1, "i8", v & 255)
                return None
            if b[1] in ("invariant", "lifetime", "assume", "prefetch", "donothing", "var"):
                return UNDEF if retty != "v" else None
            if b[1] == "eh" and b[2] == "typeid":
                a = args[0]
                return self.typeid(a.r.name if isinstance(a, P) and a.r else "*")
            if b[1] in ("umax", "umin", "smax", "smin"):
                w = width(retty)
                x, y = self.need(args[0]), self.need(args[1])
                if b[1][0] == "s":
                    sg = lambda v: v - (1 << w) if v >> (w - 1) else v
                    return (max if b[1] == "smax" else min)(x, y, key=sg)
                return (max if b[1] == "umax" else min)(x, y)
            if b[1] == "bswap" or b[1] == "ctpop" or b[1] == "ctlz" or b[1] == "cttz":
                w = width(retty)
                x = self.need(args[0])
                if b[1] == "ctpop":
                    return bin(x).count("1")
                if b[1] == "ctlz":
                    return w - x.bit_length()
                if b[1] == "cttz":
                    return w if x == 0 else (x & -x).bit_length() - 1
                return int.from_bytes(x.to_bytes(w // 8, "little"), "big")
            if b[1] == "trap":
                raise Bad("trap", loc, "a path ends in a trap")
            if b[1] == "threadlocal":
                return args[0]
        if name == "__cxa_allocate_exception":
            return self.new("exception", self.need(args[0]), "exc")
        if name == "__cxa_free_exception":
            return None
        if name == "__cxa_throw":
            ti = args[1]
            raise Thrown(ti.r.name if isinstance(ti, P) and ti.r else "?", args[0])
        if name == "__cxa_begin_catch":
            return args[0]
        if name == "__cxa_end_catch":
            return None
        if name == "__cxa_rethrow":
            raise Thrown("rethrown")
        if name in ("_ZSt9terminatev", "abort", "__clang_call_terminate", "_ZSt17__throw_bad_allocv") and name != "_ZSt17__throw_bad_allocv":
            raise Bad("termination", loc, "a path terminates the program (%s)" % name)
        if name.startswith("_ZSt") and "__throw_" in name:
            raise Thrown(name)
        if name == "__cxa_guard_acquire":
            p = args[0]
            self.chk(p, 8, True, loc)
            st = self.getm(p.r, p.o, "i8")
            return 0 if self.need(st) & 1 else 1
        if name == "__cxa_guard_release":
            p = args[0]
            self.put(p.r, p.o, 1, "i8", 1)
            return None
        if name == "__cxa_guard_abort":
            return None
        if name in ("__cxa_atexit", "atexit"):
            return 0
        if name == "memcpy" or name == "memmove":
            self.builtin("llvm.memcpy", args, argtys, retty, loc)
            return args[0]
        if name == "memset":
            self.builtin("llvm.memset", args, argtys, retty, loc)
            return args[0]
        return self.external(name, args, argtys, retty, loc)

    def external(self, name, args, argtys, retty, loc):
        raise AnalysisBroken("unmodelled external %s at %s" % (name, loc))

    def typeid(self, name):
        d = self.__dict__.setdefault("_tid", {})
        return d.setdefault(name, len(d) + 1)

    def catches(self, clause, ty):
        """does a catch clause accept the thrown type"""
        return clause in ("*", ty)

    # ---- execution
    def exec(self, fn, args):
        env = list(args) + [None] * (fn.nv - len(args))
        b, prev = 0, -1
        while True:
            bb = fn.bbs[b]
            i = 0
            # phis together
            vals = []
            while i < len(bb) and bb[i][0] == "phi":
                for v, q in bb[i][3]:
                    if q == prev:
                        vals.append((bb[i][1], self.val(fn, env, v, bb[i][2])))
                        break
                i += 1
            for k, v in vals:
                env[k] = v
            nxt = None
            while i < len(bb):
                I = bb[i]
                self.steps += 1
                if self.steps > self.MAXSTEPS:
                    raise AnalysisBroken("more than %d steps in %s" % (self.MAXSTEPS, fn.dem))
                op = I[0]
                if op == "ret":
                    return self.val(fn, env, I[3], None) if len(I) > 4 else None
                if op == "br":
                    if I[3] is None:
                        nxt = I[4]
                    else:
                        c = self.need(self.val(fn, env, I[3], "i1"))
                        if c is UNDEF:
                            raise Bad("undefined value", fn.loc(I[6]), "branch on an undefined value")
                        nxt = I[4] if c else I[5]
                    break
                if op == "switch":
                    v = self.need(self.val(fn, env, I[3], None))
                    if v is UNDEF:
                        raise Bad("undefined value", fn.loc(I[6]), "switch on an undefined value")
                    nxt = I[4]
                    for k, t in I[5]:
                        if (k - v) % (1 << 32) == 0 and (k & 0xffffffff) == (v & 0xffffffff):
                            nxt = t
                            break
                    break
                if op in ("call", "invoke"):
                    try:
                        r = self.do_call(fn, env, I)
                        if I[1] >= 0:
                            env[I[1]] = r
                        if op == "invoke":
                            nxt = I[6]
                            break
                    except Thrown as t:
                        if op == "call" and (I[9] or fn.nounwind):
                            raise Bad("termination", fn.loc(I[5]), "an exception leaves a noexcept function (%s)" % fn.dem)
                        if op != "invoke":
                            raise
                        env_t = t
                        nxt = I[7]
                        self._inflight = env_t
                        break
                    i += 1
                    continue
                if op == "landingpad":
                    t = self._inflight
                    sel = 0
                    for c in I[5]:
                        if self.catches(c, t.ty):
                            sel = self.typeid(c)
                            break
                    env[I[1]] = [P(R("exception " + t.ty, None), 0) if t.obj is None else t.obj, sel]
                    self._cur = t
                    i += 1
                    continue
                if op == "resume":
                    raise self._cur
                if op == "unreachable":
                    raise Bad("unreachable code", fn.dem, "control reaches a point the compiler may assume unreachable")
                r = self.step(fn, env, I)
                if I[1] >= 0:
                    env[I[1]] = r
                i += 1
            if nxt is None:
                raise AnalysisBroken("block without terminator in %s" % fn.dem)
            prev, b = b, nxt

    def do_call(self, fn, env, I):
        tys = I[8]
        args = [self.val(fn, env, a, t) if not (isinstance(a, list) and a and a[0] == "m") else None for a, t in zip(I[4], tys)]
        callee = I[3]
        loc = fn.loc(I[5])
        r = self.do_call2(fn, env, I, callee, args, tys, loc)
        if I[2][0] == "i" and isinstance(r, int):
            r &= (1 << width(I[2])) - 1
        return r

    def do_call2(self, fn, env, I, callee, args, tys, loc):
        if isinstance(callee, str):
            if callee.startswith("asm:"):
                return self.asm(callee[4:], args, I[2], loc)
            return self.call(callee, args, loc, tys, I[2])
        f = self.val(fn, env, callee, "p")
        if isinstance(f, FN):
            return self.call(f.name, args, loc, tys, I[2])
        if isinstance(f, P) and f.r is None:
            raise Bad("null pointer", loc, "call through a null function pointer")
        raise AnalysisBroken("indirect call of %r at %s" % (f, loc))

    def asm(self, text, args, retty, loc):
        raise AnalysisBroken("inline assembly %r at %s" % (text, loc))

    def val(self, fn, env, v, ty):
        if isinstance(v, int):
            return env[v]
        return self.const(v, ty)

    def step(self, fn, env, I):
        op = I[0]
        V = lambda x, t=None: self.val(fn, env, x, t)
        if op == "load":
            p = V(I[3], "p")
            self.chk(p, I[4], False, fn.loc(I[7]))
            r = self.load_hook(p, I[2], fn.loc(I[7]))
            return self.getm(p.r, p.o, I[2]) if r is NotImplemented else r
        if op == "store":
            p = V(I[4], "p")
            loc = fn.loc(I[9])
            self.chk(p, I[6], True, loc)
            if p.r.const:
                raise Bad("store to constant data", loc, "store to %s" % p.r.name)
            self.store_hook(p, I[6], loc)
            self.put(p.r, p.o, tsize(I[5]), I[5], V(I[3], I[5]))
            return None
        if op == "alloca":
            n = V(I[5], "i32")
            return self.new("local of %s" % fn.dem, I[4] * self.need(n), "stack")
        if op == "getelementptr":
            p = V(I[3], "p")
            o = I[4]
            for x, s in I[5]:
                x = self.need(V(x, "i64"))
                if isinstance(x, int):
                    x &= (1 << 64) - 1
                    o += s * (x - (1 << 64) if x >> 63 else x)
                else:
                    raise AnalysisBroken("address index %r" % (x,))
            if not isinstance(p, P):
                raise AnalysisBroken("address arithmetic on %r" % (p,))
            return P(p.r, p.o + o)
        if op == "icmp":
            return self.icmp(I[3], V(I[4], I[6]), V(I[5], I[6]), I[6])
        if op == "select":
            c = V(I[3], "i1")
            a, b = V(I[4], I[2]), V(I[5], I[2])
            if isinstance(c, W):
                if a == b and type(a) is type(b):
                    return a
                if I[2] == "i1" and a in (0, 1) and b in (0, 1):
                    return c if a == 1 else mk([neg(c.b[0])])
                if I[2] == "i1" and b == 0:
                    return self.arith("and", c, a, "i1", fn)
                if I[2] == "i1" and a == 1:
                    return self.arith("or", c, b, "i1", fn)
                c = self.need(c)
            if isinstance(c, list):
                return [x if self.need(k) else y for k, x, y in zip(c, a, b)]
            return a if c else b
        if op in ("zext", "sext", "trunc"):
            v = V(I[3], I[4])
            if isinstance(v, (P, FN)) or v is UNDEF:
                return v
            if I[2][0] == "<":
                return [self.ext(op, x, vty(I[2])[1], vty(I[4])[1]) for x in v]
            return self.ext(op, v, I[2], I[4])
        if op in ("ptrtoint", "inttoptr"):
            return self.cast_ip(V(I[3], I[4]), I[2] if I[2] == "p" else "i64")
        if op in ("bitcast", "addrspacecast", "freeze"):
            v = V(I[3], I[4] if len(I) > 4 and isinstance(I[4], str) else None)
            if op == "bitcast" and self.F is not None and I[2] != I[4]:
                return self.F.bitcast(v, I[4], I[2])
            return v
        if op in ("and", "or", "xor", "add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            ty = I[2]
            a, b = V(I[3], ty), V(I[4], ty)
            if ty[0] == "<":
                n, t = vty(ty)
                return [self.arith(op, x, y, t, fn) for x, y in zip(a, b)]
            return self.arith(op, a, b, ty, fn)
        if op == "extractvalue":
            v = V(I[3])
            for k in I[4]:
                v = v[k]
            return v
        if op == "insertvalue":
            v = V(I[3], I[2])
            if v is UNDEF:
                v = [UNDEF] * len(fields(I[2]))
            v = list(v)
            x = V(I[4], None)
            if len(I[5]) != 1:
                raise AnalysisBroken("nested insertvalue")
            v[I[5][0]] = x
            return v
        if op == "extractelement":
            v = V(I[3], None)
            return v[self.need(V(I[4], "i64"))] if v is not UNDEF else UNDEF
        if op == "insertelement":
            v = V(I[3], I[2])
            v = [UNDEF] * vty(I[2])[0] if v is UNDEF else list(v)
            v[self.need(V(I[5], "i64"))] = V(I[4], vty(I[2])[1])
            return v
        if op == "shufflevector":
            a, b = V(I[3], None), V(I[4], None)
            n = I[6]
            a = [UNDEF] * n if a is UNDEF else a
            b = [UNDEF] * n if b is UNDEF else b
            return [UNDEF if k < 0 else (a[k] if k < n else b[k - n]) for k in I[5]]
        if op == "fence":
            return None
        if self.F is not None:
            r = self.F.step(self, V, I, fn)
            if r is not NotImplemented:
                return r
        if op in ("cmpxchg", "atomicrmw"):
            raise AnalysisBroken("%s in %s" % (op, fn.dem))
        raise AnalysisBroken("unsupported instruction %s in %s" % (op, fn.dem))

    def load_hook(self, p, ty, loc):
        return NotImplemented

    def store_hook(self, p, size, loc):
        pass

    def ext(self, op, v, to, frm):
        n = width(frm)
        b = bits(v, n)
        m = width(to)
        if op == "trunc":
            return mk(b[:m])
        return mk(b + ((b[-1],) if op == "sext" else (0,)) * (m - n))

    def arith(self, op, a, b, ty, fn):
        if a is UNDEF or b is UNDEF:
            if op == "and" and (a == 0 or b == 0):
                return 0
            return UNDEF
        w = width(ty)
        M = (1 << w) - 1
        if op in ("and", "or", "xor") and (isinstance(a, W) or isinstance(b, W)):
            out = []
            for x, y in zip(bits(a, w), bits(b, w)):
                if op == "and":
                    r = 0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 else x if x == y else 0 if x == neg(y) else None
                elif op == "or":
                    r = 1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 else x if x == y else 1 if x == neg(y) else None
                else:
                    r = x if y == 0 else y if x == 0 else 0 if x == y else neg(x) if y == 1 else neg(y) if x == 1 else 1 if x == neg(y) else None
                if r is None:
                    raise NeedAtom(x if x not in (0, 1) else y)
                out.append(r)
            return mk(out)
        if op in ("shl", "lshr", "ashr") and isinstance(a, W):
            k = self.need(b)
            x = bits(a, w)
            if op == "shl":
                return mk(((0,) * k + x)[:w])
            return mk(x[k:] + ((x[-1],) if op == "ashr" else (0,)) * k)
        a, b = self.need(a), self.need(b)
        if isinstance(a, P) or isinstance(b, P):
            if isinstance(a, P) and isinstance(b, int) and op in ("add", "sub"):
                b = b - (1 << 64) if b >> 63 else b
                return P(a.r, a.o + b if op == "add" else a.o - b)
            if isinstance(a, P) and isinstance(b, P) and op == "sub" and a.r is b.r:
                return (a.o - b.o) & M
            raise AnalysisBroken("integer arithmetic on pointers in %s" % fn.dem)
        s = lambda v: v - (1 << w) if v >> (w - 1) else v
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "add":
            return (a + b) & M
        if op == "sub":
            return (a - b) & M
        if op == "mul":
            return (a * b) & M
        if op == "shl":
            return (a << b) & M if b < w else UNDEF
        if op == "lshr":
            return a >> b if b < w else UNDEF
        if op == "ashr":
            return (s(a) >> b) & M if b < w else UNDEF
        if b == 0:
            raise Bad("division by zero", fn.dem, "integer division by zero")
        if op == "udiv":
            return a // b
        if op == "urem":
            return a % b
        x, y = s(a), s(b)
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return (q if op == "sdiv" else x - q * y) & M

    def icmp(self, pred, a, b, ty):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, (P, FN)) or isinstance(b, (P, FN)):
            a = NULL if isinstance(a, int) and a == 0 else a
            b = NULL if isinstance(b, int) and b == 0 else b
            if pred in ("eq", "ne"):
                return int((a == b) == (pred == "eq"))
            if isinstance(a, P) and isinstance(b, P) and a.r is b.r:
                a, b = a.o, b.o
            else:
                raise AnalysisBroken("ordering of unrelated pointers")
        w = 64 if ty == "p" else width(ty) if ty[0] == "i" else None
        if w is None:
            raise AnalysisBroken("vector comparison")
        if not isinstance(a, W) and not isinstance(b, W):
            if pred[0] == "s":
                a = a - (1 << w) if a >> (w - 1) else a
                b = b - (1 << w) if b >> (w - 1) else b
            d = (a > b) - (a < b)
        else:
            x, y = list(bits(a, w)), list(bits(b, w))
            if pred in ("eq", "ne"):
                unk = []
                for p, q in zip(x, y):
                    if p == q:
                        continue
                    if p in (0, 1) and q in (0, 1) or p == neg(q):
                        return int(pred == "ne")
                    if (p, q) not in unk:
                        unk.append((p, q))
                if len(unk) == 1 and (unk[0][0] in (0, 1) or unk[0][1] in (0, 1)):
                    p, q = unk[0]
                    d = p if q == 0 else neg(p) if q == 1 else q if p == 0 else neg(q)      # the bit that says they differ
                    return mk([d if pred == "ne" else neg(d)])
                if unk:
                    p, q = unk[0]
                    raise NeedAtom(p if p not in (0, 1) else q)
                return int(pred == "eq")
            d = 0
            for k in range(w - 1, -1, -1):
                p, q = x[k], y[k]
                if p == q:
                    continue
                # the remaining low bits may decide nothing more
                if not (p in (0, 1) and q in (0, 1)):
                    e = self.bounds(pred, x, y, w)
                    if e is not None:
                        return e
                    raise NeedAtom(p if p not in (0, 1) else q)
                d = 1 if p > q else -1
                if pred[0] == "s" and k == w - 1:
                    d = -d
                break
        return int({"eq": d == 0, "ne": d != 0, "lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[pred[-2:]])

    @staticmethod
    def bounds(pred, x, y, w):
        """decide a comparison from the extreme values of both words"""
        def rng(b):
            lo = sum(1 << i for i, v in enumerate(b[:-1]) if v == 1)
            hi = sum(1 << i for i, v in enumerate(b[:-1]) if v != 0)
            t = (1 << (w - 1)) * (-1 if pred[0] == "s" else 1)
            ts = [t * v for v in ((b[-1],) if b[-1] in (0, 1) else (0, 1))]
            return lo + min(ts), hi + max(ts)
        (al, ah), (bl, bh) = rng(x), rng(y)
        p = pred[-2:]
        if p in ("gt", "ge"):
            al, ah, bl, bh = bl, bh, al, ah
            p = {"gt": "lt", "ge": "le"}[p]
        if p == "lt":
            return 1 if ah < bl else 0 if al >= bh else None
        return 1 if ah <= bl else 0 if al > bh else None


def explore(run, limit=20000):
    """run(known) under every assignment it turns out to depend on; yields (known, result)"""
    work = [{}]
    n = 0
    while work:
        k = work.pop()
        n += 1
        if n > limit:
            raise AnalysisBroken("more than %d cases" % limit)
        try:
            r = run(k)
        except NeedAtom as e:
            work.append(dict(k, **{e.atom: 1}))
            work.append(dict(k, **{e.atom: 0}))
            continue
        yield k, r
