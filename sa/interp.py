"""Abstract interpreter over the normalised LLVM IR (static analysis; no input of the library is ever executed).

Every loop is interpreted by ONE abstract iteration over a symbolic iteration index; array contents are abstracted to a log of
"clauses"  region[offset(symbols)] := linear expression over earlier array states.  Values:

  int          python int or Poly (mathematical integer; wrap-around is an obligation, never silently assumed)
  pointer      Ptr(region, byte offset) / FnPtr(name) / NULL
  double       ring.DVal
  vector/agg   tuple
  UNDEF        undefined
"""
import math
import struct
import threading
import sys
from fractions import Fraction
from . import ring
from .poly import (Poly, Sym, new_sym, sym_poly, padd, psub, pneg, pmul, subst, syms, is_const, exact_div, ge0, bounds,
                   coef_of, lin, _norm, int_valued, content, derived, deep_syms, hull)
from .ir import AnalysisBroken, loc_site

sys.setrecursionlimit(20000)


class Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class Region:
    n = 0

    def __init__(self, name, size, kind, align=16, owner=None):
        Region.n += 1
        self.id = Region.n
        self.name = name
        self.size = size          # bytes (int/Poly) or None
        self.kind = kind          # alloca / heap / new / caller / global / table
        self.align = align
        self.cells = {} if kind in ("alloca", "new", "global") else None
        self.entries = []         # log of stores (Access)
        self.freed = False
        self.par = None           # parallel region that created it (thread private)
        self.init = None          # constant initialiser {off:(size,val)}
        self.readonly = False
        self.law = None

    def __repr__(self):
        return "<%s#%d>" % (self.name, self.id)


class Ptr:
    __slots__ = ("r", "off")

    def __init__(self, r, off=0):
        self.r = r
        self.off = off

    def __repr__(self):
        return "&%r+%r" % (self.r, self.off)


NULL = Ptr(None, 0)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "fn:" + self.name


class Bits:
    """integer image of a double (bitcast) possibly sign flipped"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Cond:
    """undecided condition: kind 'ge' (p>=0), 'eq' (p==0), 'ne'"""
    __slots__ = ("kind", "p", "info")

    def __init__(self, kind, p):
        self.kind = kind
        self.p = p

    def neg(self):
        if self.kind == "ge":
            return Cond("ge", psub(-1, self.p))
        return Cond("ne" if self.kind == "eq" else "eq", self.p)

    def __repr__(self):
        return "(%r %s 0)" % (self.p, {"ge": ">=", "eq": "==", "ne": "!="}[self.kind])


class Split(Exception):
    """the abstract iteration has to be partitioned"""

    def __init__(self, kind, p, d=None, extra=None):
        Exception.__init__(self, kind)
        self.kind = kind      # 'ge' / 'eq' on p, 'div' p by d, 'tri' substitution of a table index
        self.p = p
        self.d = d
        self.extra = extra

    def __str__(self):
        return "split %s %r %r" % (self.kind, self.p, self.d)


class Violation(Exception):
    def __init__(self, rule, msg, loc):
        Exception.__init__(self, msg)
        self.rule = rule
        self.msg = msg
        self.loc = loc


class Unsupported(AnalysisBroken):
    pass


class NeedChoice(BaseException):
    """what happens next depends on the environment (threads supplied, address of an argument ...): the run has to be repeated for each option"""

    def __init__(self, key, options, what):
        BaseException.__init__(self, what)
        self.key, self.options, self.what = key, options, what


class Thrown(Exception):
    """a C++ exception in flight in the analysed program"""

    def __init__(self, ty, obj, loc):
        Exception.__init__(self, ty)
        self.ty, self.obj, self.loc = ty, obj, loc


class Access:
    __slots__ = ("eid", "region", "off", "size", "write", "val", "binders", "loc", "cons", "phase", "par", "ty", "lock", "src")

    def __init__(self, eid, region, off, size, write, val, loc, cons, phase, par, ty=None):
        self.eid = eid
        self.region = region
        self.off = off
        self.size = size
        self.write = write
        self.val = val
        self.binders = ()
        self.loc = loc
        self.cons = cons
        self.phase = phase
        self.par = par
        self.ty = ty
        self.lock = par.lock if par is not None else None
        self.src = 0              # reads: the store whose value was forwarded to it (0: none)

    def __repr__(self):
        return "%s %r[%r:%d] b=%r" % ("W" if self.write else "R", self.region, self.off, self.size, self.binders)


class Par:
    """one parallel region instance"""
    n = 0

    def __init__(self, loc):
        Par.n += 1
        self.id = Par.n
        self.loc = loc
        self.phase = 0
        self.cons = None          # current construct: None = executed by every thread
        self.accs = []
        self.constructs = []
        self.team = None          # concrete number of threads (only when the region's code depends on thread numbers)
        self.tid = 0
        self.ws = None            # team runs: worksharing construct being executed
        self.sched = None
        self.lock = None          # critical section being executed
        self.master = None
        self.serial = False
        self.nested = False


class Construct:
    n = 0

    def __init__(self, kind, loc):
        Construct.n += 1
        self.id = Construct.n
        self.kind = kind          # 'for' / 'single'
        self.loc = loc
        self.binder = None        # binders of the distributed loop
        self.nowait = True

    def __repr__(self):
        return "%s@%s" % (self.kind, self.loc)


INT_RANGE = {"i1": (0, 1), "i8": (-128, 127), "i16": (-32768, 32767), "i32": (-2 ** 31, 2 ** 31 - 1), "i64": (-2 ** 63, 2 ** 63 - 1)}
TYSIZE = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "d": 8, "p": 8, "f": 4, "?x86_fp80": 16}
_vt = {}


def vecty(t):
    """'<4xd>' -> (4,'d') else None"""
    r = _vt.get(t, 0)
    if r == 0:
        r = None
        if t.startswith("<"):
            n, e = t[1:-1].split("x", 1)
            r = (int(n), e)
        _vt[t] = r
    return r


def zero_of(ty):
    v = vecty(ty)
    if v:
        return (zero_of(v[1]),) * v[0]
    if ty == "d" or ty == "f" or ty == "?x86_fp80":
        return ring.d_const(0.0)
    if ty == "p":
        return NULL
    if ty.startswith("i"):
        return 0
    if ty.startswith("{") or ty.startswith("["):
        return UNDEF
    return UNDEF


def divmod_static(D, h):
    """D = h*Q + R with 0<=R<h proven for all symbol values; None if not decidable here.  h > 0 assumed."""
    if is_const(D) and is_const(h):
        return D // h, D % h
    q = exact_div(D, h)
    if q is not None:
        return q, 0
    if is_const(h):
        if is_const(D):
            return D // h, D % h
        qt, rt = {}, {}
        for m, c in D.t.items():
            if not m:
                rt[m] = c
            elif isinstance(c, int) and c % h == 0:
                qt[m] = c // h
            else:
                rt[m] = c
        Q, R = Poly.mk(qt), Poly.mk(rt)
        # non-integral pieces of the quotient are not allowed
        lo, hi = bounds(R)
        if lo is not None and hi is not None:
            k = math.floor(lo / h) if not isinstance(lo, int) else lo // h
            if hi < h * (k + 1):
                return padd(Q, k), psub(R, h * k)
        return None
    # symbolic divisor
    if is_const(D):
        if D >= 0 and ge0(psub(psub(h, D), 1)):
            return 0, D
        if D < 0 and ge0(padd(h, D)):
            return -1, padd(D, h)
        return None
    if ge0(D) and ge0(psub(psub(h, D), 1)):
        return 0, D
    if len(h.t) == 1:
        (hm, hc), = h.t.items()
        qt, rt = {}, {}
        inv = tuple((s, -e) for s, e in hm)
        for m, c in D.t.items():
            d = dict(m)
            ok = all(d.get(s, 0) >= e for s, e in hm)
            cc = _norm(Fraction(c) / hc)
            if ok and isinstance(cc, int):
                for s, e in hm:
                    d[s] -= e
                    if not d[s]:
                        del d[s]
                qt[tuple(sorted(d.items()))] = cc
            else:
                rt[m] = c
        Q, R = Poly.mk(qt), Poly.mk(rt)
        if ge0(R) and ge0(psub(psub(h, R), 1)):
            return Q, R
    else:
        # D = k*h + R, small k
        for k in (1, -1, 2, 3):
            R = psub(D, pmul(h, k))
            if ge0(R) and ge0(psub(psub(h, R), 1)):
                return k, R
    return None


class Frame:
    __slots__ = ("exc", "fn", "env", "allocas", "force", "over")

    def __init__(self, fn, nv):
        self.fn = fn
        self.force = None
        self.over = None
        self.env = [None] * nv
        self.allocas = []


class Closed:
    """header value of a loop-carried integer as a function of the iteration number; instr is the wrapping instruction that computes the next one"""

    def __init__(self, at, instr):
        self.at = at
        self.instr = instr


inverse = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}


class LoopCtx:
    """one generic iteration under analysis"""
    __slots__ = ("binders", "val", "loc", "split_ok", "T", "fixed")

    def __init__(self, binders, val, loc, T):
        self.binders = binders      # symbol ids introduced for this iteration index
        self.val = val
        self.loc = loc
        self.T = T


class _Scratch:
    def __repr__(self):
        return "SCRATCH"


SCRATCH = _Scratch()


class Interp:
    def __init__(self, prog, checks=("bounds",)):
        self.prog = prog
        self.eid = 0
        self.log = []                 # all accesses to array regions
        self.regions = []
        self.globals = {}
        self.par = None
        self.parlog = []
        self.omp_orphans = []         # worksharing met outside a library parallel region
        self.obl = {}                 # rule -> [n_obligations, n_discharged]
        self.viol = []                # (rule, loc, message)
        self.seen_viol = set()
        self.loopctx = []
        self.intercept = {}           # function name -> handler(interp, args, loc)
        self.facts = []               # Cond assumed at top level
        self.fnstack = []
        self.functions = set()
        self.steps = 0
        self.hot = {}                   # source location of an outermost loop -> its part of the cost
        self.cost = 0                   # instructions executed by all iterations of everything so far (upper bound)
        self.max_steps = 40_000_000
        self.heap = []
        self.alloc_calls = []
        self.freed = []
        self.decide_hook = None
        self.calls_seen = {}
        self.trace = None
        self.loops_generic = 0
        self.loops_unrolled = 0
        self.tables = {}
        self.phase_checks = []
        self.alias_ok = set()
        self.exceptions = False       # follow exceptions (C14); otherwise a throw is a violation
        self.fail_at = ()             # ordinals of the allocation requests that fail
        self.alloc_no = 0
        self.caught = []
        self.env = None               # environment choices made for this run: {key: option}; None = choices are not explored
        self.asked = []
        self.threads_matter = False   # some choice concerned the number of threads
        self.pushed = None            # num_threads clause of the next parallel region
        self.tls = {}

    # ------------------------------------------------------------ environment
    def choose(self, key, options, what):
        if self.env is None:
            raise Unsupported("the behaviour depends on %s" % what)
        if key not in self.env:
            raise NeedChoice(key, options, what)
        v = self.env[key]
        if (what, v) not in self.asked:
            self.asked.append((what, v))
        return v

    def residue(self, r, mod):
        """address of a region modulo a power of two"""
        res, k = 0, max(1, int(r.align or 1))
        if r.kind == "alloca":
            k = max(k, 16)
        while k < mod:
            if self.choose(("addr", r.name, self.regions.index(r) if r in self.regions else -1, k), (0, 1), "bit %d of the address of %s" % (k.bit_length() - 1, r.name)):
                res += k
            k *= 2
        return res

    def known_align(self, r):
        """alignment of a region in this run's environment"""
        k = max(1, int(r.align or 1))
        if self.env:
            i = self.regions.index(r) if r in self.regions else -1
            while self.env.get(("addr", r.name, i, k)) == 0:
                k *= 2
        return k

    # ------------------------------------------------------------ reporting
    def here(self, fr, li):
        return loc_site(fr.fn.loc(li)) if li is not None and li != -1 else loc_site(fr.fn.loc(-1))

    def oblige(self, rule, ok, fr, li, msg):
        c = self.obl.setdefault(rule, [0, 0])
        c[0] += 1
        if ok:
            c[1] += 1
            return True
        loc = self.here(fr, li) if fr is not None else str(li)
        m = msg() if callable(msg) else msg
        k = (rule, loc, m)
        if k not in self.seen_viol:
            self.seen_viol.add(k)
            self.viol.append(k)
        return False

    def lossy(self, fr, li, msg):
        """the computed value is not the exact one to double precision; the analysis continues with the exact one"""
        self.oblige("precision", False, fr, li, msg)

    # ------------------------------------------------------------ globals
    def global_region(self, name):
        r = self.globals.get(name)
        if r is None:
            g = self.prog.globals.get(name)
            if g is None:
                r = Region(name, None, "global")
                r.readonly = False
            else:
                r = Region(g["dem"], g["size"], "global")
                r.readonly = bool(g["const"])
                for off, size, ty, c in g["init"]:
                    r.cells[off] = (size, self.const(c, ty))
                r.gl = g
            self.globals[name] = r
            self.regions.append(r)
        return r

    def const(self, c, ty=None):
        k = c[0]
        if k == "i":
            return c[1]
        if k == "d":
            return ring.literal(c[1])
        if k == "n":
            return NULL
        if k == "u":
            v = vecty(c[1]) if len(c) > 1 else None
            return (UNDEF,) * v[0] if v else UNDEF
        if k == "z":
            return zero_of(c[1])
        if k == "c":
            return tuple(self.const(x) for x in c[2])
        if k == "g":
            return Ptr(self.global_region(c[1]), c[2])
        if k == "F":
            return FnPtr(c[1])
        if k == "m":
            return None
        return UNDEF

    def val(self, fr, o):
        if isinstance(o, int):
            return fr.env[o]
        return self.const(o)

    # ------------------------------------------------------------ decisions
    def decide(self, c):
        """truth value of a condition; raises Split when it differs between iterations/parameters"""
        if isinstance(c, (int, bool)):
            return bool(c)
        if c is UNDEF or c is None:
            raise Unsupported("branch on an undefined value")
        p = c.p
        if is_const(p):
            return (p >= 0) if c.kind == "ge" else ((p == 0) if c.kind == "eq" else p != 0)
        if c.kind == "ge":
            if ge0(p):
                return True
            if ge0(psub(-1, p)):
                return False
        else:
            lo, hi = bounds(p)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0) or self.nonzero_by_gcd(p):
                return c.kind == "ne"
            if lo is not None and lo == hi == 0:
                return c.kind == "eq"
        if self.decide_hook:
            r = self.decide_hook(c)
            if r is not None:
                return r
        for f in self.facts:
            if f.kind == c.kind and f.p == p:
                return True
            n = f.neg()
            if n.kind == c.kind and n.p == p:
                return False
            if f.kind == "ge" and c.kind == "ge":
                if ge0(psub(p, f.p)):
                    return True
                if ge0(psub(psub(-1, p), f.p)):
                    return False
            if c.kind in ("eq", "ne") and f.kind in ("eq", "ne") and f.p == pneg(p):
                return (f.kind == c.kind)
        raise Split("ge" if c.kind == "ge" else "eq", p)

    @staticmethod
    def nonzero_by_gcd(p):
        """p = g*(...) + r with r not a multiple of g, integer coefficients"""
        g = 0
        for m, c in p.t.items():
            if m:
                if not isinstance(c, int) or any(e < 0 for _, e in m):
                    return False
                g = math.gcd(g, c)
        r = p.t.get((), 0)
        return g > 1 and isinstance(r, int) and r % g != 0

    def compare(self, pred, a, b, ty):
        if ty == "p" or isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r is b.r:
                    d = psub(a.off, b.off)
                    if a.r is None:
                        d = 0
                else:
                    if pred == "eq":
                        return 0
                    if pred == "ne":
                        return 1
                    ka, kb = ("null" if x.r is None else "%s#%d" % (x.r.name, self.regions.index(x.r) if x.r in self.regions else -1) for x in (a, b))
                    if "null" in (ka, kb):
                        return int((pred[1:] in ("lt", "le")) == (ka == "null"))
                    lo = self.choose(("order",) + tuple(sorted((ka, kb))), (0, 1), "the order of the addresses of %s" % " and ".join(sorted((ka, kb))))
                    d = -1 if (lo == 1) == (ka < kb) else 1
            elif isinstance(a, FnPtr) and isinstance(b, FnPtr):
                d = 0 if a.name == b.name else 1
            elif isinstance(a, FnPtr) or isinstance(b, FnPtr):
                d = 1
            else:
                raise Unsupported("pointer comparison with %r %r" % (a, b))
            if is_const(d):
                return self.cmpc(pred, d)
            return self.mkcond(pred, d)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Cond) or isinstance(b, Cond):
            # comparison of an i1 with a constant
            if isinstance(b, int) and isinstance(a, Cond):
                t = self.decide(a)
                return self.cmpc(pred, int(t) - b)
            raise Unsupported("comparison of conditions")
        if isinstance(a, (Bits, tuple)) or isinstance(b, (Bits, tuple)):
            raise Unsupported("comparison of non-integers")
        if pred[0] == "u":
            if isinstance(a, int) and isinstance(b, int):
                w = 64 if ty not in ("i8", "i16", "i32") else int(ty[1:])
                a &= (1 << w) - 1
                b &= (1 << w) - 1
            else:
                for x in (a, b):
                    if not ge0(x):
                        raise Split("ge", x) if not is_const(x) else Unsupported("unsigned comparison of a negative value")
        d = psub(a, b)
        if is_const(d):
            return self.cmpc(pred, d)
        return self.mkcond(pred, d)

    @staticmethod
    def cmpc(pred, d):
        if pred == "eq":
            return int(d == 0)
        if pred == "ne":
            return int(d != 0)
        p = pred[1:]
        return int({"gt": d > 0, "ge": d >= 0, "lt": d < 0, "le": d <= 0}[p])

    @staticmethod
    def mkcond(pred, d):
        if pred == "eq":
            return Cond("eq", d)
        if pred == "ne":
            return Cond("ne", d)
        p = pred[1:]
        if p == "ge":
            return Cond("ge", d)
        if p == "gt":
            return Cond("ge", psub(d, 1))
        if p == "le":
            return Cond("ge", pneg(d))
        return Cond("ge", psub(pneg(d), 1))

    # ------------------------------------------------------------ memory
    def new_region(self, name, size, kind, align=16):
        r = Region(name, size, kind, align)
        r.par = self.par
        self.regions.append(r)
        return r

    def to_array(self, r):
        """object region accessed at a symbolic offset: turn its cells into log entries"""
        cells = r.cells
        r.cells = None
        for off, (size, v) in sorted(cells.items()):
            self.eid += 1
            r.entries.append(Access(self.eid, r, off, size, True, v, "", None, 0, None))

    def check_bounds(self, fr, p, size, align, li, what):
        r = p.r
        if r is None:
            self.oblige("null", False, fr, li, lambda: "%s through a null pointer (offset %r)" % (what, p.off))
            raise Violation("null", "%s through a null pointer" % what, self.here(fr, li))
        if r.freed:
            self.oblige("uaf", False, fr, li, lambda: "%s of released memory %s" % (what, r.name))
        if r.size is None:
            return
        off = p.off
        if is_const(off) and is_const(r.size):
            ok = 0 <= off and off + size <= r.size
        else:
            ok = ge0(off) and ge0(psub(psub(r.size, off), size))
        self.oblige("bounds", ok, fr, li, lambda: "%s of %d bytes at offset %r of %s (%s bytes) not within bounds: offset range %r" % (
            what, size, off, r.name, r.size, bounds(off)))
        if align > 8 and r.kind in ("caller", "heap"):
            ok = r.align >= align or self.env and self.known_align(r) >= align
            if ok:
                if is_const(off):
                    ok = off % align == 0
                else:
                    ok = all(isinstance(c, int) and c % align == 0 for c in off.t.values())
                    if not ok:
                        ok = self.aligned_poly(off, align)
            self.oblige("align", ok, fr, li, lambda: "%s requires %d-byte alignment but %s only guarantees %d" % (what, align, r.name, r.align))

    @staticmethod
    def aligned_poly(off, align):
        q = Poly({m: _norm(Fraction(c) / align) for m, c in off.t.items()}) if isinstance(off, Poly) else None
        return q is not None and int_valued(q)

    def load(self, fr, p, ty, size, align, li):
        if not isinstance(p, Ptr):
            if p is UNDEF:
                self.oblige("undef", False, fr, li, "load through an undefined pointer")
                raise Violation("undef", "load through an undefined pointer", self.here(fr, li))
            raise Unsupported("load through %r" % (p,))
        self.check_bounds(fr, p, size, align, li, "read")
        r = p.r
        off = p.off
        if r.cells is not None:
            if is_const(off):
                return self.load_cells(fr, r, off, ty, size, li)
            self.to_array(r)
        v = vecty(ty)
        n, et = v if v else (1, ty)
        es = size // n
        acc = self.access(r, off, size, False, None, fr, li, ty)
        self.log.append(acc)
        self.src = 0
        if n == 1:
            v = self.read_arr(fr, r, off, ty, es, li)
            acc.src = self.src
            return v
        # vector: try whole-range resolution first
        out = []
        src = []
        for k in range(n):
            self.src = 0
            out.append(self.read_arr(fr, r, padd(off, k * es), et, es, li))
            src.append(self.src)
        acc.src = min(src)
        return tuple(out)

    def load_cells(self, fr, r, off, ty, size, li):
        if self.par is not None and r.par is not self.par and not r.readonly:
            self.log.append(self.access(r, off, size, False, None, fr, li, ty))
        c = r.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            vt = vecty(ty)
            if vt and not isinstance(v, tuple) and v is not UNDEF:
                v = None
            if v is not None:
                if ty == "d" and not isinstance(v, ring.DVal) and v is not UNDEF:
                    if isinstance(v, int) and v == 0:
                        return ring.d_const(0.0)
                    if isinstance(v, Bits):
                        return v.v
                return v
        vt = vecty(ty)
        if vt:
            es = size // vt[0]
            return tuple(self.load_cells(fr, r, off + k * es, vt[1], es, li) for k in range(vt[0]))
        # part of a wider cell / zero fill
        for o, (s, v) in r.cells.items():
            if o <= off and off + size <= o + s:
                if isinstance(v, tuple):
                    es = s // len(v)
                    if es == size and (off - o) % es == 0:
                        return v[(off - o) // es]
                if v is UNDEF:
                    return UNDEF
                if isinstance(v, int) and v == 0:
                    return zero_of(ty)
                if isinstance(v, int) and ty.startswith("i"):
                    b = (v >> (8 * (off - o))) & ((1 << (8 * size)) - 1)
                    if b >= 1 << (8 * size - 1):
                        b -= 1 << (8 * size)
                    return b
            elif o < off + size and off < o + s:
                return UNDEF
        if r.kind == "global" and r.readonly:
            return zero_of(ty)
        return UNDEF

    def access(self, r, off, size, write, val, fr, li, ty=None):
        self.eid += 1
        par = self.par
        return Access(self.eid, r, off, size, write, val, (fr.fn, li), par.cons if par else None, par.phase if par else 0, par, ty)

    def read_arr(self, fr, r, off, ty, size, li):
        ents = r.entries
        for i in range(len(ents) - 1, -1, -1):
            e = ents[i]
            if e.val is SCRATCH:
                raise Unsupported("value left in %s by an earlier loop" % r.name)
            d = psub(off, e.off)
            if is_const(d):
                if d >= e.size or d + size <= 0:
                    continue
                if d >= 0 and d + size <= e.size:
                    v = e.val
                    if not e.binders or e.off == off:
                        if not e.binders:
                            self.src = e.eid
                        return self.piece(e, d, size, ty)
                    # fallthrough: closed entry with identical symbols cannot occur
                if not e.binders:
                    if isinstance(v if d >= 0 else None, tuple):
                        pass
                    self.oblige("partial", False, fr, li, "read partially overlaps an earlier store")
                    return UNDEF
            if not e.binders:
                if self.apart(d, e.size, size, e):
                    continue
                # same-iteration store of unknown relation
                if not self.has_cells_val(e.val):
                    m = self.match(e, off, size, ty)
                    if m is not None:
                        return m
                return self.opaque(fr, r, e, off, ty, size, li)
            if self.apart(d, e.size, size, e):
                continue
            if not self.has_cells_val(e.val):
                m = self.match(e, off, size, ty)
                if m is not None:
                    return m
            return self.opaque(fr, r, e, off, ty, size, li)
        return self.base(fr, r, off, ty, size, li)

    @staticmethod
    def piece(e, d, size, ty):
        v = e.val
        if isinstance(v, tuple):
            es = e.size // len(v)
            if d % es == 0 and es == size:
                v = v[d // es]
            else:
                raise Unsupported("unaligned vector element forwarding")
        elif d != 0 or e.size != size:
            if v is UNDEF:
                return UNDEF
            if isinstance(v, ring.DVal) and not v.d:
                return zero_of(ty)
            if isinstance(v, int) and v == 0:
                return zero_of(ty)
            raise Unsupported("partial forwarding")
        if ty == "d" and isinstance(v, int) and v == 0:
            return ring.d_const(0.0)
        return v

    def base(self, fr, r, off, ty, size, li):
        if r.kind in ("heap", "new", "alloca"):
            return self.uninit(fr, r, off, ty, size, li)
        if ty != "d":
            raise Unsupported("integer read from caller memory %r" % r)
        return self.cell(r, 0, off)

    def uninit(self, fr, r, off, ty, size, li):
        if ty == "d":
            return self.cell(r, 0, off)
        return UNDEF

    def cell(self, r, ver, off):
        idx = exact_div(off, 8)
        if idx is None:
            raise Unsupported("misaligned double access at %r" % (off,))
        return ring.d_atom(("cell", r.id, ver, idx))

    def opaque(self, fr, r, e, off, ty, size, li):
        if ty == "d":
            return self.cell(r, e.eid, off)
        # integers must be resolved
        raise Split("table", off, None, (r, size, ty))

    @staticmethod
    def has_cells_val(v):
        if isinstance(v, tuple):
            return any(Interp.has_cells_val(x) for x in v)
        if isinstance(v, ring.DVal):
            return ring.has_cells(v)
        return False

    def apart(self, d, esize, size, e):
        """load offset - store offset = d: provably no overlap for any symbol values"""
        if is_const(d):
            return d >= esize or d + size <= 0
        lo, hi = hull(d)
        if lo is not None and (lo >= esize or hi + size <= 0):
            return True
        # residue argument
        g = content(d)
        if g > 1:
            r = d.t.get((), 0)
            if isinstance(r, int):
                r %= g
                # d = r (mod g); overlap iff -size < d < esize
                if r >= esize and r - g + size <= 0:
                    return True
        lo, hi = bounds(d)
        if lo is not None and lo >= esize:
            return True
        if hi is not None and hi + size <= 0:
            return True
        return False

    # ---- table matching
    def match(self, e, off, size, ty):
        """load offset lies in the clause family of e: solve for its binders; returns the value or None"""
        el = e.size
        v = e.val
        ks = [0]
        if isinstance(v, tuple):
            es = e.size // len(v)
            if es != size:
                return None
            ks = range(len(v))
        elif e.size != size:
            return None
        for k in ks:
            target = psub(off, k * (el // len(ks)))
            sol = solve_binders(e.off, e.binders, target)
            if sol is None:
                sol = unify_binders(e.off, e.binders, target)
            if sol is None:
                continue
            vv = v[k] if isinstance(v, tuple) else v
            return subst_val(vv, sol)
        return None

    def store(self, fr, p, v, ty, size, align, li):
        if not isinstance(p, Ptr):
            if p is UNDEF:
                self.oblige("undef", False, fr, li, "store through an undefined pointer")
                raise Violation("undef", "store through an undefined pointer", self.here(fr, li))
            raise Unsupported("store through %r" % (p,))
        self.check_bounds(fr, p, size, align, li, "write")
        r = p.r
        off = p.off
        if r.readonly:
            self.oblige("const", False, fr, li, "store to read-only object %s" % r.name)
        if isinstance(v, Cond):
            v = int(self.decide(v))
        if r.cells is not None:
            if is_const(off):
                if self.par is not None and r.par is not self.par:
                    self.log.append(self.access(r, off, size, True, v, fr, li, ty))
                self.store_cells(r, off, size, v)
                return
            self.to_array(r)
        a = self.access(r, off, size, True, v, fr, li, ty)
        self.log.append(a)
        r.entries.append(a)

    @staticmethod
    def store_cells(r, off, size, v):
        cells = r.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v)
            return
        dead = []
        add = []
        for o, (s, w) in cells.items():
            if o < off + size and off < o + s:
                dead.append(o)
                if isinstance(w, tuple):
                    es = s // len(w)
                    for k in range(len(w)):
                        oo = o + k * es
                        if oo + es <= off or oo >= off + size:
                            add.append((oo, es, w[k]))
                else:
                    if o < off:
                        add.append((o, off - o, w if isinstance(w, int) and w == 0 else UNDEF))
                    if o + s > off + size:
                        add.append((off + size, o + s - off - size, w if isinstance(w, int) and w == 0 else UNDEF))
        for o in dead:
            del cells[o]
        for o, s, w in add:
            cells[o] = (s, w)
        if isinstance(v, tuple) and len(v) > 1:
            es = size // len(v)
            for k in range(len(v)):
                cells[off + k * es] = (es, v[k])
        else:
            cells[off] = (size, v)

    # ------------------------------------------------------------ snapshots
    def snap(self):
        return (len(self.log), [(r, len(r.entries), dict(r.cells) if r.cells is not None else None, r.freed) for r in self.regions],
                len(self.regions), self.par.phase if self.par else 0, self.par.cons if self.par else None, len(self.omp_orphans), self.par,
                len(self.heap))

    def restore(self, s):
        del self.log[s[0]:]
        for r, n, cells, fz in s[1]:
            del r.entries[n:]
            r.cells = dict(cells) if cells is not None else None
            r.freed = fz
        del self.regions[s[2]:]
        self.par = s[6]
        if self.par:
            self.par.phase = s[3]
            self.par.cons = s[4]
        del self.omp_orphans[s[5]:]
        del self.heap[s[7]:]

    # ------------------------------------------------------------ functions
    def call(self, name, args, loc="", caller=None):
        h = self.intercept.get(name)
        if h is not None:
            return h(self, args, loc, caller)
        if not self.prog.has(name):
            return self.external(name, args, loc, caller)
        fn = self.prog.get(name)
        return self.run_function(fn, args)

    def run_function(self, fn, args):
        if len(self.fnstack) > 400:
            raise Unsupported("call depth")
        self.functions.add(fn.name)
        fr = Frame(fn, fn.nv)
        for i, a in enumerate(args):
            fr.env[i] = a
        self.fnstack.append(fn)
        try:
            r = self.exec_from(fr, 0, None, None)
        except Thrown as e:
            if fn.nounwind:
                raise Violation("terminate", "the exception thrown at %s leaves the noexcept function %s" % (e.loc, fn.dem), e.loc)
            raise
        finally:
            self.fnstack.pop()
        return r[1]

    def exec_from(self, fr, b, prev, within):
        """execute from block b; `within` = loop dict whose header terminates the walk.
        returns ('ret',value) | ('back', prevblock) | ('exit', block, prevblock)"""
        fn = fr.fn
        bbs = fn.bbs
        first = True
        while True:
            if within is not None:
                if b == within["h"] and not first:
                    return ("back", prev)
                if b not in within["set"]:
                    return ("exit", b, prev)
            li = fn.hdr.get(b)
            if li is not None and (within is None or fn.loops[li] is not within):
                b, prev = self.exec_loop(fr, fn.loops[li], prev)
                first = False
                if b is None:
                    return ("ret", prev)
                continue
            first = False
            nxt = self.exec_block(fr, bbs[b], b, prev)
            if nxt.__class__ is tuple:
                return nxt
            prev = b
            b = nxt

    def phis(self, fr, blk, prev):
        vals = []
        for ins in blk:
            if ins[0] != "phi":
                break
            for v, pb in ins[3]:
                if pb == prev:
                    vals.append((ins[1], self.val(fr, v)))
                    break
            else:
                raise Unsupported("phi without incoming edge")
        for i, v in vals:
            fr.env[i] = v

    def exec_block(self, fr, blk, b, prev, skip_phi=False, forced=None):
        if prev is not None and not skip_phi and blk and blk[0][0] == "phi":
            self.phis(fr, blk, prev)
        env = fr.env
        self.steps += len(blk)
        self.cost += len(blk)
        if self.steps > self.max_steps:
            raise Unsupported("analysis step budget exceeded")
        for ins in blk:
            op = ins[0]
            if op == "phi":
                continue
            h = DISPATCH.get(op)
            if h is not None:
                env[ins[1]] = h(self, fr, ins)
                continue
            if op == "store":
                self.store(fr, self.val(fr, ins[4]), self.val(fr, ins[3]), ins[5], ins[6], ins[7], ins[9])
                continue
            if op == "br":
                if ins[3] is None:
                    return ins[4]
                if forced is not None:
                    return forced
                if fr.force and b in fr.force:
                    return fr.force[b]
                c = self.val(fr, ins[3])
                return ins[4] if self.decide(c) else ins[5]
            if op == "call" or op == "invoke":
                if self.exceptions:
                    try:
                        v = self.do_call(fr, ins)
                    except Thrown as e:
                        if op == "invoke":
                            fr.exc = e
                            return ins[7]
                        raise
                else:
                    v = self.do_call(fr, ins)
                if ins[1] >= 0:
                    env[ins[1]] = v
                if op == "invoke":
                    return ins[6]
                continue
            if op == "ret":
                return ("ret", self.val(fr, ins[3]) if ins[2] == "v" and len(ins) > 4 and ins[3] is not None else None)
            if op == "switch":
                c = self.val(fr, ins[3])
                if isinstance(c, Poly):
                    for v, bb in ins[5]:
                        if self.decide(Cond("eq", psub(c, v))):
                            return bb
                    return ins[4]
                if not isinstance(c, int):
                    raise Unsupported("switch on %r" % (c,))
                for v, bb in ins[5]:
                    if v == c:
                        return bb
                return ins[4]
            if op == "resume" and self.exceptions:
                raise fr.exc
            if op == "unreachable":
                raise Violation("unreachable", "reaches a point the program declares unreachable (abort/throw)", self.here(fr, -1))
            raise Unsupported("instruction %s in %s" % (op, fr.fn.dem))
        raise Unsupported("block without terminator")

    # ------------------------------------------------------------ loops
    def exec_loop(self, fr, loop, prev):
        fn = fr.fn
        hb = loop["h"]
        blk = fn.bbs[hb]
        phis = [ins for ins in blk if ins[0] == "phi"]
        init = {}
        for ins in phis:
            for v, pb in ins[3]:
                if pb == prev:
                    init[ins[1]] = self.val(fr, v)
        ws = None
        if self.par is not None and self.par.cons is not None and self.par.cons.kind == "for":
            c = self.par.cons
            if c.loop is None and c.depth == len(self.loopctx) and c.fn is fr.fn:
                if getattr(c, "skip", 0):
                    c.skip = 0
                else:
                    c.loop = hb
                    ws = c
        if ws is not None:
            try:
                return self.exec_loop2(fr, loop, prev, phis, init, ws)
            finally:
                ws.loop = hb
        return self.exec_loop2(fr, loop, prev, phis, init, None)

    def exec_loop2(self, fr, loop, prev, phis, init, ws):
        plan = self.plan_loop(fr, loop, phis, init)
        if plan is None:
            return self.unroll(fr, loop, prev, ws=ws)
        T, steps, reds, body_first, assumed = plan
        if is_const(T):
            if T <= 0:
                T = 0
        elif not ge0(T):
            # decide emptiness
            if not self.decide(Cond("ge", T)):
                T = 0
        n_red = len(reds)
        if T == 0:
            return self.unroll(fr, loop, prev, known=0, ws=ws)
        if is_const(T) and T == 1 and not reds:
            return self.unroll(fr, loop, prev, ws=ws)
        if is_const(T) and T <= 4 and not self.generic_small:
            return self.unroll(fr, loop, prev, ws=ws)
        small = ws is None and is_const(T) and T <= 64 and self.fallback > 0
        if small:
            snap, env, depth, cost = self.snap(), list(fr.env), len(self.loopctx), self.cost
            nv, no = len(self.viol), {k: list(v) for k, v in self.obl.items()}
            team = self.par.__class__, self.par
        try:
            return self.generic(fr, loop, prev, phis, init, T, steps, reds, body_first, assumed, ws)
        except Thrown as e:
            raise Unsupported("exception thrown at %s inside a loop" % e.loc)
        except Unsupported:
            # no general argument about an arbitrary iteration: a short loop of known length is followed iteration by iteration instead
            if not small or self.par is not team[1] or getattr(self.par, "fallback", True) is False:
                raise
            self.fallback -= T
            self.rollback(nv, no)
            self.cost = cost
            self.restore(snap)
            fr.env[:] = env
            del self.loopctx[depth:]
            return self.unroll(fr, loop, prev)

    fallback = 20000

    generic_small = False

    def unroll(self, fr, loop, prev, known=None, ws=None):
        """concrete unrolling of a loop whose control is decided at every step"""
        fn = fr.fn
        n = 0
        p = prev
        marks = [len(self.log)]
        while True:
            self.phis(fr, fn.bbs[loop["h"]], p)
            r = self.exec_unrolled_iter(fr, loop, p)
            if r[0] == "back":
                n += 1
                p = r[1]
                marks.append(len(self.log))
                if n > 40000:
                    raise Unsupported("loop at %s not bounded" % self.loop_loc(fn, loop))
                continue
            self.loops_unrolled += 1
            if ws is not None:
                marks.append(len(self.log))
                self.iteration_races([self.log[a:b] for a, b in zip(marks, marks[1:])], self.loop_loc(fn, loop))
            if r[0] == "exit":
                return r[1], r[2]
            return None, r[1]

    def exec_unrolled_iter(self, fr, loop, prev):
        fn = fr.fn
        hb = loop["h"]
        nxt = self.exec_block(fr, fn.bbs[hb], hb, prev, skip_phi=True)
        if nxt.__class__ is tuple:
            return nxt
        if nxt == hb:
            return ("back", hb)
        return self.exec_from2(fr, nxt, hb, loop)

    def exec_from2(self, fr, b, prev, within):
        fn = fr.fn
        if b == within["h"]:
            return ("back", prev)
        if b not in within["set"]:
            return ("exit", b, prev)
        return self.exec_from(fr, b, prev, within)

    def loop_loc(self, fn, loop):
        for ins in fn.bbs[loop["h"]]:
            if ins[0] == "br":
                return loc_site(fn.loc(ins[6]))
        return fn.dem

    # -- loop planning: affine induction variables and trip count
    def plan_loop(self, fr, loop, phis, init):
        fn = fr.fn
        hb = loop["h"]
        key = ("plan", hb)
        st = fn.cache.get(key)
        if st is None:
            st = self.plan_static(fn, loop, phis)
            fn.cache[key] = st
        if st is False:
            return None
        exiting, exit_succ_idx, latch, pos = st
        ins = fn.bbs[exiting][-1]
        # symbolic probes
        probe = {}
        vals = {}
        for ph in phis:
            v = init[ph[1]]
            if ph[2] in INT_RANGE:
                if not isinstance(v, (int, Poly)):
                    return None
                s = Sym("probe")
                probe[ph[1]] = s
                vals[ph[1]] = sym_poly(s)
            elif ph[2] == "p":
                if not isinstance(v, Ptr) or v.r is None:
                    return None
                s = Sym("probe")
                probe[ph[1]] = s
                vals[ph[1]] = Ptr(v.r, sym_poly(s))
        pe = PureEval(self, fr, loop, vals)
        steps = {}
        reds = []
        cand, adds = [], []
        pids = {x.id for x in probe.values()}
        for ph in phis:
            lv = None
            for v, pb in ph[3]:
                if pb == latch:
                    lv = v
            if ph[1] in probe:
                x = pe.get(lv)
                if ph[2] == "p":
                    if not isinstance(x, Ptr) or x.r is not init[ph[1]].r:
                        return None
                    x = x.off
                d = psub(x, sym_poly(probe[ph[1]])) if isinstance(x, (int, Poly)) else None
                if d is None or set(syms(d)) & pids:
                    if ph[2] == "p":
                        return None
                    cand.append((ph, lv))
                    continue
                steps[ph[1]] = d
            else:
                reds.append(ph[1])
                add = self.constant_step(pe, ph, lv)
                if add is not None:
                    adds.append((ph[1], add))
        # exit condition
        c = pe.getcond(ins[3])
        if c is None:
            return None
        pred, a, b, ty = c
        stay_when = (exit_succ_idx == 1)     # condition true -> stay
        inv = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
        if not stay_when:
            pred = inv[pred]
        if isinstance(a, Ptr):
            if not isinstance(b, Ptr) or a.r is not b.r:
                return None
            a, b = a.off, b.off
        if not isinstance(a, (int, Poly)) or not isinstance(b, (int, Poly)):
            return None
        d = psub(a, b)      # stay while  d pred 0 at iteration t
        # d as affine function of t
        t = Sym("trip")
        mp = {}
        for k, s in probe.items():
            if k not in steps:
                continue
            i0 = init[k].off if isinstance(init[k], Ptr) else init[k]
            mp[s.id] = padd(i0, pmul(steps[k], sym_poly(t)))
        d = subst(d, mp)
        if cand and set(syms(d)) & pids:
            return None
        ca = coef_of(d, t.id)
        if ca is None:
            return None
        a1, a0 = ca
        T = trip(pred, a1, a0)
        if T is None:
            return None
        body_first = exiting != hb or pos
        for ph, lv in cand:
            cf = self.closed_form(pe, ph, lv, init[ph[1]], probe, mp, t.id, T if exiting == hb else padd(T, 1))
            if cf is None:
                return None
            steps[ph[1]] = cf
        n = T if exiting == hb else padd(T, 1)
        for pid, f in adds:
            reds.remove(pid)
            steps[pid] = Closed(lambda k, z=init[pid], f=f: ring.step_sum(z, f, k, top(n)), None)
        if exiting == hb:
            return T, steps, reds, False, pe.assumed
        # rotated loop (exit test at the latch): body runs T+1 times
        return padd(T, 1), steps, reds, True, pe.assumed

    @staticmethod
    def constant_step(pe, ph, lv):
        """a double the loop changes by the same amount every time: that amount"""
        de = pe.defs.get(lv) if isinstance(lv, int) else None
        if ph[2] != "d" or de is None or de[0] not in pe.loop["set"] or de[1][0] not in ("fadd", "fsub"):
            return None
        op, a, b = de[1][0], de[1][3], de[1][4]
        if a != ph[1]:
            if op == "fsub" or b != ph[1]:
                return None
            a, b = b, a
        if isinstance(b, int):
            db = pe.defs.get(b)
            if db is not None and db[0] in pe.loop["set"]:
                return None
            v = pe.fr.env[b]
        else:
            v = pe.it.const(b)
        if not isinstance(v, ring.DVal) or has_cells_atoms(v):
            return None
        return ring.d_neg(v) if op == "fsub" else v

    def closed_form(self, pe, ph, lv, v0, probe, mp, tid, T):
        """an integer that changes by a polynomial of the iteration number, possibly wrapped into [0, M): its value at every iteration"""
        own = probe[ph[1]].id
        pids = {x.id for x in probe.values()}
        tt = Sym("t", 0, psub(T, 1))

        def gform(o):
            x = pe.get(o)
            if not isinstance(x, (int, Poly)):
                return None
            g = subst(psub(x, sym_poly(probe[ph[1]])), mp)
            return None if set(syms(g)) & pids else g

        def free(x):
            return isinstance(x, (int, Poly)) and not set(syms(x)) & pids

        M = None
        g = gform(lv)
        de = pe.defs.get(lv) if isinstance(lv, int) else None
        while g is None and de is not None and de[0] in pe.loop["set"] and de[1][0] in ("sext", "zext", "trunc"):
            de = pe.defs.get(de[1][3])
        if g is None and de is not None and de[0] in pe.loop["set"]:
            ins = de[1]
            up = False
            if ins[0] in ("srem", "urem", "and"):
                g, M = gform(ins[3]), pe.get(ins[4])
                if ins[0] == "and":
                    if not isinstance(M, int) or M < 0 or M & (M + 1):
                        return None
                    M += 1
                if not free(M):
                    return None
            elif ins[0] == "select":
                c = pe.getcond(ins[3])
                if c is None:
                    return None
                pred, a, b, _ = c
                if not isinstance(a, (int, Poly)) or not isinstance(b, (int, Poly)):
                    return None
                for swap in (False, True):
                    s, other = (ins[4], ins[5]) if swap else (ins[5], ins[4])
                    p = inverse[pred] if swap else pred
                    xs, xo = pe.get(s), pe.get(other)
                    if not isinstance(xs, (int, Poly)) or not isinstance(xo, (int, Poly)):
                        return None
                    w = psub(xo, xs)
                    if not free(w) or p in ("eq", "ne"):
                        continue
                    e = {"ge": psub(a, b), "gt": psub(psub(a, b), 1), "le": psub(b, a), "lt": psub(psub(b, a), 1)}[p[1:]]
                    if p[0] == "s" and psub(e, psub(pneg(xs), 1)) == 0:      # s < 0 ? s + M : s
                        g, M, up = gform(s), w, True
                    elif psub(e, padd(xs, w)) == 0:                         # s >= M ? s - M : s
                        g, M = gform(s), pneg(w)
                    if g is not None:
                        break
            if g is None or M is None:
                return None
            if not (ge0(psub(M, 1)) and ge0(v0) and ge0(psub(psub(M, v0), 1))):
                return None
            gt = subst(g, {tid: sym_poly(tt)})
            if up:
                gt = pneg(gt)
            if not ge0(gt) or ins[0] == "select" and not ge0(psub(M, gt)):
                return None
        if g is None:
            return None
        co = {}
        if not isinstance(g, Poly):
            co[0] = g
        else:
            for m, c in g.t.items():
                e = dict(m).get(tid, 0)
                co[e] = padd(co.get(e, 0), Poly.mk({tuple(x for x in m if x[0] != tid): c}))
        if any(e not in (0, 1, 2) for e in co):
            return None
        it = self

        def at(k):
            v = padd(v0, pmul(co.get(0, 0), k))
            k1 = psub(k, 1)
            if 1 in co:
                v = padd(v, pmul(co[1], pmul(Fraction(1, 2), pmul(k, k1))))
            if 2 in co:
                v = padd(v, pmul(co[2], pmul(Fraction(1, 6), pmul(pmul(k, k1), psub(pmul(2, k), 1)))))
            return v if M is None else it.wrapped(v, M)
        return Closed(at, de[1][1] if M is not None else None)

    @staticmethod
    def wrapped(a, M):
        """a mod M in [0, M)"""
        if is_const(a) and is_const(M):
            return a % M
        r = divmod_static(a, M)
        if r is not None:
            return r[1]
        if is_const(M) and any(sum(e for _, e in m) > 1 and c % M for m, c in a.t.items()):
            hi, lo = bounds(a)[1], bounds(a)[0]
            if lo is not None and lo < 0:
                k = -(lo // M) + 1
                a = padd(a, int(k) * M)
            return derived("mod", a, M)
        raise Split("div", a, M)

    def plan_static(self, fn, loop, phis):
        S = loop["set"]
        exits = []
        latches = []
        for b in loop["blocks"]:
            ins = fn.bbs[b][-1]
            succ = successors(ins)
            for k, s in enumerate(succ):
                if s == loop["h"]:
                    latches.append(b)
                elif s not in S:
                    if dead_end(fn, s) or ins[0] == "invoke" and s == ins[7]:
                        continue
                    exits.append((b, k))
        latches = sorted(set(latches))
        if len(latches) != 1 or len(exits) != 1:
            return False
        b, k = exits[0]
        ins = fn.bbs[b][-1]
        if ins[0] != "br" or ins[3] is None:
            return False
        if b != loop["h"] and b != latches[0]:
            return False
        # exiting block must be in this loop, not in an inner one
        return (b, k, latches[0], b != loop["h"])

    # -- one generic iteration
    def generic(self, fr, loop, prev, phis, init, T, steps, reds, body_first, assumed, ws=None):
        fn = fr.fn
        hb = loop["h"]
        loc = self.loop_loc(fn, loop)
        exiting, exit_idx = fn.cache[("plan", hb)][:2]
        br = fn.bbs[exiting][-1]
        stay = br[5] if exit_idx == 0 else br[4]
        leave = br[4] if exit_idx == 0 else br[5]
        t0 = Sym("t%d" % len(self.loopctx), 0, psub(T, 1))
        snap = self.snap()
        mark = self.eid
        cost = self.cost
        saved_env = list(fr.env)
        oldset = {r.id for r in self.regions}
        havoc = set()
        start = [((t0.id,), sym_poly(t0))]
        over0 = fr.over

        def follow(ph, k):
            c = steps[ph[1]]
            fr.env[ph[1]] = c.at(k)
            if c.instr is not None:
                fr.over = dict(fr.over or {})
                fr.over[c.instr] = c.at(padd(k, 1))

        def enter(tv, redatoms):
            self.restore(snap)
            fr.env[:] = saved_env
            fr.over = over0
            for reg, n, c, _ in snap[1]:
                for off in [o for (i, o) in havoc if i == reg.id]:
                    if reg.cells is not None and off in reg.cells:
                        reg.cells[off] = (reg.cells[off][0], UNDEF)
            for ph in phis:
                if ph[1] in steps:
                    i0 = init[ph[1]]
                    if isinstance(i0, Ptr):
                        fr.env[ph[1]] = Ptr(i0.r, padd(i0.off, pmul(steps[ph[1]], tv)))
                    elif steps[ph[1]].__class__ is Closed:
                        follow(ph, tv)
                    else:
                        fr.env[ph[1]] = padd(i0, pmul(steps[ph[1]], tv))
                else:
                    a = ("acc", fn.name, ph[1], t0.id)
                    redatoms[ph[1]] = a
                    fr.env[ph[1]] = self.acc_value(ph[2], a)

        while True:
            todo = list(start)
            results = []
            costs = []
            rounds = 0
            changed = set()
            while todo:
                binders, tv = todo.pop(0)
                self.cost = cost
                rounds += 1
                if rounds > 80:
                    raise Unsupported("too many case splits in the loop at %s" % loc)
                redatoms = {}
                nv, no = len(self.viol), {k: list(v) for k, v in self.obl.items()}
                began = self.eid
                self.loopctx.append(LoopCtx(binders, tv, loc, T))
                of = fr.force
                fr.force = dict(of) if of else {}
                fr.force[exiting] = stay
                try:
                    enter(tv, redatoms)
                    r = self.exec_unrolled_iter(fr, loop, None)
                except Split as s:
                    self.rollback(nv, no)
                    new = self.refine(binders, tv, s)
                    if new is None:
                        self.restore(snap)
                        fr.env[:] = saved_env
                        raise
                    todo = new + todo
                    continue
                finally:
                    self.loopctx.pop()
                    fr.force = of
                    fr.over = over0
                if r[0] != "back":
                    raise Unsupported("loop at %s leaves in its generic iteration" % loc)
                latch = {}
                for ph in phis:
                    if ph[1] in redatoms:
                        for v, pb in ph[3]:
                            if pb == r[1]:
                                latch[ph[1]] = self.val(fr, v)
                accs = self.log[snap[0]:]
                ents = [(reg, reg.entries[n:]) for reg, n, _, _ in snap[1] if len(reg.entries) > n]
                conv = [reg for reg, n, c, _ in snap[1] if c is not None and reg.cells is None]
                cells = []
                for reg, n, c, _ in snap[1]:
                    if reg.cells is not None and c is not None and reg.cells != c:
                        d = {}
                        for off, (s, v) in reg.cells.items():
                            o = c.get(off)
                            if o is None or o[0] != s or not same_val(o[1], v):
                                d[off] = (s, v)
                                if o is not None and not ((reg.id, off) in havoc and v is UNDEF):
                                    changed.add((reg.id, off))
                        for off in c:
                            if off not in reg.cells:
                                d[off] = (c[off][0], UNDEF)
                                changed.add((reg.id, off))
                        if d:
                            cells.append((reg, d))
                for a in accs:
                    if not a.write and a.src <= began:
                        a.src = 0
                costs.append((binders, self.cost - cost))
                results.append((binders, tv, accs, ents, cells, conv, latch, redatoms))
            if changed <= havoc:
                break
            havoc |= changed
        self.cost = cost
        if havoc & assumed:
            self.restore(snap)
            fr.env[:] = saved_env
            return self.unroll(fr, loop, prev, ws=ws)
        if reds and any(a.write and depends_acc(a.val, t0.id) for res in results for a in res[2]):
            # a value carried from iteration to iteration is stored: its closed form is needed
            new = self.rotations(fn, phis, init, reds, results, t0, T)
            self.restore(snap)
            fr.env[:] = saved_env
            if new is None:
                raise Unsupported("the loop at %s stores a value it carries from one iteration to the next" % loc)
            return self.generic(fr, loop, prev, phis, init, T, {**steps, **new}, [r for r in reds if r not in new], body_first, assumed, ws)
        self.loops_generic += 1
        # join
        self.restore(snap)
        fr.env[:] = saved_env
        for res in results:
            for reg in res[5]:
                if reg.cells is not None:
                    self.to_array(reg)
        for binders, tv, accs, ents, cells, conv, latch, redatoms in results:
            for a in accs:
                if a.region.id in oldset:
                    a.binders = binders + a.binders
                    self.log.append(a)
            for reg, es in ents:
                if reg.id in oldset:
                    reg.entries.extend(es)
            for reg, cs in cells:
                if reg.cells is None:
                    continue
                for off, (s, v) in cs.items():
                    if depends(v, binders) or len(results) > 1:
                        v = UNDEF
                    self.store_cells(reg, off, s, v)
        bad = self.independence([(res[0], [a for a in res[2] if a.region.id in oldset]) for res in results], ws is not None, T if is_const(T) else None)
        if bad and ws is not None:
            for msg, at in bad:
                self.oblige("race", False, None, at, msg)
        elif bad:
            # a serial loop may carry values from one iteration to the next: the generic iteration is not representative
            self.restore(snap)
            fr.env[:] = saved_env
            if not is_const(T) or T > 600:
                raise Unsupported("loop at %s: %s" % (loc, bad[0][0]))
            return self.unroll(fr, loop, prev)
        w = self.work(T, costs)
        self.cost = cost + w
        if not self.loopctx:
            self.hot[loc] = self.hot.get(loc, 0) + w
        if not bad:
            for reg in self.scratch:
                e = Access(self.eid, reg, 0, reg.size, True, SCRATCH, (fr.fn, -1), None, 0, None)
                reg.entries[:] = [x for x in reg.entries if x.eid <= mark] + [e]

        def final(k):
            """header phi values at iteration k (= T: after the loop, T-1: last iteration)"""
            for ph in phis:
                if ph[1] in steps:
                    i0 = init[ph[1]]
                    if isinstance(i0, Ptr):
                        fr.env[ph[1]] = Ptr(i0.r, padd(i0.off, pmul(steps[ph[1]], k)))
                    elif steps[ph[1]].__class__ is Closed:
                        try:
                            follow(ph, k)
                        except Split:
                            fr.env[ph[1]] = UNDEF
                    else:
                        fr.env[ph[1]] = padd(i0, pmul(steps[ph[1]], k))

        if not body_first:
            final(T)
            for ph in phis:
                if ph[1] not in steps:
                    fr.env[ph[1]] = self.reduce(fr, ph, init[ph[1]], results, T, loc)
            nxt = self.exec_block(fr, fn.bbs[hb], hb, None, skip_phi=True, forced=leave)
            fr.over = over0
            return leave, hb
        # rotated loop: the values after the loop are those of the last iteration; its memory effects are already accounted for
        aft = self.snap()
        keep = [(r, list(r.entries), dict(r.cells) if r.cells is not None else None) for r in self.regions]
        logkeep = list(self.log)
        viol, obl, seen = list(self.viol), {k: list(v) for k, v in self.obl.items()}, set(self.seen_viol)
        final(psub(T, 1))
        redl = {}
        for ph in phis:
            if ph[1] not in steps:
                a = ("acc", fn.name, ph[1], t0.id)
                fr.env[ph[1]] = self.acc_value(ph[2], a)
        of = fr.force
        fr.force = dict(of) if of else {}
        fr.force[exiting] = leave
        try:
            r = self.exec_unrolled_iter(fr, loop, None)
        finally:
            fr.force = of
            fr.over = over0
        if r[0] != "exit":
            raise Unsupported("rotated loop at %s does not leave" % loc)
        if any(ph[1] not in steps for ph in phis):
            for b in loop["blocks"]:
                for ins in fn.bbs[b]:
                    if ins[1] is not None and ins[1] >= 0 and depends_acc(fr.env[ins[1]]):
                        fr.env[ins[1]] = UNDEF
            for ph in phis:
                if ph[1] not in steps:
                    tot = self.reduce(fr, ph, init[ph[1]], results, T, loc)
                    fr.env[ph[1]] = UNDEF
                    for v, pb in ph[3]:
                        if pb == exiting and isinstance(v, int):
                            fr.env[v] = tot
        self.restore(aft)
        for reg, es, cs in keep:
            reg.entries[:] = es
            reg.cells = cs
        self.log[:] = logkeep
        self.viol, self.obl, self.seen_viol = viol, obl, seen
        return r[1], r[2]

    def rotations(self, fn, phis, init, reds, results, t0, T):
        """pairs of carried doubles (x, y) with x' + i y' = u (x + i y), |u| = 1, u not depending on the iteration: their closed form"""
        comp = []
        for ph in phis:
            if ph[1] in reds:
                v = vecty(ph[2])
                comp += [(ph[1], k) for k in range(v[0])] if v and v[1] == "d" else [(ph[1], 0)] if ph[2] == "d" else []
        ids = {}
        for p, k in comp:
            ids[ring.mono_id(((ring.atom_id(("acc", fn.name, p, t0.id, k)), 1),))] = (p, k)
        rows = []
        for res in results:
            row = {}
            for p, k in comp:
                v = res[6].get(p)
                v = v[k] if isinstance(v, tuple) else v
                if not isinstance(v, ring.DVal) or any(m not in ids for m in v.d):
                    row[(p, k)] = None
                    continue
                row[(p, k)] = ({ids[m]: c for m, c in v.d.items()}, v.k)
            rows.append(row)
        first = lambda p, k: init[p][k] if isinstance(init[p], tuple) else init[p]
        out = {}
        for x in comp:
            for y in comp:
                if x == y or x in out or y in out:
                    continue
                u, k = None, 0
                for row in rows:
                    if row[x] is None or row[y] is None:
                        break
                    (rx, kx), (ry, ky) = row[x], row[y]
                    k = max(k, kx, ky)
                    if not set(rx) | set(ry) <= {x, y}:
                        break
                    c, sn = rx.get(x, {}), ry.get(x, {})
                    if not ring.c_close(ry.get(y, {}), c) or not ring.c_close(rx.get(y, {}), ring.c_scale(sn, -1)):
                        break
                    w = ring.as_turn(ring.c_add(c, ring.c_scale(sn, 1j)))
                    if w is None or u is not None and psub(u, w) != 0 or depends(w, res_binders(results)):
                        break
                    u = w
                else:
                    if u is not None and all(isinstance(first(*z), ring.DVal) for z in (x, y)):
                        out[x], out[y] = (0, x, y, u, k), (1, x, y, u, k)
        if set(out) != set(comp):
            return None
        new = {}
        n = top(T)

        def value(o, t):
            which, x, y, u, k = o
            a, b = first(*x), first(*y)
            C, S = ring.DVal({0: z} if (z := ring.c_cos(pmul(u, t))) else {}), ring.DVal({0: z} if (z := ring.c_sin(pmul(u, t))) else {})
            r = ring.d_add(ring.d_mul(a, C), ring.d_mul(b, S)) if which == 0 else ring.d_add(ring.d_mul(b, C), ring.d_mul(a, S), -1)
            return ring.DVal(r.d, None, max(a.k, b.k) + k * n)
        for ph in phis:
            if ph[1] in reds:
                v = vecty(ph[2])
                if v:
                    new[ph[1]] = Closed(lambda t, p=ph[1], m=v[0]: tuple(value(out[(p, k)], t) for k in range(m)), None)
                else:
                    new[ph[1]] = Closed(lambda t, p=ph[1]: value(out[(p, 0)], t), None)
        return new

    @staticmethod
    def work(T, costs):
        """instructions of T iterations, given the instructions of one iteration of every case (upper bound)"""
        t = top(T)
        tot = 0
        for binders, c in costs:
            k = 1
            for b in binders:
                S = Sym.table[b]
                k *= max(0, top(padd(psub(S.hi, S.lo), 1))) if S.lo is not None and S.hi is not None else float("inf")
            tot += c * min(k, t)
        return min(tot, t * max(c for _, c in costs)) if costs else 0

    def rollback(self, nv, no):
        """forget the obligations of an abandoned (to be refined) case"""
        for k in self.viol[nv:]:
            self.seen_viol.discard(k)
        del self.viol[nv:]
        self.obl = no

    def acc_value(self, ty, a):
        v = vecty(ty)
        if v and v[1] == "d":
            return tuple(ring.d_atom(a + (k,)) for k in range(v[0]))
        if ty == "d":
            return ring.d_atom(a + (0,))
        return UNDEF

    def reduce(self, fr, ph, init, results, T, loc):
        """loop-carried double: latch = acc + f(t)  ->  init + sum_t f(t)"""
        pid = ph[1]

        def one(k, pick):
            tot = pick(init)
            if not isinstance(tot, ring.DVal):
                return UNDEF
            chain = 0
            for binders, tv, _, _, _, _, latch, redatoms in results:
                v = pick(latch[pid])
                if not isinstance(v, ring.DVal):
                    return UNDEF
                a = redatoms[pid] + (k,)
                f = ring.d_add(v, ring.d_atom(a), -1)
                if any(ring.atom(x)[0] == "acc" for m in f.d for x, e in ring.mono(m)):
                    return UNDEF
                tot = ring.d_add(tot, ring.d_sum(f, binders))
                chain = max(chain, v.k)
            return ring.DVal(tot.d, tot.f, pick(init).k + chain * top(T))
        v = vecty(ph[2])
        if v:
            if not isinstance(init, tuple):
                return UNDEF
            return tuple(one(k, lambda x, k=k: x[k]) for k in range(v[0]))
        if ph[2] == "d":
            return one(0, lambda x: x)
        return UNDEF

    def refine(self, binders, tv, s):
        """partition the iteration domain (binders, tv) according to the split request; None = not ours"""
        mine = [b for b in binders if b in syms(s.p)]
        if not mine:
            return None
        if s.kind == "table":
            return self.refine_table(binders, tv, s)
        b = max(mine)
        S = Sym.table[b]
        ca = coef_of(s.p, b)
        if ca is None:
            raise Unsupported("non-affine case split on %r" % (s.p,))
        a, rest = ca
        if s.kind in ("ge", "eq"):
            if not is_const(a):
                if len(mine) == 1:
                    q = exact_div(pneg(rest), a)
                    if s.kind == "eq" and q is not None:
                        return self.cut_eq(binders, tv, S, q)
                raise Unsupported("case split with symbolic slope %r" % (s.p,))
            if s.kind == "eq":
                q = exact_div(pneg(rest), a)
                if q is None:
                    if is_const(rest):
                        raise Unsupported("eq split without solution")
                    others = [x for x in mine if x != b]
                    raise Unsupported("eq split not integral: %r" % (s.p,))
                return self.cut_eq(binders, tv, S, q)
            if a > 0:
                # S >= ceil(-rest/a)
                c = self.ceil_div(pneg(rest), a)
            else:
                # S <= floor(rest/-a)  -> cut at +1
                c = self.ceil_div(padd(rest, 1), -a)
            if c is None:
                raise Unsupported("case split bound not integral: %r" % (s.p,))
            return self.cut(binders, tv, S, [(S.lo, psub(c, 1)), (c, S.hi)])
        if s.kind == "div":
            h = s.d
            # substitute S = H*p + q with a*H = multiple of h
            if is_const(a):
                if is_const(h):
                    H = h // math.gcd(h, abs(a))
                else:
                    H = exact_div(h, a)
                    if H is None:
                        H = h
            else:
                H = exact_div(h, a)
                if H is None:
                    raise Unsupported("division split of %r by %r" % (s.p, h))
            return self.cut_div(binders, tv, S, H)
        raise Unsupported("split kind %s" % s.kind)

    @staticmethod
    def ceil_div(p, a):
        if is_const(p):
            return -((-p) // a)
        q = exact_div(p, a)
        if q is not None:
            return q
        # ceil(p/a) = floor((p+a-1)/a)
        r = divmod_static(padd(p, a - 1), a)
        return r[0] if r is not None else None

    def rename(self, binders, tv, S, news, expr):
        nb = []
        for x in binders:
            if x == S.id:
                nb.extend(news)
            else:
                nb.append(x)
        mp = {S.id: expr}
        # binders whose ranges mention S must be renamed too
        for x in binders:
            X = Sym.table[x]
            if x != S.id and (S.id in syms(X.lo) or S.id in syms(X.hi)):
                Y = Sym(X.name, subst(X.lo, mp), subst(X.hi, mp))
                mp[x] = sym_poly(Y)
                nb[nb.index(x)] = Y.id
        return tuple(nb), subst(tv, mp)

    def cut(self, binders, tv, S, ranges):
        out = []
        for lo, hi in ranges:
            n = psub(hi, lo)
            hb = bounds(n)[1]
            if hb is not None and hb < 0:
                continue
            if is_const(n) and n == 0:
                out.append(self.rename(binders, tv, S, [], lo))
                continue
            N = Sym(S.name, lo, hi)
            out.append(self.rename(binders, tv, S, [N.id], sym_poly(N)))
        if not out:
            raise Unsupported("empty case split")
        return out

    def cut_eq(self, binders, tv, S, q):
        return self.cut(binders, tv, S, [(S.lo, psub(q, 1)), (q, q), (padd(q, 1), S.hi)])

    def cut_div(self, binders, tv, S, H):
        n = padd(psub(S.hi, S.lo), 1)
        if not (is_const(S.lo) and S.lo == 0):
            # shift so that the range starts at a multiple of H
            k = divmod_static(S.lo, H)
            if k is None or k[1] != 0:
                # [lo, next multiple) separately
                if is_const(S.lo) and is_const(H):
                    c = -(-S.lo // H) * H
                    return self.cut(binders, tv, S, [(S.lo, c - 1), (c, S.hi)])
                if is_const(S.lo):
                    # 0 < lo < H assumed provable
                    if ge0(psub(psub(H, S.lo), 1)):
                        return self.cut(binders, tv, S, [(S.lo, psub(H, 1)), (H, S.hi)])
                raise Unsupported("division split with range starting at %r" % (S.lo,))
            base = k[0]
        else:
            base = 0
        m = divmod_static(n, H)
        if m is None:
            raise Unsupported("division split: trip count %r not a multiple of %r" % (n, H))
        m, r = m
        out = []
        hb = bounds(m)[1]
        if hb is None or hb >= 1:
            if is_const(m) and m == 1:
                P = None
                pv = base
            else:
                P = Sym(S.name + "p", base, padd(base, psub(m, 1)))
                pv = sym_poly(P)
            if is_const(H) and H == 1:
                out.append(self.rename(binders, tv, S, [P.id] if P else [], pv))
            else:
                Q = Sym(S.name + "q", 0, psub(H, 1))
                out.append(self.rename(binders, tv, S, ([P.id] if P else []) + [Q.id], padd(pmul(pv, H), sym_poly(Q))))
        if not (is_const(r) and r == 0):
            top = padd(base, m)
            if is_const(r) and r == 1:
                out.append(self.rename(binders, tv, S, [], pmul(top, H)))
            else:
                Q = Sym(S.name + "q", 0, psub(r, 1))
                out.append(self.rename(binders, tv, S, [Q.id], padd(pmul(top, H), sym_poly(Q))))
        return out

    def refine_table(self, binders, tv, s):
        """integer table read at an index enumerated by a consecutive nested loop (u<=v): substitute the index"""
        r, size, ty = s.extra
        if len(binders) != 1:
            raise Unsupported("table index over several binders %r tv=%r p=%r" % ([(Sym.table[b],Sym.table[b].lo,Sym.table[b].hi) for b in binders],tv,s.p))
        b = binders[0]
        S = Sym.table[b]
        for e in reversed(r.entries):
            if len(e.binders) != 2 or e.size != size:
                continue
            # off_e(u,v) = base + c*idx(u,v);   s.p = base' + c*S
            u, v = (Sym.table[x] for x in e.binders)
            if u.id in syms(v.lo) or u.id in syms(v.hi) or True:
                pass
            ca = coef_of(s.p, b)
            if ca is None:
                continue
            c, rest = ca
            if not is_const(c) or c == 0:
                continue
            d = psub(e.off, rest)
            idx = exact_div(d, c)
            if idx is None:
                continue
            # lexicographic consecutive enumeration: idx(u,v+1)=idx+1 ; idx(u+1, lo(u+1)) = idx(u, hi(u))+1 ; ends match
            U, V = sym_poly(u), sym_poly(v)
            if psub(subst(idx, {v.id: padd(V, 1)}), idx) != 1:
                continue
            lo1 = subst(v.lo, {u.id: padd(U, 1)})
            nxt = subst(subst(idx, {u.id: padd(U, 1)}), {v.id: lo1})
            last = subst(idx, {v.id: v.hi})
            if psub(nxt, last) != 1:
                continue
            first = subst(idx, {v.id: v.lo})
            first = subst(first, {u.id: u.lo})
            end = subst(last, {u.id: u.hi})
            if psub(first, S.lo) != 0 or psub(end, S.hi) != 0:
                # the loop covers a different index range than the table
                continue
            u2 = Sym(u.name, u.lo, u.hi)
            v2 = Sym(v.name, subst(v.lo, {u.id: sym_poly(u2)}), subst(v.hi, {u.id: sym_poly(u2)}))
            expr = subst(idx, {u.id: sym_poly(u2), v.id: sym_poly(v2)})
            nb, ntv = self.rename(binders, tv, S, [u2.id, v2.id], expr)
            return [(nb, ntv)]
        raise Unsupported("integer table read at %r cannot be resolved" % (s.p,))

    # ------------------------------------------------------------ independence of iterations
    def independence(self, cases, shared=False, fits=None):
        """iterations of the loop touch disjoint memory whenever one of them writes"""
        byreg = {}
        allbad = []
        self.scratch = []
        for ci, (binders, accs) in enumerate(cases):
            for a in accs:
                d = byreg.setdefault(a.region.id, ([], []))
                d[0 if a.write else 1].append((ci, a))
        for rid, (ws, rs) in byreg.items():
            if not ws:
                continue
            if ws[0][1].region.cells is not None:
                w = ws[0][1]
                if shared and w.region.par is not self.par:
                    bad.append(("every iteration of the parallel loop writes the same variable %s shared by the threads (%s)" % (
                        w.region.name, self.accloc(w)), self.accloc(w).split("[")[0]))
                # scalar object cell written in every iteration: handled by value (kept only if iteration independent)
                continue
            memo = {}
            bad = []

            def key(a):
                k = getattr(a, "nc", None)
                o = a.off
                if isinstance(o, Poly):
                    c = o.t.get((), 0)
                    return psub(o, c).key() if c else o.key(), c
                return (), o
            kw = [(ci, a) + key(a) for ci, a in ws]
            kr = [(ci, a) + key(a) for ci, a in rs]
            n = nok = 0
            for i, (ci, w, wk, wc) in enumerate(kw):
                for j, (cj, a, ak, ac) in enumerate(kw[i:] + kr):
                    k = (ci, cj, wk, ak, wc - ac, w.size, a.size)
                    n += 1
                    ok = memo.get(k)
                    if ok is None:
                        ok = memo[k] = disjoint_iterations(w, cases[ci][0], a, cases[cj][0], ci == cj)
                        if not ok:
                            bad.append(("iterations of the loop may touch the same element of %s: write at %s and %s at %s" % (
                                w.region.name, self.accloc(w), "write" if a.write else "read", self.accloc(a)), self.accloc(w).split("[")[0]))
                    if ok:
                        nok += 1
            c = self.obl.setdefault("indep", [0, 0])
            c[0] += nok
            c[1] += nok
            reg = ws[0][1].region
            if bad and (shared or fits is None or fits > 64) and (not shared or reg.par is not None and reg.par is self.par) and reg.kind in ("alloca", "heap", "new") and all(a.src for _, a in rs):
                # scratch: every iteration reads only what it has stored itself; what is left there afterwards is not tracked
                self.scratch.append(reg)
                c[0] += 1
                c[1] += 1
                bad = []
            allbad += bad
        return allbad

    def iteration_races(self, its, loc):
        """an unrolled worksharing loop: different iterations may run on different threads"""
        par = self.par
        for i in range(len(its)):
            for j in range(i + 1, len(its)):
                bad = None
                for a in its[i]:
                    for b in its[j]:
                        if (a.write or b.write) and a.region is b.region and a.region.par is not par and not (a.lock is not None and a.lock == b.lock) and not ranges_apart(a, b):
                            bad = (a, b)
                            break
                    if bad:
                        break
                self.oblige("race", bad is None, None, loc, lambda: "two iterations of the parallel loop may touch the same element of %s: %s and %s" % (
                    bad[0].region.name, self.accloc(bad[0]), self.accloc(bad[1])))

    @staticmethod
    def accloc(a):
        fn, li = a.loc
        return "%s[%r]" % (loc_site(fn.loc(li)), a.off)

    # ------------------------------------------------------------ calls
    def do_call(self, fr, ins):
        callee = ins[3]
        li = ins[5]
        if isinstance(callee, str):
            name = callee
        else:
            c = self.val(fr, callee)
            if not isinstance(c, FnPtr):
                if isinstance(c, Ptr) and c.r is None or c is UNDEF:
                    self.oblige("null", False, fr, li, "call through a null/undefined function pointer")
                    raise Violation("null", "call through a null function pointer", self.here(fr, li))
                raise Unsupported("indirect call through %r" % (c,))
            name = c.name
        h = INTRIN.get(name)
        if h is not None:
            return h(self, fr, [self.val(fr, a) for a in ins[4]], ins)
        if name.startswith("asm:|"):                 # empty assembly: a compiler barrier, values pass through
            outs = [c for c in name[5:].split(",") if c.startswith("=") and not c.startswith("=*")]
            args = [self.val(fr, a) for a in ins[4]]
            if not outs:
                return None
            if len(outs) == 1 and len(args) == 1:
                return args[0]
        if name.startswith("llvm."):
            return self.intrinsic(fr, name, [self.val(fr, a) for a in ins[4]], ins)
        args = [self.val(fr, a) for a in ins[4]]
        ih = self.intercept.get(name)
        if ih is not None:
            return ih(self, args, self.here(fr, li), fr)
        if self.prog.has(name):
            return self.run_function(self.prog.get(name), args)
        return self.external(name, args, self.here(fr, li), fr, ins)

    def intrinsic(self, fr, name, args, ins):
        li = ins[5]
        if name.startswith("llvm.memset"):
            p, v, n = args[0], args[1], args[2]
            if v != 0:
                raise Unsupported("memset with non-zero byte")
            return self.memset0(fr, p, n, li)
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            return self.memcpy(fr, args[0], args[1], args[2], li)
        if name.startswith("llvm.lifetime") or name.startswith("llvm.dbg") or name.startswith("llvm.experimental.noalias") or name.startswith("llvm.invariant"):
            return None
        if name.startswith("llvm.sqrt"):
            return x_sqrt(self, fr, args, ins)
        if name.startswith(("llvm.sin.", "llvm.cos.")):
            return _trig(name[5:8], name.endswith("f32"))(self, fr, args, ins)
        if name.startswith("llvm.smax") or name.startswith("llvm.umax"):
            return args[0] if self.decide(Cond("ge", psub(args[0], args[1]))) else args[1]
        if name.startswith("llvm.smin") or name.startswith("llvm.umin"):
            return args[1] if self.decide(Cond("ge", psub(args[0], args[1]))) else args[0]
        if name.startswith("llvm.ctpop") and isinstance(args[0], int):
            return bin(args[0] & (2 ** 64 - 1)).count("1")
        if name.startswith("llvm.ctlz") and isinstance(args[0], int):
            w = int(name.rsplit("i", 1)[1])
            return w - (args[0] & ((1 << w) - 1)).bit_length()
        if name.startswith("llvm.cttz") and isinstance(args[0], int) and args[0]:
            x = args[0]
            return (x & -x).bit_length() - 1
        if name.startswith("llvm.fmuladd") or name.startswith("llvm.fma"):
            return vmap2(ring.d_add, vmap2(ring.d_mul, args[0], args[1]), args[2])
        if name.startswith("llvm.eh.typeid"):
            return 1
        if name.startswith("llvm.expect"):
            return args[0]
        if name.startswith(("llvm.assume", "llvm.prefetch", "llvm.sideeffect", "llvm.donothing")):
            return None
        if name.startswith("llvm.is.constant"):
            return 0
        if name.startswith("llvm.objectsize"):
            return -1
        if name.startswith("llvm.abs") and isinstance(args[0], (int, Poly)):
            return args[0] if self.decide(Cond("ge", args[0])) else pneg(args[0])
        raise Unsupported("intrinsic " + name)

    def memset0(self, fr, p, n, li):
        r = p.r
        if r is not None and r.cells is not None and is_const(p.off) and is_const(n):
            self.check_bounds(fr, p, n, 1, li, "memset")
            o = 0
            while o < n:
                s = min(8, n - o)
                self.store_cells(r, p.off + o, s, 0)
                o += s
            return None
        # array: zero doubles
        cnt = exact_div(n, 8)
        if cnt is None:
            raise Unsupported("memset of %r bytes" % (n,))
        self.cost += top(cnt)
        if is_const(cnt) and cnt <= 8:
            for k in range(cnt):
                self.store(fr, Ptr(r, padd(p.off, 8 * k)), ring.d_const(0.0), "d", 8, 8, li)
            return None
        t = Sym("z", 0, psub(cnt, 1))
        self.store(fr, Ptr(r, padd(p.off, pmul(sym_poly(t), 8))), ring.d_const(0.0), "d", 8, 8, li)
        a = self.log[-1]
        a.binders = (t.id,)
        return None

    def memcpy(self, fr, d, s, n, li):
        if d.r is not None and s.r is not None and d.r.cells is not None and s.r.cells is not None and is_const(n) and is_const(d.off) and is_const(s.off):
            self.check_bounds(fr, d, n, 1, li, "memcpy write")
            self.check_bounds(fr, s, n, 1, li, "memcpy read")
            out = []
            for o, (sz, v) in sorted(s.r.cells.items()):
                if s.off <= o and o + sz <= s.off + n:
                    out.append((o - s.off, sz, v))
            for o, sz, v in out:
                self.store_cells(d.r, d.off + o, sz, v)
            return None
        cnt = exact_div(n, 8)
        if cnt is None:
            raise Unsupported("memcpy of %r bytes" % (n,))
        self.cost += top(cnt)
        if is_const(cnt) and cnt <= 64:
            vals = [self.load(fr, Ptr(s.r, padd(s.off, 8 * k)), "d", 8, 8, li) for k in range(cnt)]
            for k in range(cnt):
                self.store(fr, Ptr(d.r, padd(d.off, 8 * k)), vals[k], "d", 8, 8, li)
            return None
        t = Sym("c", 0, psub(cnt, 1))
        T = sym_poly(t)
        v = self.load(fr, Ptr(s.r, padd(s.off, pmul(T, 8))), "d", 8, 8, li)
        ra = self.log[-1]
        self.store(fr, Ptr(d.r, padd(d.off, pmul(T, 8))), v, "d", 8, 8, li)
        wa = self.log[-1]
        wa.binders = (t.id,)
        if ra is not wa and not ra.write:
            ra.binders = (t.id,)
        return None

    def external(self, name, args, loc, fr, ins=None):
        raise Unsupported("call of external function %s at %s" % (name, loc))

    # ------------------------------------------------------------ OpenMP
    def omp_fork(self, fr, args, ins):
        fnp = args[2]
        loc = self.here(fr, ins[5])
        outer = self.par
        if outer is not None and (outer.team is not None and not outer.serial):
            raise Unsupported("nested parallel region at %s" % loc)
        par = Par(loc)
        pushed, self.pushed = self.pushed, None
        par.key = ("team", pushed if pushed is None or isinstance(pushed, int) else repr(pushed))
        par.request = pushed
        par.fn = fnp.name
        if self.env is not None and ("team region", par.fn) in self.env and par.key in self.env:
            par.team = self.env[par.key]
            self.threads_matter = True
            if ("the number of threads of a parallel region", par.team) not in self.asked:
                self.asked.append(("the number of threads of a parallel region", par.team))
        if outer is not None and par.team is not None:
            raise Unsupported("nested parallel region at %s" % loc)
        par.nested = outer is not None
        state = (outer.phase, outer.cons) if outer is not None else None
        mark, made = len(self.log), len(self.regions)
        try:
            if par.team is None:
                self.par = par
                g = self.new_region("gtid", 4, "alloca")
                g.cells[0] = (4, 0)
                self.call(fnp.name, [Ptr(g, 0), Ptr(g, 0)] + args[3:], loc, fr)
            else:
                self.par = par
                Team(self, par, fnp, args[3:], loc, fr).run()
        except Thrown as e:
            raise Violation("terminate", "the exception thrown at %s leaves a parallel region" % e.loc, e.loc)
        finally:
            if self.par is par:
                self.par = outer
        self.check_races(par, self.log[mark:])
        self.hand_over(outer, par, mark, made, state)
        return None

    def hand_over(self, outer, par, mark, made, state):
        """the accesses of a finished region are, for the region around it, accesses of the construct that encountered it"""
        for a in self.log[mark:]:
            a.par = outer
            if outer is not None and a.region.par is not par:
                a.phase, a.cons = state
                a.lock = outer.lock
        if outer is not None:
            for r in self.regions[made:]:
                if r.par is par:
                    r.par = outer

    def team_size(self, what):
        """the code of a parallel region looks at thread numbers: repeat the analysis with concrete teams"""
        par = self.par
        if par is not None and par.team is None and not par.serial:
            if par.nested:
                raise Unsupported("%s in a nested parallel region" % what)
            n = par.request
            if n is None:
                n = self.env.get(("max_threads",)) if self.env else None
            opts = (1, 2, 3, 257) if not isinstance(n, int) else tuple(sorted({1, max(1, n // 2), max(1, n)}))
            self.choose(par.key, opts, "the number of threads of a parallel region")
            if ("team region", par.fn) not in self.env:
                raise NeedChoice(("team region", par.fn), (1,), what)
            raise Unsupported("%s in a parallel region" % what)

    def omp_serial(self, fr, args, ins, begin):
        """parallel region whose if clause is false: executed by a team of one thread"""
        if begin:
            outer = self.par
            if outer is not None and outer.team is not None and not outer.serial:
                raise Unsupported("nested parallel region at %s" % self.here(fr, ins[5]))
            self.par = Par(self.here(fr, ins[5]))
            self.par.serial = True
            self.par.team = 1
            self.par.cons = Construct("thread", self.par.loc)
            self.par.mark = len(self.log), len(self.regions), (outer.phase, outer.cons) if outer is not None else None, outer
        elif self.par is not None:
            par = self.par
            mark, made, state, outer = par.mark
            self.par = outer
            self.hand_over(outer, par, mark, made, state)
        return None

    def omp_push(self, fr, args, ins):
        self.pushed = args[2]
        return None

    def omp_query(self, fr, args, ins, name):
        par = self.par
        if name == "omp_get_thread_num":
            if par is not None:
                self.team_size(name)
                return par.tid
            self.threads_matter = True
            return self.choose(("thread_num",), (0, 3), "the number of the calling thread")
        if name == "omp_get_num_threads":
            if par is not None:
                self.team_size(name)
                return par.team
            self.threads_matter = True
            return self.choose(("num_threads",), (1, 5), "the size of the caller's team")
        if name in ("omp_get_max_threads", "omp_get_num_procs", "omp_get_thread_limit"):
            self.threads_matter = True
            return self.choose(("max_threads",) if name != "omp_get_num_procs" else ("procs",), (1, 2, 3, 257), name + "()")
        if name == "_ZNSt6thread20hardware_concurrencyEv":
            self.threads_matter = True
            return self.choose(("hw",), (0, 1, 3, 257), "std::thread::hardware_concurrency()")
        if name == "omp_in_parallel":
            self.threads_matter = True
            if par is not None and not par.serial:
                self.team_size(name)
                if par.team > 1:
                    return 1
            return self.choose(("in_parallel",), (0, 1), "omp_in_parallel()")
        if name in ("omp_get_level", "omp_get_active_level"):
            self.threads_matter = True
            return self.choose((name,), (0, 1), name + "()") + (1 if par is not None else 0)
        if name in ("omp_get_dynamic", "omp_get_nested", "omp_get_cancellation"):
            self.threads_matter = True
            return self.choose((name,), (0, 1), name + "()")
        if name in ("omp_get_max_active_levels", "omp_get_supported_active_levels"):
            self.threads_matter = True
            return self.choose((name,), (1, 2147483647), name + "()")
        raise Unsupported(name)

    def tls_region(self, p):
        """a thread's own copy of a thread-local variable"""
        if self.par is None:
            return p
        self.team_size("thread-local storage")
        t = self.par.tid
        if t == 0 or self.par.serial:
            return p
        r = self.tls.get((t, p.r.name))
        if r is None:
            g = p.r
            r = self.new_region(g.name, g.size, g.kind, g.align)
            gl = getattr(g, "gl", None)
            if gl:
                for off, size, ty, c in gl["init"]:
                    r.cells[off] = (size, self.const(c, ty))
            self.tls[(t, g.name)] = r
        return Ptr(r, p.off)

    def in_cons(self):
        par = self.par
        return par.ws if par.team is not None else par.cons

    def omp_static_init(self, fr, args, ins):
        # (loc, gtid, sched, plast, plower, pupper, pstride, incr, chunk): bounds already hold the full range
        loc = self.here(fr, ins[5])
        c = Construct("for", loc)
        sched = args[2] & 0xffff if isinstance(args[2], int) else 34
        w = 8 if ins[3].endswith(("8", "8u")) else 4
        ty = "i%d" % (8 * w)
        get = lambda p: self.load_cells(fr, p.r, p.off, ty, w, ins[5])
        if sched == 33:
            # chunked: one chunk covering everything, then past the end
            lo, up = get(args[4]), get(args[5])
            if not all(isinstance(v, (int, Poly)) for v in (lo, up)):
                raise Unsupported("bounds of the parallel loop at %s" % loc)
            if self.par is None or self.par.team is None or self.par.serial:
                self.store_cells(args[6].r, args[6].off, w, padd(psub(up, lo), 1))
        if self.par is None:
            self.omp_orphans.append((loc, "for", [f.dem for f in self.fnstack[-6:]]))
        else:
            if self.in_cons() is not None:
                self.oblige("ompnest", False, fr, ins[5], "worksharing construct nested inside %s" % self.in_cons())
            self.par.constructs.append(c)
            if self.par.team is None:
                self.par.cons = c
                c.depth, c.fn, c.loop = len(self.loopctx), fr.fn, None
                c.skip = int(sched == 33)           # the loop over the chunks comes first
            else:
                self.par.ws = c
                if not self.par.serial:
                    lo, up = get(args[4]), get(args[5])
                    if not (isinstance(lo, int) and isinstance(up, int)) or args[7] != 1:
                        raise Unsupported("the distribution of the parallel loop at %s over concrete threads" % loc)
                    T, t, n = self.par.team, self.par.tid, max(0, up - lo + 1)
                    if sched == 33:
                        ch = args[8] if isinstance(args[8], int) and args[8] > 0 else 1
                        self.store_cells(args[4].r, args[4].off, w, lo + t * ch)
                        self.store_cells(args[5].r, args[5].off, w, lo + t * ch + ch - 1)
                        self.store_cells(args[6].r, args[6].off, w, T * ch)
                    else:
                        q, r = divmod(n, T)
                        a = lo + t * q + min(t, r)
                        self.store_cells(args[4].r, args[4].off, w, a)
                        self.store_cells(args[5].r, args[5].off, w, a + q + (1 if t < r else 0) - 1)
                        self.store_cells(args[3].r, args[3].off, 4, int(a + q + (1 if t < r else 0) - 1 == up and n > 0))
        if self.par is None or self.par.team is None or self.par.serial:
            if isinstance(args[3], Ptr) and args[3].r is not None:
                self.store_cells(args[3].r, args[3].off, 4, 1)
        self.obl.setdefault("ompfor", [0, 0])
        self.obl["ompfor"][0] += 1
        self.obl["ompfor"][1] += 1
        return None

    def omp_static_fini(self, fr, args, ins):
        if self.par is not None:
            self.par.ws = None
            if self.par.team is None:
                self.par.cons = None
        return None

    def omp_dispatch_init(self, fr, args, ins):
        # (loc, gtid, schedule, lb, ub, st, chunk)
        loc = self.here(fr, ins[5])
        lo, up, st, ch = args[3:7]
        if self.par is not None and self.in_cons() is not None:
            self.oblige("ompnest", False, fr, ins[5], "worksharing construct nested inside %s" % self.in_cons())
        d = {"lo": lo, "up": up, "st": st, "loc": loc, "done": False, "fn": fr.fn}
        if self.par is None:
            self.omp_orphans.append((loc, "for", [f.dem for f in self.fnstack[-6:]]))
            self.__dict__.setdefault("sched0", []).append(d)
        else:
            if self.par.team is not None and not self.par.serial:
                if st != 1 or not (isinstance(lo, int) and isinstance(up, int)):
                    raise Unsupported("the distribution of the parallel loop at %s over concrete threads" % loc)
                # any thread may get any chunk: one of the possible distributions
                T, t = self.par.team, self.par.tid
                c = max(1, ch if isinstance(ch, int) else 1, -(-(up - lo + 1) // (4 * T)))
                d["chunks"] = [(x, min(up, x + c - 1)) for x in range(lo + t * c, up + 1, T * c)]
                self.par.ws = Construct("for", loc)
            self.par.sched = d
        self.obl.setdefault("ompfor", [0, 0])
        self.obl["ompfor"][0] += 1
        self.obl["ompfor"][1] += 1
        return None

    def omp_dispatch_next(self, fr, args, ins):
        # (loc, gtid, plast, plower, pupper, pstride) -> 1 while there is a chunk
        w = 8 if ins[3].endswith(("8", "8u")) else 4
        par = self.par
        d = par.sched if par is not None else self.sched0[-1]
        if d is None:
            raise Unsupported("dispatch of a loop that was not initialised")
        if "chunks" in d:
            ch = d["chunks"].pop(0) if d["chunks"] else None
            last = ch is not None and ch[1] == d["up"]
        else:
            ch = None if d["done"] else (d["lo"], d["up"])
            d["done"] = True
            last = True
            if ch is not None and (ch[0] if isinstance(ch[0], int) and isinstance(ch[1], int) else 0) > (ch[1] if isinstance(ch[0], int) and isinstance(ch[1], int) else 0):
                ch = None
            if ch is not None and par is not None and par.team is None:
                c = Construct("for", d["loc"])
                par.cons = c
                par.constructs.append(c)
                c.depth, c.fn, c.loop = len(self.loopctx), d["fn"], None
        if ch is None:
            if par is None:
                self.sched0.pop()
            else:
                par.sched = None
                par.ws = None
                if par.team is None:
                    par.cons = None
            return 0
        self.store_cells(args[3].r, args[3].off, w, ch[0])
        self.store_cells(args[4].r, args[4].off, w, ch[1])
        self.store_cells(args[5].r, args[5].off, w, d["st"])
        if isinstance(args[2], Ptr) and args[2].r is not None:
            self.store_cells(args[2].r, args[2].off, 4, int(last))
        return 1

    def omp_barrier(self, fr, args, ins):
        if self.par is None:
            self.omp_orphans.append((self.here(fr, ins[5]), "barrier", [f.dem for f in self.fnstack[-6:]]))
        else:
            if self.in_cons() is not None:
                self.oblige("ompnest", False, fr, ins[5], "barrier inside %s" % self.in_cons())
            if self.par.lock is not None:
                self.oblige("ompnest", False, fr, ins[5], "barrier inside a critical section")
            if self.par.team is not None:
                if not self.par.serial:
                    self.team.barrier(self.here(fr, ins[5]))
            else:
                self.par.phase += 1
        return None

    def omp_single(self, fr, args, ins):
        loc = self.here(fr, ins[5])
        if self.par is None:
            self.omp_orphans.append((loc, "single", [f.dem for f in self.fnstack[-6:]]))
        else:
            if self.in_cons() is not None:
                self.oblige("ompnest", False, fr, ins[5], "single nested inside %s" % self.in_cons())
            c = Construct("single", loc)
            if self.par.team is not None:
                if self.par.tid:
                    return 0
                self.par.ws = c
                self.par.own, self.par.cons = self.par.cons, c
            else:
                self.par.cons = c
            self.par.constructs.append(c)
        return 1

    def omp_end_single(self, fr, args, ins):
        if self.par is not None:
            if self.par.team is not None:
                self.par.cons, self.par.ws = self.par.own, None
            else:
                self.par.cons = None
        return None

    def omp_master(self, fr, args, ins):
        """executed by the first thread only, without a barrier"""
        par = self.par
        if par is None:
            self.omp_orphans.append((self.here(fr, ins[5]), "master", [f.dem for f in self.fnstack[-6:]]))
            return 1
        if ins[3] == "__kmpc_masked" and args[2] != 0:
            self.team_size("masked construct with a filter")
            return int(par.tid == args[2])
        if par.team is not None:
            return int(par.tid == 0)
        if par.cons is not None:
            self.team_size("master construct inside %s" % par.cons)
        if par.master is None:
            par.master = Construct("master", par.loc)
            par.constructs.append(par.master)
        par.cons = par.master
        return 1

    def omp_end_master(self, fr, args, ins):
        if self.par is not None and self.par.team is None:
            self.par.cons = None
        return None

    def omp_critical(self, fr, args, ins):
        """executed by every thread that comes along, one at a time"""
        par = self.par
        if par is not None:
            if par.team is None and par.cons is None:
                self.team_size("critical section executed by every thread")
            if par.lock is not None:
                self.oblige("ompnest", par.lock != repr(args[2]), fr, ins[5], "critical section entered again by its holder")
                raise Unsupported("nested critical sections")
            par.lock = repr(args[2])
        return None

    def omp_end_critical(self, fr, args, ins):
        if self.par is not None:
            self.par.lock = None
        return None

    def check_races(self, par, accs):
        """same barrier phase, two different constructs (or the redundant part): no write/any overlap"""
        byreg = {}
        for a in accs:
            if a.par is not par or a.region.par is par:
                continue
            byreg.setdefault(a.region, []).append(a)
        for reg, al in byreg.items():
            if not any(a.write for a in al):
                continue
            byphase = {}
            for a in al:
                byphase.setdefault(a.phase, []).append(a)
            for ph, xs in byphase.items():
                ws = [a for a in xs if a.write]
                if not ws:
                    continue
                # writes executed by every thread
                for w in ws:
                    self.oblige("race", w.cons is not None, None, self.accloc(w).split("[")[0],
                                lambda: "store to shared %s is executed by every thread of the parallel region (no worksharing construct, no single)" % reg.name)
                cons = {}
                for a in xs:
                    cons.setdefault(a.cons, []).append(a)
                if len(cons) < 2:
                    c = self.obl.setdefault("race", [0, 0])
                    c[0] += 1
                    c[1] += 1
                    continue
                ks = list(cons)
                base = len(self.viol)
                for i in range(len(ks)):
                    if len(self.viol) > base + 30:
                        break
                    for j in range(len(ks)):
                        if i == j:
                            continue
                        for w in cons[ks[i]]:
                            if not w.write:
                                continue
                            for a in cons[ks[j]]:
                                if a.write and j < i:
                                    continue
                                ok = w.lock is not None and w.lock == a.lock or ranges_apart(w, a)
                                self.oblige("race", ok, None, self.accloc(a).split("[")[0],
                                            lambda: "no barrier between %s (write %s) and %s (%s %s): both may touch the same element of %s" % (
                                                ks[i], self.accloc(w), ks[j], "write" if a.write else "read", self.accloc(a), reg.name))


class Team:
    """a parallel region whose code depends on thread numbers, executed by a team of known size: every thread's code is interpreted in turn
    up to its next barrier"""

    def __init__(self, it, par, fnp, args, loc, fr):
        self.it, self.par, self.fnp, self.args, self.loc, self.fr = it, par, fnp, args, loc, fr
        self.depth = len(it.loopctx)
        self.turn = None
        self.cv = threading.Condition()
        self.state = ["new"] * par.team
        self.err = None
        self.saved = [None] * par.team

    def run(self):
        it, par = self.it, self.par
        it.team = self
        base = (list(it.fnstack), list(it.loopctx))
        old = threading.stack_size(512 << 20)
        ths = []
        try:
            for t in range(par.team):
                self.saved[t] = (list(base[0]), list(base[1]), Construct("thread %d" % t, self.loc), None, None, None, None)
                th = threading.Thread(target=self.body, args=(t,), daemon=True)
                ths.append(th)
            while True:
                ran = 0
                for t in range(par.team):
                    if self.state[t] == "done":
                        continue
                    ran += 1
                    self.enter(t)
                    with self.cv:
                        self.turn = t
                        if self.state[t] == "new":
                            ths[t].start()
                        self.cv.notify_all()
                        self.cv.wait_for(lambda: self.turn is None)
                    self.leave(t)
                    if self.err is not None:
                        raise self.err
                if not ran:
                    break
                at = {s for s in self.state}
                if "done" in at and len(at) > 1:
                    raise Violation("ompnest", "a barrier (%s) is not reached by every thread of the team" % ", ".join(sorted(x for x in at if x != "done")), self.loc)
                par.phase += 1
        finally:
            threading.stack_size(old)
            with self.cv:
                self.turn = "stop"
                self.cv.notify_all()
            it.fnstack[:], it.loopctx[:] = base
            it.team = None
            par.cons = par.ws = par.sched = par.lock = None

    def enter(self, t):
        it, par = self.it, self.par
        it.fnstack[:], it.loopctx[:] = self.saved[t][:2]
        par.cons, par.ws, par.sched, par.lock, par.own = self.saved[t][2:]
        par.tid = t

    def leave(self, t):
        it, par = self.it, self.par
        self.saved[t] = (list(it.fnstack), list(it.loopctx), par.cons, par.ws, par.sched, par.lock, getattr(par, "own", None))

    def body(self, t):
        it = self.it
        try:
            g = it.new_region("gtid", 4, "alloca")
            g.cells[0] = (4, t)
            self.state[t] = "running"
            it.call(self.fnp.name, [Ptr(g, 0), Ptr(g, 0)] + self.args, self.loc, self.fr)
        except BaseException as e:
            if not isinstance(e, Stopped):
                self.err = e
        self.state[t] = "done"
        with self.cv:
            if self.turn == t:
                self.turn = None
            self.cv.notify_all()

    def barrier(self, loc):
        it = self.it
        if len(it.loopctx) > self.depth:
            raise Unsupported("barrier inside a loop that depends on thread numbers")
        t = self.par.tid
        self.state[t] = "at " + loc
        with self.cv:
            self.turn = None
            self.cv.notify_all()
            self.cv.wait_for(lambda: self.turn == t or self.turn == "stop")
            if self.turn == "stop":
                raise Stopped()
        self.state[t] = "running"


class Stopped(BaseException):
    pass


# ---------------------------------------------------------------- helpers
def successors(ins):
    op = ins[0]
    if op == "br":
        return [ins[4]] if ins[3] is None else [ins[4], ins[5]]
    if op == "switch":
        return [ins[4]] + [bb for _, bb in ins[5]]
    if op == "invoke":
        return [ins[6], ins[7]]
    return []


def top(p):
    """the largest value of p, infinity when unknown"""
    h = hull(p)[1]
    if h is None:
        h = bounds(p)[1]
    return float("inf") if h is None else h


def dead_end(fn, b, seen=None):
    """block from which every path ends in unreachable/resume"""
    key = ("dead", b)
    r = fn.cache.get(key)
    if r is not None:
        return r
    seen = seen or set()
    if b in seen:
        return True
    seen.add(b)
    ins = fn.bbs[b][-1]
    if ins[0] in ("unreachable", "resume"):
        r = True
    elif ins[0] == "ret":
        r = False
    else:
        r = all(dead_end(fn, s, seen) for s in successors(ins))
    if len(seen) == 1 or r is False:
        fn.cache[key] = r
    return r


def trip(pred, a1, a0):
    """number of iterations the loop body runs while (a0 + a1*t) pred 0, t=0,1,..; None if not expressible"""
    if not is_const(a1):
        return None
    if a1 == 0:
        return None
    if pred[0] in "su" and pred not in ("slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"):
        return None
    if pred == "ne":
        if is_const(a0):
            q, r = divmod(-a0, a1)
            return q if r == 0 and q >= 0 else None
        q = exact_div(pneg(a0), a1)
        return q
    if pred == "eq":
        return None
    p = pred[1:]
    if p in ("gt", "ge"):
        a0, a1 = pneg(a0), -a1
        p = "lt" if p == "gt" else "le"
    if p == "le":
        a0 = psub(a0, 1)
    # a0 + a1 t < 0
    if a1 < 0:
        return None if not (is_const(a0) and a0 >= 0) else 0
    if is_const(a0):
        return max(0, -(a0 // a1))
    q = Interp.ceil_div(pneg(a0), a1)
    return q


class PureEval:
    """evaluates side-effect free integer/pointer SSA expressions under a substitution of header phis"""

    def __init__(self, it, fr, loop, vals):
        self.it = it
        self.fr = fr
        self.loop = loop
        self.vals = vals
        d = fr.fn.cache.get("defs")
        if d is None:
            d = {}
            for bi, b in enumerate(fr.fn.bbs):
                for ins in b:
                    if ins[1] is not None and ins[1] >= 0:
                        d[ins[1]] = (bi, ins)
            fr.fn.cache["defs"] = d
        self.defs = d
        self.memo = {}
        self.assumed = set()

    def get(self, o):
        if not isinstance(o, int):
            return self.it.const(o)
        if o in self.vals:
            return self.vals[o]
        if o in self.memo:
            return self.memo[o]
        de = self.defs.get(o)
        if de is None or de[0] not in self.loop["set"]:
            return self.fr.env[o]
        bi, ins = de
        op = ins[0]
        r = None
        try:
            if op in ("add", "sub", "mul"):
                a, b = self.get(ins[3]), self.get(ins[4])
                if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
                    r = padd(a, b) if op == "add" else psub(a, b) if op == "sub" else pmul(a, b)
                elif (isinstance(a, Ptr) or isinstance(b, Ptr)) and op != "mul":
                    r = ptr_arith(op, a, b)
            elif op in ("ptrtoint", "inttoptr"):
                r = self.get(ins[3])
            elif op == "shl":
                a, b = self.get(ins[3]), self.get(ins[4])
                if isinstance(b, int) and isinstance(a, (int, Poly)):
                    r = pmul(a, 1 << b)
            elif op in ("sext", "zext", "trunc"):
                r = self.get(ins[3])
                if not isinstance(r, (int, Poly)):
                    r = None
            elif op == "or":
                a, b = self.get(ins[3]), self.get(ins[4])
                if isinstance(a, int) and isinstance(b, int):
                    r = a | b
            elif op == "getelementptr":
                b = self.get(ins[3])
                if isinstance(b, Ptr):
                    off = padd(b.off, ins[4])
                    for v, s in ins[5]:
                        x = self.get(v)
                        if not isinstance(x, (int, Poly)):
                            return None
                        off = padd(off, pmul(x, s))
                    r = Ptr(b.r, off)
            elif op in ("sdiv", "udiv"):
                a, b = self.get(ins[3]), self.get(ins[4])
                if isinstance(a, int) and isinstance(b, int) and b:
                    r = int(Fraction(a, b)) if a * b >= 0 else -(abs(a) // abs(b))
            elif op == "load":
                # scalar cell: assumed loop invariant here, confirmed by the generic iteration
                p = self.get(ins[3])
                if isinstance(p, Ptr) and p.r is not None and p.r.cells is not None and is_const(p.off):
                    c = p.r.cells.get(p.off)
                    if c is not None and c[0] == ins[4]:
                        r = c[1]
                        self.assumed.add((p.r.id, p.off))
        except Unsupported:
            r = None
        self.memo[o] = r
        return r

    def getcond(self, o):
        if not isinstance(o, int):
            return None
        de = self.defs.get(o)
        if de is None:
            return None
        bi, ins = de
        if ins[0] == "icmp":
            a, b = self.get(ins[4]), self.get(ins[5])
            if a is None or b is None or isinstance(a, Undef) or isinstance(b, Undef):
                return None
            return ins[3], a, b, ins[6]
        if ins[0] == "xor" and ins[4] == ["i", 1]:
            c = self.getcond(ins[3])
            if c is None:
                return None
            inv = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
            return inv[c[0]], c[1], c[2], c[3]
        return None


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
        return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.r is b.r and (a.off == b.off)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, ring.DVal) and isinstance(b, ring.DVal):
        return ring.d_close(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_val(x, y) for x, y in zip(a, b))
    return False


def depends_acc(v, t=None):
    if isinstance(v, tuple):
        return any(depends_acc(x, t) for x in v)
    if isinstance(v, ring.DVal):
        return any(ring.atom(a)[0] == "acc" and (t is None or ring.atom(a)[3] == t) for m in v.d for a, e in ring.mono(m))
    return False


def res_binders(results):
    return [b for res in results for b in res[0]]


def has_cells_atoms(v):
    return any(ring.atom(a)[0] != "sym" for m in v.d for a, e in ring.mono(m))


def depends(v, binders):
    s = set(binders)
    if isinstance(v, Poly):
        return bool(deep_syms(v) & s)
    if isinstance(v, Ptr):
        return depends(v.off, binders)
    if isinstance(v, ring.DVal):
        return bool(ring.d_syms(v) & s)
    if isinstance(v, tuple):
        return any(depends(x, binders) for x in v)
    return False


def subst_val(v, mp):
    if isinstance(v, (int, Poly)):
        return subst(v, mp)
    if isinstance(v, ring.DVal):
        return ring.d_subst(v, mp)
    if isinstance(v, Ptr):
        return Ptr(v.r, subst(v.off, mp))
    if isinstance(v, tuple):
        return tuple(subst_val(x, mp) for x in v)
    return v


def solve_binders(off, binders, target):
    """find binder values (polys in the target's symbols) with off(binders) == target, inside the binder ranges (proven)"""
    if not binders:
        return {} if psub(off, target) == 0 else None
    rem = psub(target, off)      # = target - off ; binders appear negated
    cs = []
    for b in binders:
        ca = coef_of(rem, b)
        if ca is None:
            return None
        a, rem2 = ca
        if b in syms(rem2):
            return None
        if not is_const(a) and any(x in binders for x in syms(a)):
            return None
        rem = rem2
        cs.append((pneg(a), b))
    if any(b in syms(rem) for b in binders):
        return None
    zero = [b for c, b in cs if is_const(c) and c == 0]
    if zero:
        return None
    # order by decreasing stride
    import functools

    def cmp(x, y):
        d = psub(x[0], y[0])
        if is_const(d):
            return -1 if d > 0 else (1 if d < 0 else 0)
        if ge0(d):
            return -1
        return 1
    cs.sort(key=functools.cmp_to_key(cmp))
    sol = {}
    for i, (c, b) in enumerate(cs):
        S = Sym.table[b]
        lo = subst(S.lo, sol)
        hi = subst(S.hi, sol)
        if i == len(cs) - 1:
            q = exact_div(rem, c)
            if q is None:
                return None
            rem = 0
        else:
            q, rem = split_multiple(rem, c)
            if q is None:
                return None
        # lo may not be 0: q counts absolute value because off uses b itself
        if not (ge0(psub(q, lo)) and ge0(psub(hi, q))):
            return None
        sol[b] = q
    return sol


def unify_binders(off, binders, target):
    """target is the same expression as off up to an instantiation of the binders (by symbols or range ends) whose ranges fit"""
    import itertools
    ts = sorted(syms(target))
    free = set(syms(off)) - set(binders)
    ts = [t for t in ts if t not in free]
    if not binders or len(ts) > 4 or len(binders) > 3 or not set(binders) <= set(syms(off)):
        return None
    cands = []
    for b in binders:
        S = Sym.table[b]
        cands.append([sym_poly(Sym.table[t]) for t in ts] + [x for x in (S.lo, S.hi) if x is not None and not isinstance(x, Poly)])
    for combo in itertools.product(*cands):
        mp = dict(zip(binders, combo))
        if subst(off, mp) == target:
            if all(ge0(psub(mp[b], subst(Sym.table[b].lo, mp))) and ge0(psub(subst(Sym.table[b].hi, mp), mp[b])) for b in binders):
                return mp
    return None


def split_multiple(p, c):
    """p = c*q + r taking every monomial divisible by c into q (constants: floor)"""
    if is_const(p):
        if is_const(c):
            return p // c, p % c
        return 0, p
    qt, rt = {}, {}
    if is_const(c):
        for m, k in p.t.items():
            if not m:
                rt[m] = k
            elif isinstance(k, int) and k % c == 0:
                qt[m] = k // c
            elif isinstance(k, int):
                rt[m] = k
            else:
                return None, None
        r = Poly.mk(rt)
        k0 = rt.get((), 0)
        q = Poly.mk(qt)
        # move whole multiples of the constant
        lo, hi = bounds(r)
        if lo is not None and hi is not None:
            k = int(lo // c)
            if hi < (k + 1) * c:
                return padd(q, k), psub(r, k * c)
        return q, r
    if len(c.t) == 1:
        (hm, hc), = c.t.items()
        for m, k in p.t.items():
            d = dict(m)
            ok = all(d.get(s, 0) >= e for s, e in hm)
            cc = _norm(Fraction(k) / hc)
            if ok and isinstance(cc, int):
                for s, e in hm:
                    d[s] -= e
                    if not d[s]:
                        del d[s]
                qt[tuple(sorted(d.items()))] = cc
            else:
                rt[m] = k
        return Poly.mk(qt), Poly.mk(rt)
    q = exact_div(p, c)
    if q is not None:
        return q, 0
    return 0, p


def ranges_apart(w, a):
    """accesses never overlap for any values of both binder sets (renamed apart)"""
    mp = {}
    for b in a.binders:
        S = Sym.table[b]
        mp[b] = sym_poly(Sym(S.name + "'", subst(S.lo, mp), subst(S.hi, mp)))
    d = psub(w.off, subst(a.off, mp))
    return never_overlap(d, w.size, a.size, [])


def disjoint_iterations(w, wb, a, ab, same_case):
    """w (iteration wb) and a (iteration ab, renamed) never overlap when the iterations differ"""
    mp = {}
    for b in a.binders:
        S = Sym.table[b]
        if b in ab:
            continue
    for b in a.binders:
        S = Sym.table[b]
        mp[b] = sym_poly(Sym(S.name + "'", subst(S.lo, mp), subst(S.hi, mp)))
    aoff = subst(a.off, mp)
    d = psub(w.off, aoff)
    eqs = []
    pairs = []
    cons = []
    if same_case:
        for b in wb:
            pb = mp.get(b)
            if pb is None:
                pb = sym_poly(Sym("x'", Sym.table[b].lo, Sym.table[b].hi))
            pairs.append((b, pb))
        for b in wb:
            S = Sym.table[b]
            cons.append(psub(sym_poly(S), S.lo))
            cons.append(psub(S.hi, sym_poly(S)))
        for b, pb in pairs:
            S = Sym.table[list(syms(pb))[0]]
            cons.append(psub(pb, S.lo))
            cons.append(psub(S.hi, pb))
    if same_case and not wb:
        return True               # a single iteration
    if never_overlap(d, w.size, a.size, pairs, cons):
        return True
    if same_case and len(wb) == 1 and progress(w, a, wb[0]) and progress(a, w, wb[0]):
        return True
    return False


def progress(w, a, b):
    """the bytes touched by access `a` in iteration b+1 and later lie above those of access `w` in iteration b"""
    B = Sym.table[b]
    hi = elim_only(w.off, [x for x in w.binders if x != b], -1)
    lo = elim_only(a.off, [x for x in a.binders if x != b], +1)
    if hi is None or lo is None:
        return False
    f = sym_poly(Sym("f", B.lo, psub(B.hi, 1)))
    lo1 = subst(lo, {b: padd(f, 1)})
    return ge0(psub(psub(lo1, subst(hi, {b: f})), w.size)) and ge0(psub(lo1, subst(lo, {b: f})))


def elim_only(p, binders, dirn):
    """bound of p over the given symbols (youngest first)"""
    for s in sorted(binders, reverse=True):
        S = Sym.table[s]
        ca = coef_of(p, s)
        if ca is None:
            return None
        a, b = ca
        if ge0(a):
            p = padd(pmul(a, S.lo if dirn > 0 else S.hi), b)
        elif ge0(pneg(a)):
            p = padd(pmul(a, S.hi if dirn > 0 else S.lo), b)
        else:
            return None
    return p


def never_overlap(d, ws, as_, pairs, cons=()):
    """no solution of  -ws < d < as_   (d = write offset - access offset), given that not all pairs (b, b') coincide.
    Stratified argument: group the terms by coefficient, largest first; a group's value must be 0 when the remaining terms are
    smaller than one step of it; the equalities collected are finally confronted with `pairs`."""
    if is_const(d):
        inwin = -ws < d < as_
        if not inwin:
            return True
        return False if not pairs else all_equal({}, pairs, cons) and False
    l = d
    eqs = []

    def attempt(d, eqs, depth):
        # d must hit window
        if is_const(d):
            if not (-ws < d < as_):
                return True
            return contradiction(eqs, pairs, cons)
        lo, hi = bounds(d)
        if (lo is not None and lo >= as_) or (hi is not None and hi <= -ws):
            return True
        # residue
        g = content(d)
        r = d.t.get((), 0)
        if g > 1 and isinstance(r, int):
            r %= g
            if r >= as_ and r - g <= -ws:
                return True
        groups = {}
        for m, c in d.t.items():
            if not m:
                continue
            # variable part: youngest binder-like symbol of degree 1; coefficient = rest
            v = max(m, key=lambda x: x[0])
            if v[1] != 1:
                return False
            rest = tuple(x for x in m if x[0] != v[0])
            groups.setdefault((rest, abs(c)), []).append((v[0], 1 if c > 0 else -1))
        items = []
        for (rest, c), vs in groups.items():
            coef = Poly.mk({rest: c})
            combo = 0
            for s, sg in vs:
                combo = padd(combo, pmul(sym_poly(Sym.table[s]), sg))
            items.append((coef, combo))
        # candidate decompositions d = c*combo + rest
        cands = []
        for i, (c, cb) in enumerate(items):
            if all(i == j or ge0(psub(c, items[j][0])) for j in range(len(items))):
                cands.append((c, cb))
                break
        cs = [(c, cb) for c, cb in items if is_const(c)]
        cs.sort(key=lambda x: -x[0])
        for i in range(len(cs)):
            for j in range(i + 1, len(cs)):
                if cs[i][0] % cs[j][0]:
                    cands.append((cs[j][0], padd(pmul(cs[i][1], cs[i][0] // cs[j][0]), cs[j][1])))
                    if 2 * (cs[i][0] % cs[j][0]) > cs[j][0]:
                        cands.append((cs[j][0], padd(pmul(cs[i][1], cs[i][0] // cs[j][0] + 1), cs[j][1])))
        for c, combo in cands[:6]:
            if decisive(d, c, combo, eqs, depth):
                return True
        return False

    def decisive(d, c, combo, eqs, depth):
        rest = psub(d, pmul(c, combo))
        rlo, rhi = sbounds(rest)
        if rlo is None or rhi is None:
            return False
        # c*combo = -rest + w, w in (-ws, as_)
        hi_need = padd(pneg(rlo), as_ - 1)       # max of c*combo
        lo_need = padd(pneg(rhi), 1 - ws)        # min of c*combo
        if is_const(c) and is_const(hi_need) and is_const(lo_need):
            klo, khi = -((-lo_need) // c), hi_need // c
            clo, chi = bounds(combo)
            if clo is not None:
                klo = max(klo, math.ceil(clo))
            if chi is not None:
                khi = min(khi, math.floor(chi))
            if khi - klo > 3 or depth > 8:
                return False
            for k in range(klo, khi + 1):
                if not attempt(padd(rest, c * k), eqs + [psub(combo, k)], depth + 1):
                    return False
            return True
        ks = []
        for k in (-1, 0, 1):
            if ge0(psub(psub(pmul(c, k), hi_need), 1)) or ge0(psub(psub(lo_need, pmul(c, k)), 1)):
                continue
            ks.append(k)
        # |k|>=2 excluded?
        if not (ge0(psub(psub(pmul(c, 2), hi_need), 1)) and ge0(psub(psub(lo_need, pmul(c, -2)), 1))):
            return False
        if depth > 8:
            return False
        for k in ks:
            if not attempt(padd(rest, pmul(c, k)), eqs + [psub(combo, k)], depth + 1):
                return False
        return True
    return attempt(d, eqs, 0)


def sbounds(p):
    """symbolic or numeric bounds of p after eliminating iteration symbols (parameters stay)"""
    lo, hi = bounds(p)
    if lo is not None and hi is not None:
        return lo, hi
    return _elim(p, +1), _elim(p, -1)


def _elim(p, dirn):
    """eliminate ranged symbols whose bounds are known, keeping pure parameters (symbols without upper bound)"""
    for _ in range(20):
        if is_const(p):
            return p
        ss = sorted(syms(p), reverse=True)
        done = True
        for s in ss:
            S = Sym.table[s]
            if S.lo is None or S.hi is None:
                continue
            ca = coef_of(p, s)
            if ca is None:
                return None
            a, b = ca
            if ge0(a):
                p = padd(pmul(a, S.lo if dirn > 0 else S.hi), b)
            elif ge0(pneg(a)):
                p = padd(pmul(a, S.hi if dirn > 0 else S.lo), b)
            else:
                return None
            done = False
            break
        if done:
            return p
    return None


def contradiction(eqs, pairs, cons):
    """the equalities force all pairs to coincide (which the caller excludes), or are infeasible with the constraints"""
    if not pairs:
        # plain overlap question: only infeasible equalities help
        mp = solve_eqs(eqs)
        if mp is False:
            return True
        return False
    mp = solve_eqs(eqs)
    if mp is False:
        return True
    cs = [subst_full(c, mp) for c in cons]
    for c in cs:
        hb = bounds(c)[1]
        if hb is not None and hb < 0:
            return True
    extra = []
    for i in range(len(cs)):
        for j in range(i + 1, len(cs)):
            s = padd(cs[i], cs[j])
            if is_const(s):
                if s < 0:
                    return True
                if s == 0 and not is_const(cs[i]):
                    extra.append(cs[i])
    if extra:
        mp = solve_eqs(eqs + extra)
        if mp is False:
            return True
    for b, pb in pairs:
        d = subst_full(psub(sym_poly(Sym.table[b]), pb), mp)
        if not (is_const(d) and d == 0):
            return False
    return True


def subst_full(p, mp):
    for _ in range(10):
        q = subst(p, mp)
        if q == p:
            return q
        p = q
    return p


def solve_eqs(eqs):
    mp = {}
    for e in eqs:
        e = subst_full(e, mp)
        if is_const(e):
            if e != 0:
                return False
            continue
        lo, hi = bounds(e)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        # solve for the youngest symbol with coefficient +-1
        for s in sorted(syms(e), reverse=True):
            ca = coef_of(e, s)
            if ca and is_const(ca[0]) and abs(ca[0]) == 1:
                mp[s] = pmul(ca[1], -ca[0])
                break
        else:
            # combo == 0 with all-nonnegative variables etc. is ignored (sound: fewer equalities)
            pass
    # the solved symbols must still fit their ranges
    for s, e in mp.items():
        S = Sym.table[s]
        e = subst_full(e, mp)
        if S.lo is not None:
            h = bounds(subst_full(psub(e, S.lo), mp))[1]
            if h is not None and h < 0:
                return False
        if S.hi is not None:
            h = bounds(subst_full(psub(S.hi, e), mp))[1]
            if h is not None and h < 0:
                return False
    return mp


def all_equal(mp, pairs, cons):
    return False


# ---------------------------------------------------------------- instruction semantics
def wrap(v, ty):
    lo, hi = INT_RANGE.get(ty, INT_RANGE["i64"])
    w = hi - lo + 1
    return (v - lo) % w + lo


def ptr_arith(name, a, b):
    """integers that are addresses (ptrtoint): differences within one region, displacements"""
    if isinstance(a, Ptr) and isinstance(b, (int, Poly)):
        if name == "add":
            return Ptr(a.r, padd(a.off, b))
        if name == "sub":
            return Ptr(a.r, psub(a.off, b))
    if name == "add" and isinstance(b, Ptr) and isinstance(a, (int, Poly)):
        return Ptr(b.r, padd(b.off, a))
    if name == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
        return psub(a.off, b.off)
    raise Unsupported("%s of the addresses %r and %r" % (name, a, b))


def arith(name):
    def f(it, fr, ins):
        a = it.val(fr, ins[3])
        b = it.val(fr, ins[4])
        ty = ins[2]
        if a.__class__ is tuple or b.__class__ is tuple:
            raise Unsupported("vector integer arithmetic")
        if a is UNDEF or b is UNDEF or a is None or b is None:
            return UNDEF
        if isinstance(a, Cond):
            a = int(it.decide(a))
        if isinstance(b, Cond):
            b = int(it.decide(b))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return ptr_arith(name, a, b)
        if name == "add":
            r = a + b if isinstance(a, int) and isinstance(b, int) else padd(a, b)
        elif name == "sub":
            r = psub(a, b)
        elif name == "mul":
            r = pmul(a, b)
        else:
            if not isinstance(b, int):
                if isinstance(a, int):
                    h = getattr(it, "shl_hook", None)
                    if h:
                        return h(it, a, b, ty)
                raise Unsupported("shift by a symbolic amount")
            r = pmul(a, 1 << b)
        lo, hi = INT_RANGE.get(ty, INT_RANGE["i64"])
        if isinstance(r, int):
            if lo <= r <= hi:
                return r
            if ins[5]:
                it.oblige("overflow", False, fr, ins[6], lambda: "signed %s overflows: %r" % (name, r))
            return wrap(r, ty)
        # symbolic
        l, h = bounds(r)
        ok = l is not None and h is not None and l >= lo and h <= hi
        it.oblige("overflow" if ins[5] else "wrap", ok, fr, ins[6], lambda: "%s %s may leave the range of %s: value %r in [%s, %s]" % (
            "signed" if ins[5] else "unsigned", name, ty, r, l, h))
        return r
    return f


def x_div(it, fr, ins):
    return _divrem(it, fr, ins, 0)


def x_rem(it, fr, ins):
    if fr.over is not None and ins[1] in fr.over:
        return fr.over[ins[1]]
    return _divrem(it, fr, ins, 1)


def _divrem(it, fr, ins, which):
    a = it.val(fr, ins[3])
    b = it.val(fr, ins[4])
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            it.oblige("overflow", False, fr, ins[5], "division by zero")
            raise Violation("overflow", "division by zero", it.here(fr, ins[5]))
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return q if which == 0 else a - b * q
    if not ge0(psub(b, 1)):
        raise Unsupported("division by %r" % (b,))
    if not ge0(a):
        hb = bounds(a)[1]
        if hb is not None and hb <= 0:
            # truncation: -( (-a) / b )
            r = divmod_static(pneg(a), b)
            if r is None:
                raise Split("div", a, b)
            return pneg(r[which])
        raise Split("ge", a)
    r = divmod_static(a, b)
    if r is None:
        h = getattr(it, "div_hook", None)
        if h:
            v = h(it, a, b)
            if v is not None:
                return v[which]
        if is_const(b) and any(sum(e for _, e in m) > 1 and c % b for m, c in a.t.items() if isinstance(c, int)):
            return derived("mod" if which else "div", a, b)
        raise Split("div", a, b)
    return r[which]


def x_shr(it, fr, ins):
    a = it.val(fr, ins[3])
    b = it.val(fr, ins[4])
    if a is UNDEF:
        return UNDEF
    if isinstance(a, int) and isinstance(b, int):
        if ins[0] == "lshr" and a < 0:
            w = int(ins[2][1:])
            a &= (1 << w) - 1
        return a >> b
    if isinstance(b, int) and isinstance(a, Poly):
        if not ge0(a):
            raise Unsupported("shift of a possibly negative value")
        r = divmod_static(a, 1 << b)
        if r is None:
            raise Split("div", a, 1 << b)
        return r[0]
    raise Unsupported("shift")


def x_bit(it, fr, ins):
    if fr.over is not None and ins[1] in fr.over:
        return fr.over[ins[1]]
    op = ins[0]
    a = it.val(fr, ins[3])
    b = it.val(fr, ins[4])
    ty = ins[2]
    if ty == "i1":
        if isinstance(a, Cond) or isinstance(b, Cond):
            if op == "xor":
                if b == 1 and isinstance(a, Cond):
                    return a.neg()
                if a == 1 and isinstance(b, Cond):
                    return b.neg()
            if op == "and":
                if isinstance(a, int):
                    return b if a else 0
                if isinstance(b, int):
                    return a if b else 0
                return b if it.decide(a) else 0
            if op == "or":
                if isinstance(a, int):
                    return 1 if a else b
                if isinstance(b, int):
                    return 1 if b else a
                return 1 if it.decide(a) else b
            return int(it.decide(a)) ^ int(it.decide(b))
    if a.__class__ is tuple:
        return tuple(_bit1(it, op, x, y) for x, y in zip(a, b if b.__class__ is tuple else (b,) * len(a)))
    return _bit1(it, op, a, b)


SIGN = -2 ** 63


def _bit1(it, op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a & b if op == "and" else a | b if op == "or" else a ^ b
    if op == "xor":
        if isinstance(b, ring.DVal) or isinstance(b, Bits):
            a, b = b, a
        if isinstance(a, Bits):
            if isinstance(b, Bits):
                c = ring.const_of(b.v)
                if c == 0:
                    # +0.0 or -0.0 pattern
                    import math as _m
                    if b.v.f is not None and _m.copysign(1.0, b.v.f) < 0:
                        return Bits(ring.d_neg(a.v))
                    return a
                c = ring.const_of(a.v)
                if c == 0:
                    return _bit1(it, op, b, a)
                raise Unsupported("xor of two doubles")
            if isinstance(b, int):
                if b == 0:
                    return a
                if b == SIGN or b == 1 << 63:
                    return Bits(ring.d_neg(a.v))
    if op == "and" and isinstance(b, Ptr) and isinstance(a, int):
        a, b = b, a
    if op == "and" and isinstance(a, Ptr) and isinstance(b, int) and a.r is not None and 0 <= b < 4096 and (b & (b + 1)) == 0:
        return _bit1(it, "and", padd(a.off, it.residue(a.r, b + 1)), b)
    if op == "and" and isinstance(a, Ptr) and isinstance(b, int) and a.r is not None and -4096 < b < 0 and (-b & (-b - 1)) == 0:
        low = _bit1(it, "and", padd(a.off, it.residue(a.r, -b)), -b - 1)          # rounding a pointer down
        return Ptr(a.r, psub(a.off, low))
    if op == "and" and isinstance(a, (int, Poly)) and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
        if is_const(a) or ge0(a):
            r = divmod_static(a, b + 1)
            if r is None:
                raise Split("div", a, b + 1)
            return r[1]
    if op == "and" and isinstance(b, (int, Poly)) and isinstance(a, int):
        return _bit1(it, op, b, a)
    if op == "or" and isinstance(b, int) and isinstance(a, Poly):
        # disjoint or: a multiple of 2^k, b < 2^k
        k = b.bit_length()
        if b >= 0 and exact_div(a, 1 << k) is not None:
            return padd(a, b)
    raise Unsupported("bit operation %s on %r %r" % (op, a, b))


def vmap2(f, a, b):
    if a.__class__ is tuple:
        return tuple(UNDEF if (x is UNDEF or y is UNDEF) else f(x, y) for x, y in zip(a, b))
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return f(a, b)


def is_single(ty):
    return ty == "f" or ty[-2:] == "f>"


def single(it, fr, v):
    """v rounded to single precision: no error for a constant that fits"""
    for x in v if v.__class__ is tuple else (v,):
        if x is not UNDEF:
            c = ring.const_of(x)
            if c is None or struct.unpack("<f", struct.pack("<f", c))[0] != c:
                it.lossy(fr, -1, "a value is rounded to single precision")
    return v


def fop(f):
    def g(it, fr, ins):
        v = vmap2(f, it.val(fr, ins[3]), it.val(fr, ins[4]))
        return single(it, fr, v) if is_single(ins[2]) else v
    return g


def f_div(a, b):
    i = ring.d_inv(b)
    if i is None and ring.const_of(b) == 0.0:
        return UNDEF                # infinite or not a number: no value any output may depend on
    if i is None:
        raise Unsupported("division by a data dependent value")
    return ring.d_mul(a, i)


def f_sub(a, b):
    return ring.d_add(a, b, -1)


def f_negz(a):
    return ring.d_neg(a)


def x_fneg(it, fr, ins):
    a = it.val(fr, ins[3])
    if a.__class__ is tuple:
        return tuple(UNDEF if x is UNDEF else f_negz(x) for x in a)
    return UNDEF if a is UNDEF else f_negz(a)


def x_gep(it, fr, ins):
    b = it.val(fr, ins[3])
    if b is UNDEF or b is None:
        return UNDEF
    if isinstance(b, FnPtr):
        raise Unsupported("gep on function")
    if ins[5].__class__ is not list:
        raise Unsupported("gep form")
    off = b.off
    if ins[4]:
        off = padd(off, ins[4])
    for v, s in ins[5]:
        x = it.val(fr, v)
        if x is UNDEF:
            return UNDEF
        off = padd(off, pmul(x, s))
    return Ptr(b.r, off)


def x_load(it, fr, ins):
    return it.load(fr, it.val(fr, ins[3]), ins[2], ins[4], ins[5], ins[7])


def x_alloca(it, fr, ins):
    n = it.val(fr, ins[5])
    size = pmul(ins[4], n)
    r = it.new_region("local", size, "alloca", ins[6])
    return Ptr(r, 0)


def x_icmp(it, fr, ins):
    return it.compare(ins[3], it.val(fr, ins[4]), it.val(fr, ins[5]), ins[6])


def x_fcmp(it, fr, ins):
    a = it.val(fr, ins[4])
    b = it.val(fr, ins[5])
    if isinstance(a, ring.DVal) and isinstance(b, ring.DVal):
        x, y = ring.const_of(a), ring.const_of(b)
        if x is not None and y is not None:
            p = ins[3]
            if p in ("ord",):
                return 1
            if p in ("uno",):
                return 0
            return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[1:]])
        if ins[3] == "uno":
            return 0
        if ins[3] == "ord":
            return 1
    raise Unsupported("comparison of floating point data")


def x_select(it, fr, ins):
    if fr.over is not None and ins[1] in fr.over:
        return fr.over[ins[1]]
    c = it.val(fr, ins[3])
    a = it.val(fr, ins[4])
    b = it.val(fr, ins[5])
    if c.__class__ is tuple:
        return tuple(x if it.decide(k) else y for k, x, y in zip(c, a, b))
    if isinstance(c, Cond) and same_val(a, b):
        return a
    return a if it.decide(c) else b


def x_cast(it, fr, ins):
    op = ins[0]
    v = it.val(fr, ins[3])
    ty = ins[2]
    st = ins[4]
    if v is UNDEF:
        return UNDEF
    if op == "bitcast":
        dv, sv = vecty(ty), vecty(st)
        de = dv[1] if dv else ty
        se = sv[1] if sv else st
        if de == se and (dv[0] if dv else 1) == (sv[0] if sv else 1):
            return v
        vv = v if v.__class__ is tuple else (v,)
        if se == "d" and de == "i64":
            out = tuple(UNDEF if x is UNDEF else Bits(x) for x in vv)
        elif se == "i64" and de == "d":
            out = []
            for x in vv:
                if isinstance(x, Bits):
                    out.append(x.v)
                elif x is UNDEF:
                    out.append(UNDEF)
                elif isinstance(x, int):
                    out.append(ring.d_const(struct.unpack("<d", struct.pack("<Q", x & (2 ** 64 - 1)))[0]))
                else:
                    raise Unsupported("bitcast of %r" % (x,))
            out = tuple(out)
        elif se in ("i32", "i64", "i8", "i16") and all(isinstance(x, int) for x in vv):
            w = TYSIZE[se]
            raw = b"".join((x & ((1 << (8 * w)) - 1)).to_bytes(w, "little") for x in vv)
            w2 = TYSIZE[de]
            out = []
            for k in range(0, len(raw), w2):
                if de == "d":
                    out.append(ring.d_const(struct.unpack("<d", raw[k:k + 8])[0]))
                else:
                    out.append(wrap(int.from_bytes(raw[k:k + w2], "little"), de))
            out = tuple(out)
        else:
            raise Unsupported("bitcast %s -> %s" % (st, ty))
        return out if dv else out[0]
    if op in ("sext", "zext"):
        if isinstance(v, Cond):
            v = int(it.decide(v))
        if st == "i1":
            return -v if op == "sext" and v else v
        if op == "zext":
            if isinstance(v, int):
                return v & ((1 << int(st[1:])) - 1)
            if not ge0(v):
                raise Unsupported("zext of a possibly negative value")
        return v
    if op == "trunc":
        if ty == "i1":
            if isinstance(v, int):
                return v & 1
            raise Unsupported("trunc to i1")
        if isinstance(v, int):
            return wrap(v, ty)
        lo, hi = INT_RANGE[ty]
        l, h = bounds(v)
        ok = l is not None and h is not None and l >= lo and h <= hi
        it.oblige("wrap", ok, fr, -1, lambda: "conversion to %s may change the value: %r in [%s, %s]" % (ty, v, l, h))
        return v
    if op in ("sitofp", "uitofp"):
        return single(it, fr, ring.d_int(v)) if is_single(ty) else ring.d_int(v)
    if op in ("fptosi", "fptoui"):
        c = ring.const_of(v)
        if c is None:
            raise Unsupported("fptosi of data")
        return int(c)
    if op in ("fpext", "fptrunc"):
        if is_single(ty):
            return single(it, fr, v)
        if op == "fptrunc":
            return ring.DVal(v.d, v.f, v.k + 1) if isinstance(v, ring.DVal) else v
        return v
    if op in ("ptrtoint", "inttoptr"):
        return v
    raise Unsupported(op)


def x_shuffle(it, fr, ins):
    a = it.val(fr, ins[3])
    b = it.val(fr, ins[4])
    n = ins[6]
    out = []
    for m in ins[5]:
        if m < 0:
            out.append(UNDEF)
        elif m < n:
            out.append(a[m] if a.__class__ is tuple else UNDEF)
        else:
            out.append(b[m - n] if b.__class__ is tuple else UNDEF)
    return tuple(out)


def x_insel(it, fr, ins):
    a = it.val(fr, ins[3])
    v = it.val(fr, ins[4])
    k = it.val(fr, ins[5])
    n = vecty(ins[2])[0]
    if a.__class__ is not tuple:
        a = (UNDEF,) * n
    return a[:k] + (v,) + a[k + 1:]


def x_extel(it, fr, ins):
    a = it.val(fr, ins[3])
    k = it.val(fr, ins[4])
    return a[k] if a.__class__ is tuple else UNDEF


def x_extv(it, fr, ins):
    a = it.val(fr, ins[3])
    for k in ins[4]:
        if a.__class__ is not tuple:
            return UNDEF
        a = a[k]
    return a


def x_insv(it, fr, ins):
    a = it.val(fr, ins[3])
    v = it.val(fr, ins[4])
    ix = ins[5]
    if len(ix) != 1:
        raise Unsupported("nested insertvalue")
    k = ix[0]
    n = ins[2].count(",") + 1
    if a.__class__ is not tuple:
        a = (UNDEF,) * n
    return a[:k] + (v,) + a[k + 1:]


def x_freeze(it, fr, ins):
    return it.val(fr, ins[3])


def x_lpad(it, fr, ins):
    if not it.exceptions:
        raise Unsupported("exception path")
    e = fr.exc
    for c in ins[5]:
        if c == "filter":
            raise Unsupported("exception specification")
        if c == "*" or c == e.ty or catches(it.prog, c, e.ty):
            return (e.obj, typeid(it, c))
    return (e.obj, 0)


BASES = {"_ZTISt9bad_alloc": ("_ZTISt9exception",), "_ZTISt13runtime_error": ("_ZTISt9exception",), "_ZTISt11logic_error": ("_ZTISt9exception",),
         "_ZTISt12domain_error": ("_ZTISt11logic_error",), "_ZTISt16invalid_argument": ("_ZTISt11logic_error",),
         "_ZTISt12length_error": ("_ZTISt11logic_error",), "_ZTISt12out_of_range": ("_ZTISt11logic_error",),
         "_ZTISt20bad_array_new_length": ("_ZTISt9bad_alloc",)}


def catches(prog, clause, ty):
    if clause == ty:
        return True
    g = prog.globals.get(ty)
    bs = list(BASES.get(ty, ()))
    if g:
        bs += [v[1] for _, _, _, v in g["init"] if isinstance(v, list) and v and v[0] == "g" and v[1].startswith("_ZTI")]
    return any(catches(prog, clause, b) for b in bs if b != ty)


def typeid(it, name):
    d = it.__dict__.setdefault("typeids", {})
    return d.setdefault(name, len(d) + 1)


def x_typeid(it, fr, args, ins):
    p = args[0]
    return typeid(it, p.r.name if isinstance(p, Ptr) and p.r is not None else "*")


def x_alloc_exc(it, fr, args, ins):
    if not it.exceptions:
        return x_abort(it, fr, args, ins)
    r = it.new_region("exception", args[0], "new", 16)
    r.exception = True
    return Ptr(r, 0)


def x_throw(it, fr, args, ins):
    if not it.exceptions:
        return x_abort(it, fr, args, ins)
    raise Thrown(args[1].r.name if isinstance(args[1], Ptr) and args[1].r is not None else "?", args[0], it.here(fr, ins[5]))


def x_begin_catch(it, fr, args, ins):
    it.caught.append(fr.exc)
    return args[0]


def x_end_catch(it, fr, args, ins):
    if it.caught:
        it.caught.pop()


def x_rethrow(it, fr, args, ins):
    if not it.caught:
        raise Violation("terminate", "rethrows without an exception in flight", it.here(fr, ins[5]))
    raise it.caught[-1]


def fails(it):
    """does the next allocation request fail"""
    it.alloc_no += 1
    return it.alloc_no in it.fail_at


def throw_bad_alloc(it, loc):
    if not it.exceptions:
        raise Violation("terminate", "allocation failure", loc)
    r = it.new_region("exception", 8, "new", 16)
    raise Thrown("_ZTISt9bad_alloc", Ptr(r, 0), loc)


def region_of(it, fr, ins, size, align, kind, how):
    loc = it.here(fr, ins[5])
    if it.exceptions and it.loopctx:
        raise Unsupported("allocation inside a loop at %s" % loc)
    r = it.new_region("%s:%s" % (kind, loc.split(" ")[0].split("/")[-1]), size, kind, align)
    r.how, r.loc = how, loc
    it.heap.append(r)
    it.alloc_calls.append((loc, size))
    return r


DISPATCH = {
    "add": arith("add"), "sub": arith("sub"), "mul": arith("mul"), "shl": arith("shl"),
    "sdiv": x_div, "udiv": x_div, "srem": x_rem, "urem": x_rem, "ashr": x_shr, "lshr": x_shr,
    "and": x_bit, "or": x_bit, "xor": x_bit,
    "fadd": fop(ring.d_add), "fsub": fop(f_sub), "fmul": fop(ring.d_mul), "fdiv": fop(f_div), "fneg": x_fneg,
    "getelementptr": x_gep, "load": x_load, "alloca": x_alloca, "icmp": x_icmp, "fcmp": x_fcmp, "select": x_select,
    "bitcast": x_cast, "sext": x_cast, "zext": x_cast, "trunc": x_cast, "sitofp": x_cast, "uitofp": x_cast, "fptosi": x_cast, "fptoui": x_cast,
    "fpext": x_cast, "fptrunc": x_cast, "ptrtoint": x_cast, "inttoptr": x_cast,
    "shufflevector": x_shuffle, "insertelement": x_insel, "extractelement": x_extel, "extractvalue": x_extv, "insertvalue": x_insv,
    "freeze": x_freeze, "landingpad": x_lpad,
}


# ---------------------------------------------------------------- known externals
def _trig(which, single=False):
    def f(it, fr, args, ins):
        x = args[0]
        if x is UNDEF:
            return UNDEF
        if single:
            it.lossy(fr, ins[5], "%sf computes in single precision" % which)
        p = ring.to_angle(x)
        if p is None:
            p = ring.to_angle(x, True)
            if p is None:
                raise Unsupported("%s of an argument that is not a rational multiple of 2*pi: %s" % (which, ring.show(x)))
            it.lossy(fr, ins[5], "the argument of %s is close to, but not, a multiple of 2*pi times the fraction %r" % (which, p))
        # the argument's relative error, times its size, is the error of the result
        size = max((abs(h) for h in hull(p) if h is not None), default=None) if hull(p)[0] is not None else top(p)
        c = ring.c_cos(p) if which == "cos" else ring.c_sin(p)
        return ring.DVal({0: c} if c else {}, None, 1 + (math.ceil(2 * math.pi * size) * x.k if x.k else 0))
    return f


def x_sincos(it, fr, args, ins, size=8):
    ty = {4: "f", 8: "d", 16: "?x86_fp80"}[size]
    it.store(fr, args[1], _trig("sin", size == 4)(it, fr, args, ins), ty, size, size, ins[5])
    it.store(fr, args[2], _trig("cos", size == 4)(it, fr, args, ins), ty, size, size, ins[5])


def x_sqrt(it, fr, args, ins):
    if args[0] is UNDEF:
        return UNDEF
    x = args[0]
    w = ring.half_angle(x.d[0]) if isinstance(x, ring.DVal) and len(x.d) == 1 and 0 in x.d else None
    if w is not None and w[3] < 1e-2 and x.k:
        it.lossy(fr, ins[5], "the square root of a difference that cancels for some of the angles it is used for")
    r = ring.d_sqrt(x)
    if r is None:
        raise Unsupported("sqrt of %s" % ring.show(args[0]))
    return r


def x_memalign(it, fr, args, ins):
    out, al, size = args
    if fails(it):
        return 12
    r = region_of(it, fr, ins, size, al, "heap", "malloc")
    it.store(fr, out, Ptr(r, 0), "p", 8, 8, ins[5])
    return 0


def x_malloc(it, fr, args, ins):
    if fails(it):
        return Ptr(None, 0)
    return Ptr(region_of(it, fr, ins, args[0], 16, "heap", "malloc"), 0)


def x_aligned_alloc(it, fr, args, ins):
    if fails(it):
        return Ptr(None, 0)
    return Ptr(region_of(it, fr, ins, args[1], args[0], "heap", "malloc"), 0)


def release(it, fr, p, ins, how, size=None):
    if isinstance(p, Ptr) and p.r is not None:
        it.oblige("free", p.r.kind in ("heap", "new") and not p.r.freed and is_const(p.off) and p.off == 0, fr, ins[5],
                  lambda: "release of %r (%s)" % (p, "already released" if p.r.freed else p.r.kind))
        have = getattr(p.r, "how", None)
        it.oblige("dealloc-match", have is None or have == how, fr, ins[5], lambda: "memory acquired with %s at %s is released with %s" % (have, p.r.loc, how))
        if size is not None and have is not None:
            it.oblige("dealloc-size", is_const(psub(size, p.r.size)) and psub(size, p.r.size) == 0, fr, ins[5],
                      lambda: "an object of %s bytes is released as one of %s bytes (not destroyed as what it is)" % (p.r.size, size))
        p.r.freed = True
        it.freed.append(p.r)
    elif p is UNDEF:
        it.oblige("free", False, fr, ins[5], "release of an undefined pointer")
    return None


def x_free(it, fr, args, ins):
    return release(it, fr, args[0], ins, "malloc")


def x_delete(it, fr, args, ins):
    return release(it, fr, args[0], ins, "new", args[1] if ins[3] in ("_ZdlPvm", "_ZdlPvmSt11align_val_t") else None)


def x_delete_arr(it, fr, args, ins):
    return release(it, fr, args[0], ins, "new[]")


def x_new(it, fr, args, ins):
    if fails(it):
        throw_bad_alloc(it, it.here(fr, ins[5]))
    return Ptr(region_of(it, fr, ins, args[0], args[1] if len(args) > 1 and is_const(args[1]) else 16, "new", "new"), 0)


def x_new_arr(it, fr, args, ins):
    if fails(it):
        throw_bad_alloc(it, it.here(fr, ins[5]))
    # an array: cells when it is small (objects), element log when it holds data
    small = is_const(args[0]) and args[0] <= 256
    return Ptr(region_of(it, fr, ins, args[0], args[1] if len(args) > 1 and is_const(args[1]) else 16, "new" if small else "heap", "new[]"), 0)


def x_none(it, fr, args, ins):
    return None


def x_zero(it, fr, args, ins):
    return 0


def x_addsub(it, fr, args, ins):
    a, b = args
    return tuple(ring.d_add(x, y, -1 if k % 2 == 0 else 1) for k, (x, y) in enumerate(zip(a, b)))


def x_hadd(it, fr, args, ins):
    a, b = args
    out = []
    for k in range(0, len(a), 2):
        out.append(ring.d_add(a[k], a[k + 1]))
        out.append(ring.d_add(b[k], b[k + 1]))
    return tuple(out)


def x_abort(it, fr, args, ins):
    raise Violation("terminate", "reaches std::terminate/abort/throw", it.here(fr, ins[5]))


def x_memset(it, fr, args, ins):
    if args[1] != 0:
        raise Unsupported("memset non zero")
    it.memset0(fr, args[0], args[2], ins[5])
    return args[0]


def x_memcpy(it, fr, args, ins):
    it.memcpy(fr, args[0], args[1], args[2], ins[5])
    return args[0]


def _query(name):
    return lambda it, fr, args, ins: it.omp_query(fr, args, ins, name)


OMP_QUERIES = ("omp_get_thread_num", "omp_get_num_threads", "omp_get_max_threads", "omp_get_num_procs", "omp_get_thread_limit", "omp_in_parallel",
               "omp_get_level", "omp_get_active_level", "omp_get_dynamic", "omp_get_nested", "omp_get_cancellation", "omp_get_max_active_levels",
               "omp_get_supported_active_levels", "_ZNSt6thread20hardware_concurrencyEv")

INTRIN = {
    "sinf": _trig("sin", True), "cosf": _trig("cos", True), "sqrtf": lambda it, fr, a, i: single(it, fr, x_sqrt(it, fr, a, i)),
    "sinl": _trig("sin"), "cosl": _trig("cos"), "sqrtl": lambda it, fr, a, i: x_sqrt(it, fr, a, i), "sincosl": lambda it, fr, a, i: x_sincos(it, fr, a, i, 16),
    "sincosf": lambda it, fr, a, i: x_sincos(it, fr, a, i, 4),
    "sincos": x_sincos, "sin": _trig("sin"), "cos": _trig("cos"), "sqrt": x_sqrt,
    "posix_memalign": x_memalign, "malloc": x_malloc, "free": x_free, "_Znwm": x_new, "_ZdlPv": x_delete, "_ZdlPvm": x_delete,
    "aligned_alloc": x_aligned_alloc, "memalign": x_aligned_alloc, "_ZnwmSt11align_val_t": x_new, "_ZdlPvSt11align_val_t": x_delete, "_ZdlPvmSt11align_val_t": x_delete,
    "_Znam": x_new_arr, "_ZnamSt11align_val_t": x_new_arr, "_ZdaPv": x_delete_arr, "_ZdaPvm": x_delete_arr, "_ZdaPvSt11align_val_t": x_delete_arr,
    "__cxa_begin_catch": x_begin_catch, "__cxa_end_catch": x_end_catch, "__cxa_rethrow": x_rethrow, "__cxa_free_exception": lambda it, fr, a, i: None,
    "llvm.eh.typeid.for": x_typeid, "llvm.eh.typeid.for.p0": x_typeid,
    "__kmpc_fork_call": lambda it, fr, a, i: it.omp_fork(fr, a, i),
    "__kmpc_for_static_init_4": lambda it, fr, a, i: it.omp_static_init(fr, a, i),
    "__kmpc_for_static_init_4u": lambda it, fr, a, i: it.omp_static_init(fr, a, i),
    "__kmpc_for_static_init_8": lambda it, fr, a, i: it.omp_static_init(fr, a, i),
    "__kmpc_for_static_init_8u": lambda it, fr, a, i: it.omp_static_init(fr, a, i),
    "__kmpc_for_static_fini": lambda it, fr, a, i: it.omp_static_fini(fr, a, i),
    "__kmpc_barrier": lambda it, fr, a, i: it.omp_barrier(fr, a, i),
    "__kmpc_single": lambda it, fr, a, i: it.omp_single(fr, a, i),
    "__kmpc_end_single": lambda it, fr, a, i: it.omp_end_single(fr, a, i),
    "__kmpc_dispatch_init_4": lambda it, fr, a, i: it.omp_dispatch_init(fr, a, i),
    "__kmpc_dispatch_init_4u": lambda it, fr, a, i: it.omp_dispatch_init(fr, a, i),
    "__kmpc_dispatch_init_8": lambda it, fr, a, i: it.omp_dispatch_init(fr, a, i),
    "__kmpc_dispatch_init_8u": lambda it, fr, a, i: it.omp_dispatch_init(fr, a, i),
    "__kmpc_dispatch_next_4": lambda it, fr, a, i: it.omp_dispatch_next(fr, a, i),
    "__kmpc_dispatch_next_4u": lambda it, fr, a, i: it.omp_dispatch_next(fr, a, i),
    "__kmpc_dispatch_next_8": lambda it, fr, a, i: it.omp_dispatch_next(fr, a, i),
    "__kmpc_dispatch_next_8u": lambda it, fr, a, i: it.omp_dispatch_next(fr, a, i),
    "__kmpc_serialized_parallel": lambda it, fr, a, i: it.omp_serial(fr, a, i, True),
    "__kmpc_end_serialized_parallel": lambda it, fr, a, i: it.omp_serial(fr, a, i, False),
    "__kmpc_push_num_threads": lambda it, fr, a, i: it.omp_push(fr, a, i),
    "__kmpc_master": lambda it, fr, a, i: it.omp_master(fr, a, i),
    "__kmpc_end_master": lambda it, fr, a, i: it.omp_end_master(fr, a, i),
    "__kmpc_masked": lambda it, fr, a, i: it.omp_master(fr, a, i),
    "__kmpc_end_masked": lambda it, fr, a, i: it.omp_end_master(fr, a, i),
    "__kmpc_critical": lambda it, fr, a, i: it.omp_critical(fr, a, i),
    "__kmpc_critical_with_hint": lambda it, fr, a, i: it.omp_critical(fr, a, i),
    "__kmpc_end_critical": lambda it, fr, a, i: it.omp_end_critical(fr, a, i),
    "llvm.threadlocal.address.p0": lambda it, fr, a, i: it.tls_region(a[0]),
    "__kmpc_global_thread_num": x_zero,
    "llvm.x86.avx.vzeroupper": x_none, "llvm.x86.avx.addsub.pd.256": x_addsub, "llvm.x86.sse3.addsub.pd": x_addsub,
    "llvm.x86.sse3.hadd.pd": x_hadd, "llvm.x86.avx.hadd.pd.256": x_hadd,
    "_ZSt9terminatev": x_abort, "__clang_call_terminate": x_abort, "__cxa_throw": x_throw, "abort": x_abort, "__cxa_allocate_exception": x_alloc_exc,
    "_ZSt17__throw_bad_allocv": lambda it, fr, a, i: throw_bad_alloc(it, it.here(fr, i[5])),
    "_ZNSt9bad_allocD1Ev": x_none, "_ZNSt9bad_allocD2Ev": x_none, "_ZNSt9exceptionD2Ev": x_none, "_ZNSt9exceptionD1Ev": x_none,
    "memset": x_memset, "memcpy": x_memcpy, "memmove": x_memcpy,
}
INTRIN.update({n: _query(n) for n in OMP_QUERIES})
