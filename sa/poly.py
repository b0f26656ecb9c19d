"""Integer domain: polynomials with rational coefficients over integer symbols (Laurent monomials).

Plain Python ints are used for constants; Poly for everything else.
A symbol carries an inclusive range [lo, hi] whose bounds are themselves polynomials over older symbols.
"""
from fractions import Fraction
from math import gcd


class Sym:
    __slots__ = ("id", "name", "lo", "hi", "attr", "hull")
    table = []

    def __init__(self, name, lo=None, hi=None, **attr):
        self.id = len(Sym.table)
        self.name = name
        self.lo = lo
        self.hi = hi
        self.attr = attr
        self.hull = None
        Sym.table.append(self)

    def __repr__(self):
        return "%s#%d" % (self.name, self.id)


def sym_poly(s):
    return Poly({((s.id, 1),): 1})


def new_sym(name, lo=None, hi=None, **attr):
    return sym_poly(Sym(name, lo, hi, **attr))


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for s, e in b:
        n = d.get(s, 0) + e
        if n:
            d[s] = n
        else:
            d.pop(s, None)
    return tuple(sorted(d.items()))


def _norm(c):
    if type(c) is int:
        return c
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    # -- construction -------------------------------------------------
    @staticmethod
    def mk(t):
        t = {m: c for m, c in t.items() if c != 0}
        if not t:
            return 0
        if () in t and len(t) == 1:
            c = _norm(t[()])
            if isinstance(c, int):
                return c
        return Poly(t)

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        if isinstance(o, Poly):
            return self.t == o.t
        return False

    def __ne__(self, o):
        return not self == o

    # -- arithmetic ----------------------------------------------------
    def __add__(self, o):
        if isinstance(o, Poly):
            if len(o.t) > len(self.t):
                a, b = o.t, self.t
            else:
                a, b = self.t, o.t
            r = dict(a)
            for m, c in b.items():
                n = r.get(m, 0) + c
                if n == 0:
                    r.pop(m, None)
                else:
                    r[m] = n
            if len(r) > 1 or (r and () not in r):
                return Poly(r)
            return Poly.mk(r)
        if o == 0:
            return self
        r = dict(self.t)
        n = r.get((), 0) + o
        if n == 0:
            r.pop((), None)
        else:
            r[()] = n
        return Poly.mk(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, Poly):
            if o == 0:
                return 0
            if o == 1:
                return self
            return Poly.mk({m: _norm(c * o) for m, c in self.t.items()})
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mmul(m1, m2)
                n = r.get(m, 0) + c1 * c2
                if n == 0:
                    r.pop(m, None)
                else:
                    r[m] = n
        return Poly.mk({m: _norm(c) for m, c in r.items()})

    __rmul__ = __mul__

    def __repr__(self):
        out = []
        for m, c in sorted(self.t.items()):
            s = "*".join(("%r" % Sym.table[i]) + ("" if e == 1 else "^%d" % e) for i, e in m)
            out.append(("%s*%s" % (c, s)) if s else str(c))
        return " + ".join(out) if out else "0"


def is_const(p):
    return not isinstance(p, Poly)


def syms(p):
    if not isinstance(p, Poly):
        return ()
    r = set()
    for m in p.t:
        for s, e in m:
            r.add(s)
    return r


DERIVED = {}        # symbol id -> ("mod"|"div", base polynomial, divisor): values determined by other symbols
_derived = {}


def derived(op, base, k):
    """a symbol for base mod k / base div k (base >= 0, k > 0 constants or bounded), opaque but for its range"""
    if not isinstance(base, Poly):
        return base % k if op == "mod" else base // k
    key = (op, base.key(), k)
    r = _derived.get(key)
    if r is None:
        hi = bounds(base)[1]
        if op == "mod":
            S = Sym("mod", 0, k - 1 if hi is None else min(k - 1, int(hi)))
        else:
            S = Sym("div", 0, None if hi is None else int(hi) // k)
        DERIVED[S.id] = (op, base, k)
        r = _derived[key] = sym_poly(S)
    return r


def deep_syms(p):
    """symbols of p, including those its derived symbols are computed from"""
    r = set(syms(p))
    if DERIVED:
        todo = [s for s in r if s in DERIVED]
        while todo:
            for s in syms(DERIVED[todo.pop()][1]):
                if s not in r:
                    r.add(s)
                    if s in DERIVED:
                        todo.append(s)
    return r


def _subst_derived(p, mp):
    out = None
    for s in syms(p):
        if s in DERIVED and s not in mp:
            op, base, k = DERIVED[s]
            nb = subst(base, mp)
            if nb is not base and nb != base:
                if out is None:
                    out = dict(mp)
                out[s] = derived(op, nb, k)
    return out or mp


def subst(p, mp):
    """substitute symbols (ids) by polys"""
    if not isinstance(p, Poly):
        return p
    if DERIVED:
        mp = _subst_derived(p, mp)
    if not any(s in mp for m in p.t for s, e in m):
        return p
    r = 0
    for m, c in p.t.items():
        term = Poly({(): c}) if isinstance(c, Fraction) else c
        keep = []
        for s, e in m:
            if s in mp:
                v = mp[s]
                if e < 0:
                    v = pinv(v)
                    if v is None:
                        raise ValueError("negative power substitution")
                    e = -e
                for _ in range(e):
                    term = pmul(term, v)
            else:
                keep.append((s, e))
        if keep:
            term = pmul(term, Poly({tuple(keep): 1}))
        r = padd(r, term)
    return r


def pinv(v):
    if isinstance(v, Poly):
        if len(v.t) != 1:
            return None
        (m, c), = v.t.items()
        return Poly({tuple((s, -e) for s, e in m): _norm(Fraction(1) / c)})
    if v == 0:
        return None
    if v == 1:
        return 1
    return Poly({(): Fraction(1, v)})


def padd(a, b):
    if isinstance(a, Poly):
        return a + b
    if isinstance(b, Poly):
        return b + a
    return a + b


def psub(a, b):
    return padd(a, pneg(b))


def pneg(a):
    return -a


def pmul(a, b):
    if isinstance(a, Poly):
        return a * b
    if isinstance(b, Poly):
        return b * a
    return a * b


def pconst(p):
    """constant term"""
    if isinstance(p, Poly):
        return p.t.get((), 0)
    return p


def lin(p):
    """affine view: (const, {sym: coef}) or None when p is not affine in single symbols"""
    if not isinstance(p, Poly):
        return p, {}
    c0 = 0
    d = {}
    for m, c in p.t.items():
        if not m:
            c0 = c
        elif len(m) == 1 and m[0][1] == 1:
            d[m[0][0]] = c
        else:
            return None
    return c0, d


def coef_of(p, s):
    """p = a*s + b with a, b free of s; None if higher degree in s"""
    if not isinstance(p, Poly):
        return 0, p
    a = {}
    b = {}
    for m, c in p.t.items():
        e = 0
        rest = []
        for (i, k) in m:
            if i == s:
                e = k
            else:
                rest.append((i, k))
        if e == 0:
            b[m] = c
        elif e == 1:
            a[tuple(rest)] = c
        else:
            return None
    return Poly.mk(a), Poly.mk(b)


def exact_div(p, d):
    """p/d when the quotient is integer valued by construction, else None. d int or single-monomial Poly."""
    if not isinstance(d, Poly):
        if d == 0:
            return None
        if not isinstance(p, Poly):
            return p // d if p % d == 0 else None
        t = {m: _norm(Fraction(c) / d) for m, c in p.t.items()}
        q = Poly.mk(t)
        if int_valued(q):
            return q
        return None
    if p == 0:
        return 0
    if len(d.t) == 1:
        (m, c), = d.t.items()
        inv = tuple((s, -e) for s, e in m)
        pp = p if isinstance(p, Poly) else Poly({(): p})
        t = {}
        for m2, c2 in pp.t.items():
            mm = _mmul(m2, inv)
            if any(e < 0 for _, e in mm):
                return None
            t[mm] = _norm(Fraction(c2) / c)
        q = Poly.mk(t)
        return q if int_valued(q) else None
    # general: try p == k*d
    if isinstance(p, Poly):
        m0 = next(iter(d.t))
        if m0 in p.t:
            k = _norm(Fraction(p.t[m0]) / d.t[m0])
            if isinstance(k, int) and pmul(d, k) == p:
                return k
        # polynomial long division by leading monomial in the largest symbol
        return _longdiv(p, d)
    return None


def _longdiv(p, d):
    def lead(x):
        return max(x.t, key=lambda m: (sum(e for _, e in m), m))
    q = 0
    r = p
    ld = lead(d)
    for _ in range(40):
        if r == 0:
            return q if int_valued(q) else None
        if not isinstance(r, Poly):
            return None
        lr = lead(r)
        mm = _mmul(lr, tuple((s, -e) for s, e in ld))
        if any(e < 0 for _, e in mm):
            return None
        c = _norm(Fraction(r.t[lr]) / d.t[ld])
        term = Poly.mk({mm: c})
        q = padd(q, term)
        r = psub(r, pmul(term, d))
    return None


def int_valued(q):
    """is the polynomial integer valued on all integers?  (coefficients integral, or u(u+1)/2-like)"""
    if not isinstance(q, Poly):
        return isinstance(q, int)
    if all(isinstance(c, int) for c in q.t.values()):
        return all(e >= 0 for m in q.t for _, e in m)
    # an integer-valued polynomial with denominators D is decided by its values modulo D on a full residue box
    dens = 1
    for c in q.t.values():
        if isinstance(c, Fraction):
            dens = dens * c.denominator // gcd(dens, c.denominator)
    ss = sorted(syms(q))
    if any(e < 0 for m in q.t for _, e in m):
        return False
    frac = {m: c for m, c in q.t.items() if isinstance(c, Fraction)}
    ss = sorted({s for m in frac for s, _ in m})
    deg = max([sum(e for _, e in m) for m in frac] + [1])
    if len(ss) > 3:
        return False
    # values on {0..deg}^n decide integrality of all values (Newton basis)
    import itertools
    for pt in itertools.product(range(deg + 1), repeat=len(ss)):
        env = dict(zip(ss, pt))
        v = Fraction(0)
        for m, c in frac.items():
            x = Fraction(c)
            for s, e in m:
                x *= env[s] ** e
            v += x
        if v.denominator != 1:
            return False
    return True


def evalp(p, env):
    if not isinstance(p, Poly):
        return p
    v = 0
    for m, c in p.t.items():
        x = c
        for s, e in m:
            x = x * (env[s] ** e)
        v = v + x
    return v


# ---------------------------------------------------------------- ranges
class Unbounded(Exception):
    pass


def sign(p):
    """+1 if p>=0 for all parameters, -1 if p<=0, 0 if identically 0, None if unknown"""
    if not isinstance(p, Poly):
        return 0 if p == 0 else (1 if p > 0 else -1)
    try:
        lo, _ = bounds(p, want="lo")
        if lo is not None and lo >= 0:
            return 1
    except Unbounded:
        pass
    try:
        _, hi = bounds(p, want="hi")
        if hi is not None and hi <= 0:
            return -1
    except Unbounded:
        pass
    return None


def hull(p):
    """(lo, hi) by interval arithmetic over the symbols' own hulls; None where unknown.  Coarse but cheap"""
    if not isinstance(p, Poly):
        return p, p
    lo = hi = 0
    for m, c in p.t.items():
        a = b = 1
        for s, e in m:
            S = Sym.table[s]
            h = S.hull
            if h is None:
                l = hull(S.lo)[0] if S.lo is not None else None
                u = hull(S.hi)[1] if S.hi is not None else None
                h = S.hull = (l, u)
            if h[0] is None or h[1] is None or e < 0:
                return None, None
            for _ in range(e):
                if a >= 0 and h[0] >= 0:
                    a, b = a * h[0], b * h[1]
                else:
                    q = (a * h[0], a * h[1], b * h[0], b * h[1])
                    a, b = min(q), max(q)
        if c >= 0:
            lo += c * a
            hi += c * b
        else:
            lo += c * b
            hi += c * a
    return lo, hi


_bcache = {}


def bounds(p, want="both"):
    """numeric (lo, hi) of p over all symbol values; None where unbounded/unknown"""
    if not isinstance(p, Poly):
        return p, p
    k = p.key()
    r = _bcache.get(k)
    if r is None:
        r = _linear(p) or (_extreme(p, +1, 0), _extreme(p, -1, 0))
        if len(_bcache) > 200000:
            _bcache.clear()
        _bcache[k] = r
    return r


def _linear(p):
    """exact bounds of a linear form over symbols with constant ranges"""
    lo = hi = 0
    for m, c in p.t.items():
        if not m:
            lo += c
            hi += c
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        S = Sym.table[m[0][0]]
        if type(S.lo) is not int or type(S.hi) is not int:
            return None
        if c > 0:
            lo += c * S.lo
            hi += c * S.hi
        else:
            lo += c * S.hi
            hi += c * S.lo
    return lo, hi


def _extreme(p, dirn, depth):
    """dirn=+1: lower bound, -1: upper bound. Eliminates youngest symbols first."""
    if not isinstance(p, Poly):
        return p
    if depth > 12:
        return None
    ss = sorted(syms(p), reverse=True)
    if any(e < 0 for m in p.t for _, e in m):
        return None
    for s in ss:
        S = Sym.table[s]
        ca = coef_of(p, s)
        if ca is None:
            # degree >= 2: monotone in s over its range?  (sign of the forward difference)
            if S.lo is None or S.hi is None:
                continue
            F = Sym("d", S.lo, psub(S.hi, 1))
            fp = sym_poly(F)
            d = psub(subst(p, {s: padd(fp, 1)}), subst(p, {s: fp}))
            l = _extreme(d, +1, depth + 3)
            if l is not None and l >= 0:
                bound = S.lo if dirn > 0 else S.hi
            else:
                h = _extreme(d, -1, depth + 3)
                if h is None or h > 0:
                    continue
                bound = S.hi if dirn > 0 else S.lo
            r = _extreme(subst(p, {s: bound}), dirn, depth + 1)
            if r is None:
                continue
            return r
        a, b = ca
        if is_const(a) or not syms(a):
            av = a if is_const(a) else pconst(a)
            sg = 1 if av > 0 else -1
            bound = (S.lo if sg * dirn > 0 else S.hi)
            if bound is None:
                # parameter without that bound
                return None
            return _extreme(padd(pmul(a, bound), b), dirn, depth + 1)
        la = _extreme(a, +1, depth + 1)
        if la is not None and la >= 0:
            bound = S.lo if dirn > 0 else S.hi
        else:
            ha = _extreme(a, -1, depth + 1)
            if ha is not None and ha <= 0:
                bound = S.hi if dirn > 0 else S.lo
            else:
                continue
        if bound is None:
            continue
        return _extreme(padd(pmul(a, bound), b), dirn, depth + 1)
    # last resort: parameters with numeric lower bound: shift and look at coefficient signs
    q = p
    for s in ss:
        S = Sym.table[s]
        if isinstance(S.lo, int):
            q = subst(q, {s: padd(sym_poly(S), S.lo)}) if S.lo else q
        else:
            return None
    if not isinstance(q, Poly):
        return q
    cs = [c for m, c in q.t.items() if m]
    if dirn > 0 and all(c >= 0 for c in cs):
        return pconst(q)
    if dirn < 0 and all(c <= 0 for c in cs):
        return pconst(q)
    return None


def ge0(p):
    """provably p >= 0"""
    lo = bounds(p)[0]
    return lo is not None and lo >= 0


def content(p):
    """largest g found such that the non-constant part of p is always a multiple of g (values, not coefficients)"""
    if not isinstance(p, Poly):
        return 0
    g = 0
    for m, c in p.t.items():
        if m:
            if type(c) is not int or len(m) != 1 or m[0][1] != 1:
                break
            g = gcd(g, c)
    else:
        return g
    q = {m: c for m, c in p.t.items() if m}
    num, den = 0, 1
    for m, c in q.items():
        if any(e < 0 for _, e in m):
            return 0
        c = Fraction(c)
        num = gcd(num * c.denominator, c.numerator * den)
        den = den * c.denominator
        k = gcd(num, den)
        num //= k
        den //= k
    g = Fraction(num, den)
    quad = any(sum(e for _, e in m) > 1 for m in q)
    if quad:
        for _ in range(3):
            if int_valued(Poly({m: _norm(Fraction(c) / (g * 2)) for m, c in q.items()})):
                g *= 2
            else:
                break
    return g.numerator if g.denominator == 1 else 0
