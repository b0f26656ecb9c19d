"""Real-number domain: DVal = finite sums  coef * monomial  where a monomial is a product of atoms
(array cells, real images of integer symbols) and coef lies in the group ring C[E(theta)], E(t)=exp(-2*pi*i*t),
theta an integer-symbol polynomial modulo 1.  All DVals denote real numbers, so coefs are closed under conjugation.
"""
from fractions import Fraction
import cmath
import math
from .poly import Poly, Sym, _norm, padd, pneg, pmul, subst, is_const, syms, deep_syms, hull

# ------------------------------------------------------------------ theta interning
_th = {}       # key -> id
_thp = []      # id -> Poly or 0
_tadd = {}
_tneg = {}


def reset():
    _th.clear()
    del _thp[:]
    _tadd.clear()
    _tneg.clear()
    _atoms.clear()
    del _atomv[:]
    _mono.clear()
    del _monov[:]
    del _sums[:]
    _sumk.clear()
    _mmulc.clear()
    _intern((), 0)
    mono_id(())


def _intern(k, p):
    i = _th.get(k)
    if i is None:
        i = len(_thp)
        _th[k] = i
        _thp.append(p)
    return i


def theta(p):
    """-> (id of the non-constant part reduced mod 1, constant part as Fraction in [0,1))"""
    if not isinstance(p, Poly):
        return 0, Fraction(p) % 1
    t = {}
    c0 = Fraction(0)
    for m, c in p.t.items():
        if not m:
            c0 = Fraction(c) % 1
        elif all(e > 0 for _, e in m):
            c = _norm(Fraction(c) % 1)
            if c != 0:
                t[m] = c
        else:
            t[m] = c
    if not t:
        return 0, c0
    q = Poly(t)
    return _intern(q.key(), q), c0


def theta_poly(i):
    return _thp[i]


def _theta_add(a, b):
    if a == 0:
        return b, 0
    if b == 0:
        return a, 0
    k = (a, b) if a < b else (b, a)
    r = _tadd.get(k)
    if r is None:
        i, c = theta(padd(_thp[a], _thp[b]))
        assert c == 0
        r = (i, 0)
        _tadd[k] = r
    return r


def _theta_neg(a):
    if a == 0:
        return 0
    r = _tneg.get(a)
    if r is None:
        r, c = theta(pneg(_thp[a]))
        _tneg[a] = r
    return r


_Q = {Fraction(0): 1 + 0j, Fraction(1, 4): -1j, Fraction(1, 2): -1 + 0j, Fraction(3, 4): 1j}


def econst(c):
    r = _Q.get(c)
    if r is None:
        # use symmetric evaluation for accuracy
        x = -2 * math.pi * float(c)
        r = complex(math.cos(x), math.sin(x))
        _Q[c] = r
    return r


# ------------------------------------------------------------------ ring elements (dict theta_id -> complex)
TOL = 1e-12


def c_add(a, b, sb=1):
    r = dict(a)
    for k, v in b.items():
        o = r.get(k)
        if o is None:
            r[k] = v * sb
        else:
            n = o + v * sb
            if abs(n) <= TOL * (abs(o) + abs(v)):
                del r[k]
            else:
                r[k] = n
    return r


def c_mul(a, b):
    if len(a) == 1 and 0 in a:
        s = a[0]
        return {k: v * s for k, v in b.items()}
    if len(b) == 1 and 0 in b:
        s = b[0]
        return {k: v * s for k, v in a.items()}
    r = {}
    mag = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            k, _ = _theta_add(k1, k2)
            v = v1 * v2
            if k in r:
                r[k] += v
                mag[k] += abs(v)
            else:
                r[k] = v
                mag[k] = abs(v)
    return {k: v for k, v in r.items() if abs(v) > TOL * mag[k]}


def c_scale(a, s):
    return {k: v * s for k, v in a.items()}


def c_conj(a):
    return {_theta_neg(k): v.conjugate() for k, v in a.items()}


def c_close(a, b, tol=1e-12):
    m = max([abs(v) for v in a.values()] + [abs(v) for v in b.values()] + [0.0])
    for k in set(a) | set(b):
        if abs(a.get(k, 0) - b.get(k, 0)) > tol * m:
            return False
    return True


def c_E(p):
    """E(p) as ring element"""
    i, c = theta(p)
    return {i: econst(c)}


def c_cos(p):
    i, c = theta(p)
    e = econst(c)
    if i == 0:
        return {0: complex(e.real, 0)}
    return {i: e / 2, _theta_neg(i): e.conjugate() / 2}


def c_sin(p):
    """sin(2 pi p) = (E(-p)-E(p))/(2i)"""
    i, c = theta(p)
    e = econst(c)
    if i == 0:
        v = -e.imag
        return {0: complex(v, 0)} if v else {}
    return {i: e * 0.5j, _theta_neg(i): e.conjugate() * (-0.5j)}


# ------------------------------------------------------------------ atoms and monomials
_atoms = {}
_atomv = []
_sums = []          # bodies of sum atoms
_sumk = {}
_mono = {}
_monov = []
_mmulc = {}


def atom_id(a):
    i = _atoms.get(a)
    if i is None:
        i = len(_atomv)
        _atoms[a] = i
        _atomv.append(a)
    return i


def atom(i):
    return _atomv[i]


def mono_id(m):
    i = _mono.get(m)
    if i is None:
        i = len(_monov)
        _mono[m] = i
        _monov.append(m)
    return i


def mono(i):
    """tuple of (atom id, exponent)"""
    return _monov[i]


def m_mul(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    k = (a, b) if a < b else (b, a)
    r = _mmulc.get(k)
    if r is None:
        d = dict(_monov[a])
        for x, e in _monov[b]:
            n = d.get(x, 0) + e
            if n:
                d[x] = n
            else:
                del d[x]
        r = mono_id(tuple(sorted(d.items())))
        _mmulc[k] = r
    return r


# DVal: dict mono_id -> ring element ; kept canonical (no empty coefs)
class DVal:
    __slots__ = ("d", "f", "k")

    def __init__(self, d, f=None, k=0):
        self.d = d
        self.k = k      # length of the longest chain of rounded operations from the atoms and constants to this value (upper bound)
        self.f = f      # source float when a plain constant (keeps exact value)

    def __repr__(self):
        return show(self)


def d_const(v):
    if v == 0:
        return DVal({}, 0.0)
    return DVal({0: {0: complex(v, 0)}}, float(v))


_lit = {}
KNOWN = None


def literal(v):
    """a constant written in the source; one that stands for a root of unity's coordinate (or the square root of 2 or 3) but is off by more than its rounding counts as that many rounded operations"""
    r = d_const(v)
    if v:
        k = _lit.get(v)
        if k is None:
            k = _lit[v] = _literal_k(v)
        r.k = k
    return r


def _literal_k(v):
    global KNOWN
    if KNOWN is None:
        KNOWN = sorted({abs(math.cos(2 * math.pi * j / n)) for n in list(range(3, 33)) + [64, 128] for j in range(n)} | {math.sqrt(2) / 2, math.sqrt(3) / 2})
        KNOWN = [x for x in KNOWN if 1e-3 < x < 1 - 1e-9 and abs(x - 0.5) > 1e-9]
    m = math.frexp(abs(v))[0]
    worst = 0
    for x in KNOWN:
        y = math.frexp(x)[0]
        e = abs(m / y - 1)
        if e <= 4.5e-16:
            return 0
        if e <= 1e-6:
            worst = max(worst, math.ceil(e / 1.1e-16))
    return worst


def d_atom(a, e=1):
    return DVal({mono_id(((atom_id(a), e),)): {0: 1 + 0j}})


def const_of(x):
    """float value if numeric constant else None"""
    if not x.d:
        return 0.0
    if len(x.d) == 1 and 0 in x.d:
        c = x.d[0]
        if len(c) == 1 and 0 in c:
            return c[0].real
    return None


def d_add(a, b, sb=1):
    if not a.d:
        return b if sb == 1 else d_neg(b)
    if not b.d:
        return a
    r = dict(a.d)
    for m, c in b.d.items():
        o = r.get(m)
        if o is None:
            r[m] = c if sb == 1 else {k: -v for k, v in c.items()}
        else:
            n = c_add(o, c, sb)
            if n:
                r[m] = n
            else:
                del r[m]
    return DVal(r, None, (a.k if a.k > b.k else b.k) + 1)


def d_neg(a):
    return DVal({m: {k: -v for k, v in c.items()} for m, c in a.d.items()}, None, a.k)


def exact_scale(s):
    """multiplication by s only changes sign and exponent"""
    return abs(math.frexp(s)[0]) == 0.5


def d_scale(a, s):
    if s == 0:
        return DVal({}, 0.0)
    return DVal({m: {k: v * s for k, v in c.items()} for m, c in a.d.items()}, None, a.k if exact_scale(s) else a.k + 1)


def d_mul(a, b):
    ca = const_of(a)
    if ca is not None:
        r = d_scale(b, ca)
        r.k = max(r.k, a.k + 1) if a.k else r.k
        return r
    cb = const_of(b)
    if cb is not None:
        r = d_scale(a, cb)
        r.k = max(r.k, b.k + 1) if b.k else r.k
        return r
    r = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = m_mul(m1, m2)
            c = c_mul(c1, c2)
            if m in r:
                c = c_add(r[m], c)
            if c:
                r[m] = c
            else:
                r.pop(m, None)
    return DVal(r, None, (a.k if a.k > b.k else b.k) + 1)


def d_inv(a):
    c = const_of(a)
    if c is not None:
        if c == 0:
            return None
        r = d_const(1.0 / c)
        r.k = a.k if exact_scale(c) else a.k + 1
        return r
    if len(a.d) == 1:
        (m, c), = a.d.items()
        if len(c) == 1 and 0 in c:
            return DVal({mono_id(tuple(sorted((x, -e) for x, e in _monov[m]))): {0: 1 / c[0]}}, None, a.k + 1)
    return None


def d_sqrt(a):
    c = const_of(a)
    if c is not None:
        if c < 0:
            return None
        r = d_const(math.sqrt(c))
        r.k = a.k + 1
        return r
    if len(a.d) == 1:
        (m, c), = a.d.items()
        if len(c) == 1 and 0 in c and abs(c[0].imag) == 0 and c[0].real > 0:
            ok = all(_atomv[x][0] == "sym" for x, e in _monov[m])
            if ok:
                return DVal({mono_id(tuple(sorted((x, _norm(Fraction(e) / 2)) for x, e in _monov[m]))): {0: complex(math.sqrt(c[0].real), 0)}}, None, a.k + 1)
        w = half_angle(c) if m == 0 else None
        if w is not None:
            A, s, p = w[:3]
            h = c_cos(pmul(p, Fraction(1, 2))) if s > 0 else c_sin(pmul(p, Fraction(1, 2)))
            lo, hi = hull(p)
            if lo is None or hi is None:
                return None
            # sign of cos(p/2) (s > 0) or sin(p/2): the half angle, in turns, shifted so that the sign changes at multiples of 1/2
            lo, hi = Fraction(lo) / 2, Fraction(hi) / 2
            if s > 0:
                lo, hi = lo + Fraction(1, 4), hi + Fraction(1, 4)
            n = math.floor(2 * lo)
            if 2 * hi > n + 1:
                return None
            return DVal({0: c_scale(h, math.sqrt(2 * A) * (-1 if n % 2 else 1))}, None, a.k + 1)
    return None


def step_sum(z, f, k, n):
    """z + k*f, computed by up to n additions"""
    if not isinstance(z, DVal):
        return z
    r = d_add(z, d_mul(f, d_int(k)))
    return DVal(r.d, None, max(z.k, f.k) + n)


def as_turn(u):
    """u = E(P): P, else None"""
    if len(u) != 1:
        return None
    (i, c), = u.items()
    if abs(abs(c) - 1) > 1e-12:
        return None
    w = -cmath.phase(c) / (2 * math.pi)
    q = Fraction(w).limit_denominator(1 << 22)
    if abs(float(q) - w) > 1e-15:
        return None
    return padd(theta_poly(i), _norm(q)) if i else _norm(q)


def half_angle(c):
    """c = A + s*A*cos(p), s = +1 or -1: (A, s, p, smallest value of c over A); else None"""
    if len(c) != 3 or 0 not in c:
        return None
    x, y = [i for i in c if i]
    A = c[0]
    if A.imag or A.real <= 0 or abs(c[x] - c[y]) > 1e-13 * abs(A) or abs(abs(c[x]) * 2 - A.real) > 1e-13 * abs(A) or abs(c[x].imag) > 1e-13 * abs(A):
        return None
    if _theta_neg(x) != y:
        return None
    p = Poly.mk({m: _norm(v - 1) if 2 * v > 1 and all(e > 0 for _, e in m) else v for m, v in theta_poly(x).t.items()})
    s = 1 if c[x].real > 0 else -1
    lo, hi = hull(p)
    least = 0.0
    if lo is not None and hi is not None:
        # the zeros are at p = 1/2 (s > 0) or 0 (s < 0), modulo a turn
        z = Fraction(1, 2) if s > 0 else 0
        k = math.ceil(lo - z)
        if k + z > hi:
            least = min(1 + s * math.cos(2 * math.pi * float(q)) for q in (lo, hi))
    return A.real, s, p, least


def d_int(p):
    """real image of an integer polynomial"""
    if not isinstance(p, Poly):
        return d_const(float(p))
    r = {}
    for m, c in p.t.items():
        k = mono_id(tuple(sorted((atom_id(("sym", s)), e) for s, e in m)))
        r[k] = {0: complex(float(c), 0)}
    return DVal(r)


def to_angle(x, near=False):
    """x = 2*pi*P for a polynomial P with rational coefficients: return P, else None.  near: constants that are off by up to 1e-6"""
    t = {}
    for m, c in x.d.items():
        if len(c) != 1 or 0 not in c:
            return None
        v = c[0]
        if v.imag != 0:
            return None
        r = v.real / (2 * math.pi)
        fr = rat(r)
        if fr is None and near:
            fr = rat_near(r)
        if fr is None:
            return None
        mm = []
        for a, e in _monov[m]:
            at = _atomv[a]
            if at[0] != "sym":
                return None
            if not isinstance(e, int):
                return None
            mm.append((at[1], e))
        t[tuple(sorted(mm))] = _norm(fr)
    return Poly.mk(t)


def rat(r, tol=4e-15):
    """recognise a dyadic-times-small rational, or one with a denominator small enough to be unambiguous"""
    if r == 0:
        return Fraction(0)
    m, e = math.frexp(abs(r))          # r = m * 2^e, 0.5<=m<1
    for d in (1, 3, 5, 7, 9, 15):
        x = m * d
        f = Fraction(round(x * 4096), 4096)
        if abs(float(f) - x) <= tol * x:
            v = f / d * Fraction(2) ** e
            return v if r > 0 else -v
    k = round(1 / abs(r))
    if k and abs(1.0 / k - abs(r)) <= 4e-16 * abs(r):
        return Fraction(1, k) if r > 0 else Fraction(-1, k)
    for lim in (1 << 12, 1 << 20, 1 << 24):
        f = Fraction(abs(r)).limit_denominator(lim)
        if f and abs(float(f) - abs(r)) <= 8e-16 * abs(r) and f.numerator < 64:
            return f if r > 0 else -f
    return None


def rat_near(r):
    """the simple fraction a slightly wrong constant stands for"""
    for q in (1, 2, 3, 5):
        k = round(q / abs(r))
        if k and abs(abs(r) * k / q - 1) <= min(1e-6, 0.01 / k):
            return Fraction(q, k) if r > 0 else Fraction(-q, k)
    f = Fraction(abs(r)).limit_denominator(16)
    if f and abs(float(f) / abs(r) - 1) <= 1e-6:
        return f if r > 0 else -f
    return None


def d_close(a, b, tol=1e-12):
    if set(a.d) != set(b.d):
        # tolerate negligible leftovers
        for m in set(a.d) ^ set(b.d):
            return False
    mx = 0.0
    for x in (a, b):
        for c in x.d.values():
            for v in c.values():
                mx = max(mx, abs(v))
    for m in a.d:
        ca, cb = a.d[m], b.d[m]
        for k in set(ca) | set(cb):
            if abs(ca.get(k, 0) - cb.get(k, 0)) > tol * mx:
                return False
    return True


def d_subst(x, mp, atom_fn=None):
    """substitute integer symbols inside coefs and atoms"""
    r = DVal({})
    for m, c in x.d.items():
        nc = {}
        for k, v in c.items():
            if k:
                i, c0 = theta(subst(_thp[k], mp))
                v = v * econst(c0)
            else:
                i = 0
            nc[i] = nc.get(i, 0) + v
        term = DVal({0: nc}) if nc else DVal({})
        for a, e in _monov[m]:
            at = _atomv[a]
            if at[0] == "sym":
                if at[1] in mp:
                    f = d_int(mp[at[1]])
                    if e < 0:
                        f = d_inv(f)
                        e = -e
                    if e == 1:
                        term = d_mul(term, f)
                    elif isinstance(e, int):
                        for _ in range(e):
                            term = d_mul(term, f)
                    else:
                        g = d_sqrt(f)
                        for _ in range(int(e * 2)):
                            term = d_mul(term, g)
                else:
                    term = DVal({m_mul(mm, mono_id(((a, e),))): cc for mm, cc in term.d.items()})
            elif at[0] == "cell":
                na = atom_fn(at) if atom_fn else ("cell", at[1], at[2], subst(at[3], mp))
                if isinstance(na, DVal):
                    for _ in range(e):
                        term = d_mul(term, na)
                else:
                    k = mono_id(((atom_id(na), e),))
                    term = DVal({m_mul(mm, k): cc for mm, cc in term.d.items()})
            elif at[0] == "sum":
                k = mono_id(((atom_id(_sum_subst(at, mp, atom_fn)), e),))
                term = DVal({m_mul(mm, k): cc for mm, cc in term.d.items()})
            else:
                term = DVal({m_mul(mm, mono_id(((a, e),))): cc for mm, cc in term.d.items()})
        r = d_add(r, term)
    if r is x:
        return x
    r.k = x.k
    return r


# ------------------------------------------------------------------ finite sums over a loop's iterations
def freeze(x):
    return tuple(sorted((m, tuple(sorted(c.items()))) for m, c in x.d.items()))


def d_sum(f, binders):
    """sum of f over all values of the binder symbols (inclusive ranges)"""
    if not f.d:
        return f
    if not binders:
        return f
    r = d_atom(_sum_atom(f, tuple(binders)))
    r.k = f.k
    return r


def _sum_atom(f, binders):
    k = repr(freeze(f))
    i = _sumk.get(k)
    if i is None:
        i = _sumk[k] = len(_sums)
        _sums.append(f)
    return ("sum", binders, i)


def sum_body(at):
    return _sums[at[2]]


def _sum_subst(at, mp, atom_fn):
    _, binders, i = at
    f = _sums[i]
    m2 = {s: v for s, v in mp.items() if s not in binders}
    nb = []
    for b in binders:
        S = Sym.table[b]
        lo, hi = subst(S.lo, m2), subst(S.hi, m2)
        if lo != S.lo or hi != S.hi:
            N = Sym(S.name, lo, hi)
            m2[b] = Poly({((N.id, 1),): 1})
            b = N.id
        nb.append(b)
    return _sum_atom(d_subst(f, m2, atom_fn), tuple(nb))


def d_syms(x):
    s = set()
    for m, c in x.d.items():
        for k in c:
            if k:
                s |= deep_syms(_thp[k])
        for a, e in _monov[m]:
            at = _atomv[a]
            if at[0] == "sym":
                s |= deep_syms(Poly({((at[1], 1),): 1}))
            elif at[0] == "cell":
                s |= set(deep_syms(at[3]))
            elif at[0] == "sum":
                inner = d_syms(_sums[at[2]])
                for b in at[1]:
                    inner |= set(syms(Sym.table[b].lo)) | set(syms(Sym.table[b].hi))
                s |= inner - set(at[1])
    return s


def has_cells(x):
    for m in x.d:
        for a, e in _monov[m]:
            if _atomv[a][0] == "cell":
                return True
            if _atomv[a][0] == "sum" and has_cells(_sums[_atomv[a][2]]):
                return True
    return False


def show(x, lim=6):
    out = []
    for m, c in list(x.d.items())[:lim]:
        cs = "+".join("(%.6g%+.6gj)E(%r)" % (v.real, v.imag, _thp[k]) for k, v in list(c.items())[:4])
        ms = "*".join("%r^%s" % (_atomv[a], e) if e != 1 else "%r" % (_atomv[a],) for a, e in _monov[m])
        out.append("[%s]*%s" % (cs, ms or "1"))
    return " + ".join(out) + (" ..." if len(x.d) > lim else "") if out else "0"


reset()
