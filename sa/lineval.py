"""Deciding equality of the derived store summaries with a mathematical transform when no closed-form composition is available.

The abstract interpreter leaves, per memory region, an ordered list of closed-form clauses
    region[offset(i)] := sum_k coef_k(i) * region_k[idx_k(i)]      for all i in a box / triangle
whose composition is a fixed linear map (the coefficients never depend on the data).  Two linear maps are equal iff they agree on a
generic vector (Freivalds); the composition is therefore expanded on one random vector, vectorised over each clause's index set."""
from fractions import Fraction
import math
import numpy as np
from . import ring
from .interp import SCRATCH, Unsupported, UNDEF
from .poly import DERIVED, Poly, Sym, is_const, syms, deep_syms


LIMIT = 1 << 25


class Env:
    """values of the symbols on a flattened index set"""

    def __init__(self, n, vals, parent=None):
        self.n = n
        self.v = vals
        self.th = {}
        self.cells = {}
        self.atoms = {}

    def sym(self, s):
        r = self.v.get(s)
        if r is None:
            d = DERIVED.get(s)
            if d is None:
                raise Unsupported("evaluation: free symbol %r" % (Sym.table[s],))
            op, base, k = d
            b = self.ints(base)
            r = self.v[s] = b % k if op == "mod" else b // k
        return r

    def ints(self, p):
        """integer valued polynomial"""
        if not isinstance(p, Poly):
            return p
        den = 1
        for c in p.t.values():
            if isinstance(c, Fraction):
                den = den * c.denominator // math.gcd(den, c.denominator)
        tot = 0
        for m, c in p.t.items():
            x = int(c * den)
            for s, e in m:
                if e < 0:
                    raise Unsupported("evaluation: negative power")
                v = self.sym(s)
                for _ in range(e):
                    x = x * v
            tot = tot + x
        return tot // den if den != 1 else tot

    def E(self, i):
        """exp(-2 pi i theta_i)"""
        r = self.th.get(i)
        if r is None:
            p = ring.theta_poly(i)
            den = 1
            for c in p.t.values():
                if isinstance(c, Fraction):
                    den = den * c.denominator // math.gcd(den, c.denominator)
            if den == 1:
                r = 1.0
            else:
                tot = 0
                for m, c in p.t.items():
                    x = int(c * den) % den
                    for s, e in m:
                        if e < 0:
                            raise Unsupported("evaluation: negative power in an angle")
                        v = self.sym(s)
                        for _ in range(e):
                            x = (x * v) % den
                    tot = tot + x
                tot = tot % den
                r = np.exp(tot * (-2j * math.pi / den))
            self.th[i] = r
        return r


def expand(binders, outer=None):
    """flattened index set of nested inclusive ranges; outer: Env to extend (values repeated) -> (Env, parent index or None)"""
    n = outer.n if outer else 1
    vals = dict(outer.v) if outer else {}
    pidx = np.arange(n) if outer else None
    env = Env(n, vals)
    todo = list(binders)
    # a binder may depend on others of the list: smallest id first among the ready ones
    while todo:
        for b in todo:
            S = Sym.table[b]
            need = (set(deep_syms(S.lo)) | set(deep_syms(S.hi))) & set(todo)
            if not need:
                break
        else:
            raise Unsupported("evaluation: cyclic ranges")
        todo.remove(b)
        lo, hi = env.ints(S.lo), env.ints(S.hi)
        if np.ndim(lo) == 0 and np.ndim(hi) == 0:
            k = int(hi) - int(lo) + 1
            if k <= 0:
                k = 0
            if k * env.n > LIMIT:
                raise Unsupported("evaluation: index set too large")
            rep = np.repeat(np.arange(env.n), k) if env.n > 1 or outer else None
            new = np.tile(np.arange(int(lo), int(lo) + k), env.n)
        else:
            lo = np.broadcast_to(np.asarray(lo), (env.n,))
            hi = np.broadcast_to(np.asarray(hi), (env.n,))
            cnt = np.maximum(hi - lo + 1, 0)
            if int(cnt.sum()) > LIMIT:
                raise Unsupported("evaluation: index set too large")
            rep = np.repeat(np.arange(env.n), cnt)
            start = np.cumsum(cnt) - cnt
            new = np.arange(int(cnt.sum())) - np.repeat(start, cnt) + np.repeat(lo, cnt)
        if rep is not None:
            vals = {s: (v[rep] if np.ndim(v) else v) for s, v in env.v.items()}
            if pidx is not None:
                pidx = pidx[rep]
        else:
            vals = dict(env.v)
        vals[b] = new
        env = Env(len(new), vals)
    return env, pidx


class Expansion:
    def __init__(self, it, inputs):
        """inputs: {region: float array}"""
        self.it = it
        self.cur = {}          # region id -> (array, version)
        self.snap = {}         # (region id, version) -> array
        self.size = {}
        for r in it.regions:
            if r.cells is None and is_const(r.size if r.size is not None else 0):
                self.size[r.id] = int(r.size or 0) // 8
        for r, v in inputs.items():
            self.cur[r.id] = (v, 0)
        ents = []
        for r in it.regions:
            if r.cells is None:
                ents += [e for e in r.entries if e.val is not SCRATCH]
        ents.sort(key=lambda e: e.eid)
        self.ents = ents
        self.last = {}
        for k, e in enumerate(ents):
            for key in self.uses(e.val):
                self.last[key] = k

    def uses(self, v, out=None):
        out = set() if out is None else out
        if isinstance(v, tuple):
            for x in v:
                self.uses(x, out)
        elif isinstance(v, ring.DVal):
            for m in v.d:
                for a, e in ring.mono(m):
                    at = ring.atom(a)
                    if at[0] == "cell":
                        out.add((at[1], at[2]))
                    elif at[0] == "sum":
                        self.uses(ring.sum_body(at), out)
        return out

    def array(self, rid, ver):
        a = self.snap.get((rid, ver))
        if a is not None:
            return a
        c = self.cur.get(rid)
        if c is None:
            if rid not in self.size:
                raise Unsupported("evaluation: contents of a private region")
            c = self.cur[rid] = (np.full(self.size[rid], np.nan), 0)
        if c[1] == ver:
            return c[0]
        raise Unsupported("evaluation: version %d of region %d not kept" % (ver, rid))

    def run(self):
        env = None
        key = None
        for k, e in enumerate(self.ents):
            vals = e.val if isinstance(e.val, tuple) else (e.val,)
            if not all(isinstance(v, ring.DVal) or v is UNDEF for v in vals):
                continue            # integer tables are resolved symbolically
            if env is None or key != tuple(e.binders or ()):
                key = tuple(e.binders or ())
                env, _ = expand(key)
            env.cells.clear()
            if env.n == 0:
                continue
            off = env.ints(e.off)
            out = []
            for v in vals:
                out.append(np.nan if v is UNDEF else self.value(env, v))
            rid = e.region.id
            arr = self.array(rid, self.cur[rid][1] if rid in self.cur else 0)
            ver = self.cur[rid][1]
            if self.last.get((rid, ver), -1) > k:
                self.snap[(rid, ver)] = arr
                arr = arr.copy()
            es = e.size // len(vals)
            for j, v in enumerate(out):
                idx = (off + j * es) // 8
                if np.ndim(idx) == 0:
                    if np.ndim(v):
                        v = v[0]
                    arr[idx] = v
                else:
                    arr[idx] = v
            self.cur[rid] = (arr, e.eid)
            for kk in [x for x in self.snap if self.last.get(x, -1) <= k]:
                del self.snap[kk]

    def value(self, env, v):
        tot = 0.0
        for m, c in v.d.items():
            if len(c) == 1 and 0 in c:
                coef = c[0].real if not c[0].imag else c[0]
            else:
                coef = 0
                for i, w in c.items():
                    coef = coef + (w * env.E(i) if i else w)
                coef = np.real(coef)
            x = coef
            for a, e in ring.mono(m):
                x = x * self.atom(env, a, e)
            tot = tot + x
        return np.real(tot)

    def atom(self, env, a, e):
        at = ring.atom(a)
        r = env.atoms.get(a) if at[0] == "sym" else env.cells.get(a)
        if r is None:
            if at[0] == "sym":
                r = np.asarray(env.sym(at[1]), dtype=float)
                env.atoms[a] = r
            elif at[0] == "cell":
                arr = self.array(at[1], at[2])
                r = arr[env.ints(at[3])]
                env.cells[a] = r
            elif at[0] == "sum":
                r = self.total(env, at)
                env.cells[a] = r
            else:
                raise Unsupported("evaluation: %r" % (at,))
        return r if e == 1 else r ** float(e)

    def total(self, env, at):
        """sum atom on the index set of env, in slices of bounded size"""
        span = 1
        for b in at[1]:
            S = Sym.table[b]
            hi, lo = env.ints(S.hi), env.ints(S.lo)
            span *= max(1, int(np.max(np.asarray(hi) - np.asarray(lo))) + 1)
        step = max(1, (1 << 21) // span)
        out = np.empty(env.n)
        ids = list(env.v)
        for s in range(0, env.n, step):
            t = min(env.n, s + step)
            sub = Env(t - s, {k: (env.v[k][s:t] if np.ndim(env.v[k]) else env.v[k]) for k in ids})
            e2, pidx = expand(at[1], sub)
            x = np.broadcast_to(self.value(e2, ring.sum_body(at)), (e2.n,))
            out[s:t] = np.bincount(pidx, weights=x, minlength=t - s)
        return out

    def final(self, r):
        c = self.cur.get(r.id)
        return c[0] if c is not None else np.full(self.size[r.id], np.nan)


# ---------------------------------------------------------------------------------------------------------------- references
SCALES = {"fwd": -1.0, "fwdn": -1.0, "fwd0": 0.0, "fwdu": -0.5, "inv": 0.0, "inv0": 0.0, "invu": -0.5, "invn": -1.0}


def reference(kind, m, n, rng):
    """-> (inputs {name: array of doubles}, output name, expected doubles)"""
    s = float(n) ** SCALES[m]
    if kind in ("ComplexFFT", "BluesteinFFT"):
        x = rng.standard_normal(n) + 1j * rng.standard_normal(n)
        y = (np.fft.fft(x) if m.startswith("fwd") else np.fft.ifft(x) * n) * s
        return {"x": dbl(x)}, "x", dbl(y)
    if kind == "RealFFT":
        x = rng.standard_normal(n)
        if m.startswith("fwd"):
            return {"x": x.copy()}, "y", dbl(np.fft.fft(x) * s)
        y = np.fft.fft(x)
        return {"x": dbl(y)}, "y", np.real(np.fft.ifft(y)) * n * s
    if kind == "DCT":
        x = rng.standard_normal(n)
        k = np.arange(n)
        # c * sum_j x_j cos(pi (2j+1) k / 2n) through a 4n-point DFT
        z = np.zeros(4 * n)
        z[1:2 * n:2] = x
        y = np.real(np.fft.fft(z)[:n])
        if m.startswith("fwd"):
            return {"x": x.copy()}, "x", y * s
        # inverse: its composition with the complementary forward is the identity
        return {"x": y}, "x", x * n * s
    raise Unsupported("no reference for " + kind)


def dbl(z):
    return np.ascontiguousarray(z).view(float).copy()
