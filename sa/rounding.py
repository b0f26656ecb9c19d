"""How rounding errors can pile up: for every store the length of the longest chain of rounded operations that leads to the stored value
from the caller's data (and from the constants and trigonometric values in the tables).  Every operation adds a relative error of at most
half an ulp, and the stages in between are unitary up to scaling, so the error of an output is at most its chain length times the unit
roundoff, times a constant, times the size of the input."""
import bisect
import math
import numpy as np
from . import lineval, ring
from .interp import Unsupported
from .poly import is_const


def prime_factors(n):
    f, p = [], 2
    while p * p <= n:
        while n % p == 0:
            f.append(p)
            n //= p
        p += 1
    return f + [n] * (n > 1)


def budget(kind, n):
    """rounded operations in a row that a well-behaved implementation may need: three times what straightforward code does"""
    if kind == "BluesteinFFT":
        return 100 + 60 * math.log2(max(n, 2))
    return 80 + sum(15 if p == 2 else 100 if p <= 5 else 80 * p for p in prime_factors(n))


class Depths:
    def __init__(self, it):
        self.memo = {}
        self.hist = {}          # region id -> ([event numbers], [longest chain stored in the region so far], [the event it comes from])
        log = {}
        for a in it.log:
            if a.write:
                log[a.eid] = a
        for r in it.regions:
            for e in r.entries:
                log.setdefault(e.eid, e)
        for eid in sorted(log):
            self.put(log[eid])

    def put(self, a):
        d = 0
        for v in a.val if a.val.__class__ is tuple else (a.val,):
            if isinstance(v, ring.DVal):
                d = max(d, self.value(v))
        h = self.hist.setdefault(a.region.id, ([], [], []))
        if h[1] and h[1][-1] >= d:
            h[0].append(a.eid)
            h[1].append(h[1][-1])
            h[2].append(h[2][-1])
        else:
            h[0].append(a.eid)
            h[1].append(d)
            h[2].append(a)

    def value(self, v):
        return v.k + self.leaves(v)

    def leaves(self, v):
        d = 0
        for m in v.d:
            for a, e in ring.mono(m):
                at = ring.atom(a)
                if at[0] == "cell":
                    d = max(d, self.cell(at[1], at[2]))
                elif at[0] == "sum":
                    d = max(d, self.leaves(ring.sum_body(at)))
        return d

    def cell(self, rid, ver):
        """longest chain leading to anything stored in the region up to event ver"""
        k = (rid, ver)
        r = self.memo.get(k)
        if r is None:
            r = 0
            h = self.hist.get(rid)
            if h is not None and ver:
                i = bisect.bisect_right(h[0], ver)
                r = h[1][i - 1] if i else 0
            self.memo[k] = r
        return r

    def upto(self, r, eid=None):
        """(longest chain, the store it ends in) over everything stored in the region (up to an event)"""
        h = self.hist.get(r.id)
        i = bisect.bisect_right(h[0], eid) if h and eid is not None else len(h[0]) if h else 0
        return (h[1][i - 1], h[2][i - 1]) if i else (0, None)


def chains(it, setup, arrays):
    """longest chains of the tables left by setup and of the arrays -> ((length, place), (length, place))"""
    d = Depths(it)

    def worst(rs, eid):
        k, a = max((d.upto(r, eid) for r in rs), key=lambda x: x[0], default=(0, None))
        return k, (it.accloc(a).split("[")[0] if a is not None and a.loc else "")
    return worst([r for r in it.regions if r.kind in ("heap", "new")], setup), worst(arrays, None)


class Elements(lineval.Expansion):
    """the same chain lengths element by element"""

    def __init__(self, it):
        super().__init__(it, {r: np.zeros(int(r.size) // 8) for r in it.regions if r.cells is None and r.size is not None and is_const(r.size)})

    def value(self, env, v):
        tot = 0.0
        for m in v.d:
            for a, e in ring.mono(m):
                if ring.atom(a)[0] != "sym":
                    tot = np.maximum(tot, self.atom(env, a, 1))
        return tot + v.k

    def total(self, env, at):
        out = np.zeros(env.n)
        span = 1
        for b in at[1]:
            S = lineval.Sym.table[b]
            span *= max(1, int(np.max(np.asarray(env.ints(S.hi)) - np.asarray(env.ints(S.lo)))) + 1)
        step = max(1, (1 << 21) // span)
        for s in range(0, env.n, step):
            t = min(env.n, s + step)
            sub = lineval.Env(t - s, {k: (x[s:t] if np.ndim(x) else x) for k, x in env.v.items()})
            e2, pidx = lineval.expand(at[1], sub)
            o = np.zeros(t - s)
            np.maximum.at(o, pidx, np.broadcast_to(self.value(e2, ring.sum_body(at)), (e2.n,)))
            out[s:t] = o
        return out


def exact(it, arrays):
    """longest chain ending in an element of the arrays, element by element; None when out of reach"""
    try:
        ex = Elements(it)
        ex.run()
        k = 0
        for r in arrays:
            a = ex.final(r)
            k = max(k, float(np.nanmax(a))) if len(a) else k
        return k
    except Unsupported:
        return None
