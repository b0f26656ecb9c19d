"""Decides whether the clauses left by the abstract interpreter compose to the DFT of a power-of-two length.

The state of an array after each complete stage is the path sum
     A[i] = c * sum_{path bits m} E( P(bits of i, m) ) * x[ source(bits of i, m) ]
with P a polynomial over boolean variables modulo 1, E(t)=exp(-2 pi i t).  A stage (a set of store clauses that covers the whole
array exactly once) is brought to the same form and composed symbolically; the final form is compared with the DFT's unique one.
"""
import math
import random
import numpy as np
from fractions import Fraction
from . import ring
from .poly import (Poly, Sym, sym_poly, padd, psub, pneg, pmul, subst, syms, is_const, exact_div, coef_of, bounds, _norm, ge0)
from .interp import ranges_apart, Unsupported
from .ir import loc_site

LAMPORT = None


class Mismatch(Exception):
    """the code does not compute the transform (names the construct)"""

    def __init__(self, msg, loc=""):
        Exception.__init__(self, msg)
        self.msg = msg
        self.loc = loc


def eloc(e):
    if e is None or not isinstance(e.loc, tuple):
        return ""
    fn, li = e.loc
    return loc_site(fn.loc(li)) + " in " + short(fn.dem)


def short(d):
    return d.split("(")[0][-120:]


def count(binders):
    n = 1
    for b in reversed(binders):
        S = Sym.table[b]
        ca = coef_of(n, b)
        if ca is None:
            raise Unsupported("clause domain too complex to count")
        a, c = ca
        hi, lo = S.hi, S.lo
        tot = pmul(c, padd(psub(hi, lo), 1))
        if a != 0:
            h = psub(pmul(hi, padd(hi, 1)), pmul(lo, psub(lo, 1)))
            h = exact_div(h, 2)
            if h is None:
                raise Unsupported("clause domain count")
            tot = padd(tot, pmul(a, h))
        n = tot
    if not is_const(n):
        raise Unsupported("clause domain of symbolic size")
    return n


class Flow:
    """visibility of stores"""

    def __init__(self, it):
        self.it = it
        self.apart_memo = {}
        self.sel_memo = {}
        self.kb = {}
        self.dep = {}
        self.regs = {r.id: r for r in it.regions}

    def apart(self, e, f):
        k = (e.eid, f.eid)
        r = self.apart_memo.get(k)
        if r is None:
            a, b = self.bits(e), self.bits(f)
            m = a[0] & b[0]
            r = bool((a[1] ^ b[1]) & m) or (a[5] is not None and b[5] is not None and (
                a[6] + e.size <= b[5] or b[6] + f.size <= a[5]))
            if not r and not (a[2] and b[2]) and not touches(e, a, b) and not touches(f, b, a) and not (member(a, f, b) or member(b, e, a)):
                r = ranges_apart(e, f)
            self.apart_memo[k] = r
            self.apart_memo[(f.eid, e.eid)] = r
        return r

    def bits(self, e):
        """(mask of the byte-address bits that are the same for every access of the entry, their values)"""
        r = self.kb.get(e.eid)
        if r is None:
            r = self.kb[e.eid] = known_bits(e.off, e.size) + box(e) + span(e.off)
        return r

    def visible(self, region, ver, total):
        """entries of region whose stores are the ones seen at version `ver`; [] = the initial contents"""
        k = (region.id, ver)
        r = self.sel_memo.get(k)
        if r is not None:
            return r
        sel = []
        idx = Index(self)
        n = 0
        for e in reversed(region.entries):
            if ver is not None and e.eid > ver:
                continue
            if sel and any(not self.apart(e, sel[i]) for i in idx.near(e)):
                continue
            sel.append(e)
            idx.add(e)
            n += count(e.binders) * e.size
            if n >= total:
                break
        if n > total:
            raise Unsupported("stores exceed the array")
        r = (sel, n == total, idx)
        self.sel_memo[k] = r
        return r


    def depth(self, e, N):
        """number of data-flow steps from the initial contents (only guides the grouping of stores into stages)"""
        r = self.dep.get(e.eid)
        if r is not None:
            return r
        self.dep[e.eid] = 0
        r = 0
        v = e.val[0] if isinstance(e.val, tuple) else e.val
        if isinstance(v, ring.DVal):
            seen = set()
            for m in v.d:
                for a, _ in ring.mono(m):
                    at = ring.atom(a)
                    if at[0] != "cell" or a in seen:
                        continue
                    seen.add(a)
                    R = self.regs.get(at[1])
                    d = 0
                    if R is not None and at[2]:
                        vis, full, idx = self.visible(R, at[2], 16 * N)
                        fam = Family(pmul(at[3], 8), 8, e.binders, ("d", e.eid, a))
                        for i in idx.near(fam):
                            if not self.apart(vis[i], fam):
                                d = max(d, self.depth(vis[i], N))
                    r = max(r, d + 1)
        self.dep[e.eid] = r
        return r


class Index:
    """list of accesses with a cheap exact pre-filter for overlap queries"""

    def __init__(self, fl):
        self.fl = fl
        self.n = 0
        self.a = np.zeros((4, 64), dtype=np.int64)

    def row(self, e):
        b = self.fl.bits(e)
        if b[5] is None:
            return b[0], b[1], -(1 << 62), 1 << 62
        return b[0], b[1], int(b[5]), int(b[6]) + e.size

    def add(self, e):
        if self.n == self.a.shape[1]:
            self.a = np.concatenate([self.a, np.zeros_like(self.a)], axis=1)
        self.a[:, self.n] = self.row(e)
        self.n += 1

    def near(self, e):
        m, v, lo, hi = self.row(e)
        a = self.a[:, :self.n]
        return np.nonzero(((a[1] ^ v) & a[0] & m == 0) & (a[2] < hi) & (a[3] > lo))[0].tolist()


TOP = (1 << 60) - 1


def known_bits(off, size):
    """(mask, value, exact): the address bits shared by every byte an access touches; exact: every such address is touched"""
    const = off if is_const(off) else off.t.get((), 0)
    if not isinstance(const, int):
        return 0, 0, False
    terms = []
    box_ = True
    if not is_const(off):
        for m, c in off.t.items():
            if not m:
                continue
            lo, hi = bounds(Poly({m: 1}))
            if lo is None or hi is None or not isinstance(c, int):
                return 0, 0, False
            if len(m) != 1 or m[0][1] != 1 or not is_const(Sym.table[m[0][0]].lo) or not is_const(Sym.table[m[0][0]].hi):
                box_ = False
            lo, hi = int(lo), int(hi)
            const += c * (lo if c > 0 else hi)
            c = abs(c)
            terms.append((c, (1 << (c * (hi - lo)).bit_length()) - 1 & ~((c & -c) - 1), hi - lo))
    if const < 0:
        return 0, 0, False
    occ = const | (size - 1)
    exact = not size & (size - 1) and not const & (size - 1)
    exact = exact and box_
    for c, v, n in terms:
        exact = exact and not c & (c - 1) and not occ & v and not n & (n + 1)
        occ |= v
    g = 8
    while g < size and not const % (2 * g) and all(not c % (2 * g) for c, _, _ in terms):
        g *= 2
    mask, val = TOP, 0
    first = True
    for k in range((size + g - 1) // g):
        one, unk = const + k * g, 0
        for c, v, _ in terms:
            # known-bits addition; without the unknown bits there are no carries, with all of them there are the most
            mx = one | unk
            carries = (mx + v) ^ mx ^ v
            known = ~(unk | v | carries) & TOP
            one, unk = one & known, ~known & TOP
        kn = ~unk & TOP & ~(g - 1)
        if first:
            mask, val, first = kn, one & kn, False
        else:
            mask &= kn & ~(val ^ one)
            val &= mask
    return mask, val, exact


def box(e):
    """(first address, [(stride, count)] or None when the index set is not a box)"""
    if is_const(e.off):
        return e.off, []
    ts = []
    p = e.off.t.get((), 0)
    for m, c in e.off.t.items():
        if not m:
            continue
        S = Sym.table[m[0][0]]
        if len(m) != 1 or m[0][1] != 1 or not isinstance(c, int) or c <= 0 or S.lo is None or S.hi is None:
            return None, None
        if not is_const(S.lo) or not is_const(S.hi):
            return None, None
        p += c * S.lo
        ts.append((c, S.hi - S.lo))
    ts.sort(reverse=True)
    return p, ts


SAMPLES = {}


def samples(e):
    """addresses of some of the accesses of the entry (witnesses of an overlap)"""
    r = SAMPLES.get(id(e))
    if r is None or r[0] is not e:
        rng = random.Random(1)
        out = set()
        ss = sorted(syms(e.off))
        try:
            for k in range(256):
                env = {}
                for s in ss:
                    S = Sym.table[s]
                    lo, hi = (int(subst(x, env)) for x in (S.lo, S.hi))
                    if lo > hi:
                        break
                    env[s] = rng.choice((lo, hi, rng.randint(lo, hi), rng.randint(lo, hi)))
                else:
                    out.add(int(subst(e.off, env)))
        except (TypeError, ValueError):
            pass
        r = (e, sorted(out))
        SAMPLES[id(e)] = r
    return r[1]


def touches(e, a, b):
    """some access of entry e certainly falls on the exactly known address set b"""
    if not b[2]:
        return False
    m, v = b[0], b[1]
    return any(not (p ^ v) & m for p in samples(e))


def span(p):
    lo, hi = bounds(p)
    if lo is None or hi is None:
        return None, None
    return lo, hi


def member(a, f, b):
    """the first access of entry a certainly touches bytes of some access of f (box b)"""
    if a[3] is None or b[3] is None:
        return False
    p = a[3] - b[3]
    for c, n in b[4]:
        p -= c * max(0, min(p // c, n))
    return 0 <= p < f.size


class Family:
    """probe access used to filter visible stores by a read's index range"""
    __slots__ = ("off", "size", "binders", "eid")

    def __init__(self, off, size, binders, eid):
        self.off, self.size, self.binders, self.eid = off, size, binders, eid


def lanes(e):
    """(double index, value) of every double stored by the entry"""
    v = e.val
    if not isinstance(v, tuple):
        if e.size != 8:
            raise Unsupported("store of %d bytes of scalar data" % e.size)
        v = (v,)
    i0 = exact_div(e.off, 8)
    if i0 is None:
        raise Unsupported("misaligned store")
    for k, x in enumerate(v):
        if not isinstance(x, ring.DVal):
            raise Mismatch("an undefined value is stored", eloc(e))
        yield padd(i0, k), x


def half(idx):
    """double index -> (complex index, parity)"""
    c = idx if is_const(idx) else idx.t.get((), 0)
    if not isinstance(c, int):
        raise Unsupported("index %r" % (idx,))
    par = c & 1
    k = exact_div(psub(idx, par), 2)
    if k is None:
        raise Unsupported("index parity of %r" % (idx,))
    return k, par


class Term:
    __slots__ = ("region", "ver", "src", "coef")

    def __init__(self, region, ver, src, coef):
        self.region, self.ver, self.src, self.coef = region, ver, src, coef


class Clause:
    """complex store: index idx (complex units) := sum coef * cell"""
    __slots__ = ("idx", "binders", "terms", "e")


def clauses(entries):
    half_done = {}
    out = []
    for e in entries:
        for di, v in lanes(e):
            k, par = half(di)
            key = (k if is_const(k) else k.key(), e.binders)
            o = half_done.pop(key, None)
            if o is None:
                half_done[key] = (par, v, e, k)
                continue
            if o[0] == par:
                raise Mismatch("the same component is stored twice", eloc(e))
            re, im = (o[1], v) if o[0] == 0 else (v, o[1])
            c = Clause()
            c.idx, c.binders, c.e = k, e.binders, e
            c.terms = complex_terms(re, im, e)
            out.append(c)
    for o in half_done.values():
        raise Mismatch("only one component of a complex element is stored", eloc(o[2]))
    return out


def complex_terms(re, im, e):
    tab = {}
    for which, v in ((0, re), (1, im)):
        for m, c in v.d.items():
            mm = ring.mono(m)
            if len(mm) != 1 or mm[0][1] != 1 or ring.atom(mm[0][0])[0] != "cell":
                if m == 0:
                    raise Mismatch("the stored value has a part independent of the input", eloc(e))
                raise Mismatch("the stored value is not linear in the input: %s" % ring.show(v, 3), eloc(e))
            _, rid, ver, idx = ring.atom(mm[0][0])
            k, par = half(idx)
            key = (rid, ver, k if is_const(k) else k.key())
            t = tab.setdefault(key, [rid, ver, k, {}])
            t[3][(which, par)] = c
    out = []
    mx = max([abs(x) for t in tab.values() for c in t[3].values() for x in c.values()] + [0.0])
    for rid, ver, k, q in tab.values():
        a, b = q.get((0, 0), {}), q.get((0, 1), {})
        c, d = q.get((1, 0), {}), q.get((1, 1), {})
        if not near(a, d, 1, mx) or not near(c, b, -1, mx):
            raise Mismatch("real and imaginary parts are not combined as one complex factor of input element %r" % (k,), eloc(e))
        C = ring.c_add(a, ring.c_scale(c, 1j))
        C = {t: x for t, x in C.items() if abs(x) > 3e-14 * mx}
        if not C:
            continue
        if len(C) != 1:
            raise Mismatch("the factor of input element %r is not a single root of unity times a constant" % (k,), eloc(e))
        out.append(Term(rid, ver, k, C))
    return out


def near(a, b, s, mx):
    for k in set(a) | set(b):
        if abs(a.get(k, 0) - s * b.get(k, 0)) > 3e-14 * mx:
            return False
    return True


# ------------------------------------------------------------------ bit polynomials (multilinear, modulo 1)
# dict frozenset(vars) -> Fraction
def bp_add(a, b):
    r = dict(a)
    for m, c in b.items():
        n = (r.get(m, 0) + c) % 1
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def bp_subst(p, mp):
    """simultaneous variable -> variable/constant(0,1) substitution"""
    r = {}
    for m, c in p.items():
        k = []
        zero = False
        for v in m:
            w = mp.get(v, v)
            if w is ZERO:
                zero = True
                break
            if w is ONE:
                continue
            k.append(w)
        if zero:
            continue
        k = frozenset(k)
        n = (r.get(k, 0) + c) % 1
        if n:
            r[k] = n
        else:
            r.pop(k, None)
    return r


ZERO = ("zero",)
ONE = ("one",)


def interpolate(table, vars_, modulo):
    """table: dict of bit tuples (ordered like vars_) -> dict monomial->coef ; returns the multilinear polynomial"""
    n = len(vars_)
    cur = dict(table)
    # Moebius transform
    for k in range(n):
        nxt = {}
        for key, val in cur.items():
            if key[k] == 0:
                nxt[key] = val
            else:
                lo = cur[key[:k] + (0,) + key[k + 1:]]
                d = dict(val)
                for m, c in lo.items():
                    d[m] = d.get(m, 0) - c
                nxt[key] = d
        cur = nxt
    r = {}
    for key, val in cur.items():
        vs = frozenset(v for v, b in zip(vars_, key) if b)
        for m, c in val.items():
            mm = m | vs
            n_ = r.get(mm, 0) + c
            r[mm] = n_
    if modulo:
        return {m: Fraction(c) % 1 for m, c in r.items() if Fraction(c) % 1}
    return {m: c for m, c in r.items() if c}


def poly_bits(p, dig):
    """polynomial in digit symbols -> multilinear polynomial over bits; dig: sym -> list of (bit var, weight)"""
    if not isinstance(p, Poly):
        return {frozenset(): p} if p else {}
    r = {}
    for m, c in p.t.items():
        parts = {frozenset(): c}
        for s, e in m:
            if e < 0:
                raise Unsupported("negative power")
            if s not in dig:
                raise Unsupported("free symbol %r in a stage formula" % Sym.table[s])
            for _ in range(e):
                nx = {}
                for mm, cc in parts.items():
                    for v, w in dig[s]:
                        k = mm | {v}
                        nx[k] = nx.get(k, 0) + cc * w
                parts = nx
        for k, v in parts.items():
            r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v}


# ------------------------------------------------------------------ stages
class Stage:
    __slots__ = ("L", "out", "path", "src", "phase", "scale", "loc", "entries")


def pow2(n):
    return n > 0 and (n & (n - 1)) == 0


def digitize(c, L):
    """idx = const + sum coef*binder  ->  {bit position: integer combination of binders}, const; None when not affine with
    non-negative strides"""
    idx = c.idx
    mp = {}
    if not isinstance(idx, Poly):
        return {}, idx, mp
    for m, k in idx.t.items():
        if m and (len(m) != 1 or m[0][1] != 1 or not isinstance(k, int)):
            raise Unsupported("store index %r is not affine" % (idx,))
    # reversed loops
    for b in c.binders:
        k = idx.t.get(((b, 1),), 0)
        if k < 0:
            S = Sym.table[b]
            N = Sym(S.name, 0, psub(S.hi, S.lo))
            mp[b] = psub(S.hi, sym_poly(N))
    if mp:
        idx = subst(idx, mp)
    const = idx.t.get((), 0) if isinstance(idx, Poly) else idx
    digs = {}
    if isinstance(idx, Poly):
        for m, k in idx.t.items():
            if not m:
                continue
            if k < 0:
                raise Unsupported("store index with negative stride")
            e = 0
            while k:
                if k & 1:
                    digs[e] = padd(digs.get(e, 0), sym_poly(Sym.table[m[0][0]]))
                k >>= 1
                e += 1
    return digs, const, mp


def to_stage(cl, L, entries, vprefix, passed):
    """clauses covering the array -> Stage"""
    N = 1 << L
    info = []
    for c in cl:
        digs, const, mp = digitize(c, L)
        info.append([c, digs, const, mp])
    strides = sorted({e for i in info for e in i[1]})
    # a stride that only ever appears inside a wider digit is not a digit boundary (e.g. 3*b = b + 2b)
    # normalise every clause to digits at the common strides, folding constants into the digit they hit
    groups = {}
    for i in info:
        c, digs, const, mp = i
        norm = {}
        for k, e in enumerate(strides):
            x = digs.get(e, 0)
            norm[e] = x
        # positions: which constant bits belong to which digit: decided after widths are known
        i.append(norm)
    # widths: bits [e, e+w) with w from the largest value any clause takes at that digit (constants included later)
    width = {}
    for k, e in enumerate(strides):
        w = 0
        for c, digs, const, mp, norm in info:
            hi = bounds(norm[e])[1]
            if hi is None:
                raise Unsupported("unbounded digit")
            w = max(w, int(hi).bit_length())
        width[e] = w
    # const bits: a digit occupying [e,e+w) takes the constant's bits of that field
    for rnd in range(3):
        grow = False
        for i in info:
            c, digs, const, mp, norm = i[:5]
            full = {}
            used = 0
            for e in strides:
                f = (const >> e) & ((1 << width[e]) - 1)
                full[e] = padd(norm[e], f)
                used |= f << e
                lo, hi = bounds(full[e])
                if lo is None or lo < 0:
                    raise Unsupported("negative digit")
                if hi >= 1 << width[e]:
                    width[e] = int(hi).bit_length()
                    grow = True
            i[5:] = [full, const & ~used]
        if not grow:
            break
    else:
        raise Unsupported("digit carries")
    for a, b in zip(strides, strides[1:]):
        if a + width[a] > b:
            raise Unsupported("store index digits overlap: %r" % [(e, width[e]) for e in strides])
    if strides and strides[-1] + width[strides[-1]] > L:
        raise Mismatch("store index exceeds the array", eloc(cl[0].e))
    for i in info:
        c, full, rest = i[0], i[5], i[6]
        groups.setdefault(rest, []).append((c, full, i[3]))
    fmask = sum(((1 << width[e]) - 1) << e for e in strides)
    boxn = 1
    for e in strides:
        boxn <<= width[e]
    # which positions are constants
    cpos = [b for b in range(L) if not (fmask >> b) & 1]
    pats = {}
    for rest, insts in groups.items():
        if rest < 0 or rest >= N or rest & fmask:
            raise Mismatch("store index outside the array", eloc(insts[0][0].e))
        pats[tuple((rest >> b) & 1 for b in cpos)] = insts
    if len(pats) != 1 << len(cpos):
        raise Mismatch("the stage does not store every element", eloc(cl[0].e))
    digsym = {e: Sym("D%d" % e, 0, (1 << width[e]) - 1) for e in strides}
    dig = {digsym[e].id: [((vprefix, "o", e + j), 1 << j) for j in range(width[e])] for e in strides}
    forms = {}
    nterm = None
    # elements of a class that no store covers keep their value: recorded in `passed`
    for pat, insts in pats.items():
        tot = sum(count(c.binders) for c, _, _ in insts)
        if tot > boxn:
            raise Mismatch("the stage stores %d elements into %d" % (tot, boxn), eloc(insts[0][0].e))
        # template: an instance whose binders are determined by the digits, with most points
        insts.sort(key=lambda x: -count(x[0].binders))
        tpl = None
        for c, full, mp in insts:
            inv = invert(c, full, digsym, mp)
            if inv is not None:
                tpl = (c, inv)
                break
        if tpl is None:
            raise Unsupported("store index of %s cannot be inverted" % eloc(insts[0][0].e))
        c0, inv = tpl
        form = [(subst(t.src, inv), ring_angle(t.coef, inv, c0), t) for t in c0.terms]
        form.sort(key=lambda x: (order_key(x[0]),))
        for c, full, mp in insts:
            if c is c0:
                continue
            m2 = {digsym[e].id: full[e] for e in strides}
            want = sorted([(subst(s, m2), angle_subst(a, m2)) for s, a, _ in form], key=lambda x: order_key(x[0]))
            have = sorted([(subst(t.src, mp) if mp else t.src, ring_angle(t.coef, mp, c)) for t in c.terms], key=lambda x: order_key(x[0]))
            if len(want) != len(have) or any(psub(w[0], h[0]) != 0 for w, h in zip(want, have)):
                raise Mismatch("a special case of the stage reads other elements than the general case", eloc(c.e))
            for w, h in zip(want, have):
                if not same_angle(w[1], h[1]):
                    raise Mismatch("a special case of the stage uses another factor than the general case", eloc(c.e))
        if tot < boxn:
            passed.append(identity_locus(form, digsym, strides, pat, cpos, insts, boxn - tot))
        forms[pat] = form
        if nterm is None:
            nterm = len(form)
        elif nterm != len(form):
            raise Mismatch("stages combine %d and %d inputs" % (nterm, len(form)), eloc(c0.e))
    if nterm == 0 or not pow2(nterm):
        raise Mismatch("%d inputs are combined" % nterm, eloc(cl[0].e))
    rho = nterm.bit_length() - 1
    pvars = [(vprefix, "m", j) for j in range(rho)]
    cvars = [(vprefix, "o", b) for b in cpos]
    vars_ = cvars + pvars
    src_t, ph_t = {}, {}
    scale = None
    for pat, form in forms.items():
        for m, (s, (mag, th), t) in enumerate(form):
            key = pat + tuple((m >> j) & 1 for j in range(rho))
            src_t[key] = poly_bits(s, dig)
            ph_t[key] = {k: Fraction(v) for k, v in poly_bits(th, dig).items()}
            if scale is None:
                scale = mag
            elif abs(mag - scale) > 3e-14 * scale:
                raise Mismatch("inputs of one stage are scaled differently (%g and %g)" % (mag, scale), eloc(t_entry(cl, t)))
    src = interpolate(src_t, vars_, False)
    phase = interpolate(ph_t, vars_, True)
    st = Stage()
    st.L, st.scale, st.loc, st.entries = L, scale, eloc(cl[0].e), entries
    st.phase = phase
    st.path = pvars
    st.src = [None] * L
    for m, c in src.items():
        if len(m) == 0 or len(m) > 1 or not isinstance(c, int) or not pow2(c) or c >= N or st.src[c.bit_length() - 1] is not None:
            raise Mismatch("the inputs of the stage are not a bit permutation of its outputs: %s" % fmt(src), eloc(cl[0].e))
        st.src[c.bit_length() - 1] = next(iter(m))
    if any(s is None for s in st.src):
        raise Mismatch("the stage does not read every input", eloc(cl[0].e))
    st.out = [(vprefix, "o", b) for b in range(L)]
    return st


def identity_locus(form, digsym, strides, pat, cpos, insts, missing):
    """the elements left alone by an in-place stage must be exactly those the general formula maps to themselves unchanged"""
    e0 = insts[0][0].e
    bad = Mismatch("the stage stores %d elements too few of one index class" % missing, eloc(e0))
    if len(form) != 1:
        raise bad
    src, (mag, th), t = form[0]
    if not same_angle((mag, th), (1.0, 0)):
        raise bad
    idx = sum(b << p for b, p in zip(pat, cpos))
    for e in strides:
        idx = padd(idx, pmul(sym_poly(digsym[e]), 1 << e))
    d = psub(src, idx)
    if d == 0:
        raise Unsupported("identity stage")
    if is_const(d):
        raise bad
    if d.t.get((), 0) != 0:
        raise bad
    ss = sorted(syms(d), reverse=True)
    # d = alpha*(X - Y)
    if len(ss) != 2 or any(len(m) != 1 or m[0][1] != 1 for m in d.t) or sum(d.t.values()) != 0:
        raise Unsupported("the unchanged elements of an in-place stage are not on a diagonal")
    X, Y = ss
    if Sym.table[X].hi != Sym.table[Y].hi:
        raise Unsupported("unequal diagonal")
    others = 1
    for e in strides:
        if digsym[e].id not in ss:
            others *= Sym.table[digsym[e].id].hi + 1
    if others * (Sym.table[Y].hi + 1) != missing:
        raise bad
    for c, full, mp in insts:
        dd = subst(d, {digsym[e].id: full[e] for e in strides})
        if is_const(dd):
            ok = dd != 0
        else:
            lo, hi = bounds(dd)
            ok = (lo is not None and lo > 0) or (hi is not None and hi < 0)
        if not ok:
            raise bad
    fam = subst(idx, {X: sym_poly(Sym.table[Y])})
    binders = tuple(digsym[e].id for e in strides if digsym[e].id != X)
    return fam, binders, [c.e for c, _, _ in insts]


def fmt(src):
    return " + ".join("%s*%s" % (c, "".join("%s%s" % (v[1], v[2]) for v in sorted(m))) for m, c in list(src.items())[:10])


def t_entry(cl, t):
    for c in cl:
        if t in c.terms:
            return c.e
    return cl[0].e


def order_key(p):
    c = p if is_const(p) else p.t.get((), 0)
    return (c, repr(p))


def ring_angle(coef, mp, c):
    (k, v), = coef.items()
    th = ring.theta_poly(k) if k else 0
    if mp:
        th = subst(th, mp)
    mag = abs(v)
    a = frac_angle(v / mag)
    return mag, padd(th, a) if a else th


def frac_angle(z):
    import cmath
    x = -cmath.phase(z) / (2 * math.pi)
    f = Fraction(round(x * 2 ** 30), 2 ** 30)
    if abs(float(f) - x) > 1e-12:
        raise Mismatch("factor %r is not a root of unity of power-of-two order" % (z,))
    f %= 1
    return Poly({(): f}) if f.denominator != 1 else 0


def angle_subst(a, mp):
    return a[0], subst(a[1], mp)


def same_angle(a, b):
    if abs(a[0] - b[0]) > 3e-14 * max(a[0], b[0]):
        return False
    d = psub(a[1], b[1])
    i, c = ring.theta(d)
    return i == 0 and abs((float(c) + 0.5) % 1 - 0.5) < 3e-14


def invert(c, full, digsym, mp):
    """binder -> expression in digit symbols, or None"""
    eqs = [(psub(x, sym_poly(digsym[e]))) for e, x in full.items() if not (is_const(x))]
    used = {}
    bs = list(c.binders)
    # binders replaced by reversed ones
    newb = []
    for b in bs:
        if b in mp:
            newb.append(next(iter(syms(mp[b]))))
        else:
            newb.append(b)
    sol = {}
    for b in sorted(newb, reverse=True):
        for q in list(eqs):
            q2 = subst(q, sol)
            ca = coef_of(q2, b)
            if ca and ca[0] in (1, -1):
                sol = {k: subst(v, {b: pmul(ca[1], -ca[0])}) for k, v in sol.items()}
                sol[b] = pmul(ca[1], -ca[0])
                eqs.remove(q)
                break
        else:
            return None
    for b in newb:
        v = sol[b]
        if any(x in newb for x in syms(v)):
            return None
    # remaining equations would be constraints between digits: then the instance is a lower dimensional slice
    if any(psub(subst(q, sol), 0) != 0 for q in eqs):
        return None
    if any(is_const(x) for x in full.values()) and len(full) > 0:
        # a digit fixed by this instance: not the general case
        if any(is_const(full[e]) and bounds(sym_poly(digsym[e]))[1] > 0 for e in full):
            return None
    out = dict(sol)
    for b in bs:
        if b in mp:
            out[b] = subst(mp[b], sol)
    return out


def compose(later, earlier, L):
    """state 'later' expressed over array A, A given by stage 'earlier' -> one Stage"""
    mp = {o: later.src[b] for b, o in enumerate(earlier.out)}
    # rename earlier path vars apart is guaranteed by unique prefixes
    ph = bp_add(later.phase, bp_subst(earlier.phase, mp))
    st = Stage()
    st.L = L
    st.out = later.out
    st.path = later.path + earlier.path
    st.src = [mp.get(v, v) for v in earlier.src]
    st.phase = ph
    st.scale = later.scale * earlier.scale
    st.loc = later.loc
    st.entries = None
    return st


def verify(st, L, sign):
    """sign=+1: forward (E(+ik/N)), -1: inverse.  raises Mismatch"""
    N = 1 << L
    for v in st.src:
        if v[1] != "m":
            raise Mismatch("output element depends on a single half of the inputs (missing butterfly)")
    if len(set(st.src)) != L or set(st.path) != set(st.src):
        raise Mismatch("the stages do not sum over every input exactly once (%d summation bits for %d index bits)" % (len(st.path), L))
    want = {}
    for a in range(L):
        for b in range(L):
            c = Fraction(sign * (1 << (a + b)), N) % 1
            if c:
                want[frozenset((st.out[a], st.src[b]))] = c
    if want != st.phase:
        bad = [m for m in set(want) | set(st.phase) if want.get(m, 0) != st.phase.get(m, 0)]
        m = bad[0]
        raise Mismatch("phase differs from the DFT's: coefficient of (%s) is %s instead of %s (and %d more)" % (
            ", ".join("%s%s" % (v[0] + "." if v[1] == "m" else "out bit ", v[2]) for v in m), st.phase.get(m, 0), want.get(m, 0), len(bad) - 1))


def analyse(it, xreg, L, stats=None):
    """compose all stages that determine the final contents of xreg; returns the Stage over the initial contents of xreg"""
    N = 1 << L
    fl = Flow(it)
    regs = {r.id: r for r in it.regions}
    INF = 1 << 60
    sel = fl.visible(xreg, INF, 16 * N)[0]
    if not sel:
        raise Mismatch("the transform stores nothing")
    acc = None
    lv = 0
    layer = sel
    seen_at = {e.eid: (INF, INF) for e in sel}
    while True:
        lv += 1
        if lv > 60:
            raise Unsupported("more than 60 stages")
        top = max(fl.depth(e, N) for e in layer)
        deep = [e for e in layer if fl.depth(e, N) == top]
        st = None
        if len(deep) < len(layer):
            try:
                passed = []
                cl = clauses(deep)
                st = to_stage(cl, L, deep, "s%d" % lv, passed)
                layer = deep
            except (Mismatch, Unsupported):
                st = None
        if st is None:
            passed = []
            cl = clauses(layer)
            st = to_stage(cl, L, layer, "s%d" % lv, passed)
        if stats is not None:
            stats["stages"] = stats.get("stages", 0) + 1
            stats["clauses"] = stats.get("clauses", 0) + len(cl)
        acc = st if acc is None else compose(acc, st, L)
        # where do the inputs come from
        need = {}
        R0 = layer[0].region
        ids = {e.eid for e in layer}
        for fam, binders, es in passed:
            last = max(seen_at[e.eid][1] for e in es)
            probe = Family(pmul(fam, 16), 16, binders, ("p", lv, order_key(fam)))
            prov = 0            # newest store to these elements by anything but the stage itself
            for f in R0.entries:
                if prov < f.eid <= last and f.eid not in ids and not fl.apart(f, probe):
                    prov = f.eid
            if prov > min(seen_at[e.eid][0] for e in es):
                raise Unsupported("an element left alone by a stage changes while the next stage reads it")
            need.setdefault((R0.id, prov), []).append((fam, binders, es[0]))
        for c in cl:
            for t in c.terms:
                need.setdefault((t.region, t.ver), []).append((t.src, c.binders, c.e))
        nxt = {}
        nseen = {}
        initial = 0
        for (rid, ver), uses in need.items():
            R = regs.get(rid)
            if R is None:
                raise Unsupported("input from a dead region")
            vis, full, idx = fl.visible(R, ver, 16 * N) if ver else ([], True, Index(fl))
            for src, binders, e0 in uses:
                fam = Family(pmul(src, 16), 16, binders, ("r", e0.eid, ver, order_key(src)))
                hit = [vis[i] for i in idx.near(fam) if not fl.apart(vis[i], fam)]
                if not hit and vis and not full:
                    # an element the newest (in-place, incomplete) stage leaves alone: to_stage proves the elements it
                    # does not store to be exactly those it maps to themselves
                    hit = vis
                if not hit:
                    if R is not xreg:
                        raise Mismatch("uninitialised elements of %s are used" % R.name, eloc(e0))
                    initial += 1
                    continue
                for e in hit:
                    nxt[e.eid] = e
                    o = nseen.get(e.eid)
                    nseen[e.eid] = (ver, ver) if o is None else (min(o[0], ver), max(o[1], ver))
        if initial:
            if nxt:
                raise Unsupported("a stage mixes initial and computed elements")
            return acc
        ents = sorted(nxt.values(), key=lambda e: e.eid)
        rs = {e.region.id for e in ents}
        if len(rs) != 1:
            raise Unsupported("a stage spread over several arrays")
        idx = Index(fl)
        for i, e in enumerate(ents):
            near_ = idx.near(e)
            idx.add(e)
            for j in near_:
                if not fl.apart(e, ents[j]):
                    raise Mismatch("elements of one stage are stored twice", eloc(e))
        layer = ents
        seen_at = nseen
