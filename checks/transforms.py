"""Checks decided by the abstract interpretation of the transforms themselves."""
import math
from sa import jobs, rounding
from sa.report import Report
import callgraph

FWD = ("fwd", "fwdn", "fwd0", "fwdu")
INV = ("inv", "inv0", "invu", "invn")
ALL = FWD + INV
DCT_FWD = ("fwd", "fwdn", "fwd0")
DCT_INV = ("inv", "inv0", "invn")
PAIRS_F = (("fwd", "fwdn"), ("fwd0",), ("fwdu",))
PAIRS_I = (("inv", "inv0"), ("invu",), ("invn",))

# rules of the interpreter that belong to a property
RULES = {
    "C08": ("race", "ompnest"),
    "C10": ("bounds", "null", "uaf", "undef"),
    "C17": ("overflow", "wrap"),
    "C18": ("readonly", "tables-unchanged"),
    "C19": ("align",),
    "C16": ("no-allocation", "no-release", "object-unchanged", "no-throw"),
}
NUM_RULES = ("precision", "race", "ompnest", "bounds", "null", "uaf", "undef", "const", "terminate")
SCALE = {"fwd": -1.0, "fwdn": -1.0, "fwd0": 0.0, "fwdu": -0.5, "inv": 0.0, "inv0": 0.0, "invu": -0.5, "invn": -1.0}

TEXT = {
    "C01": "every forward method equals the DFT on all inputs (path-sum composition of the derived stages, or identity test of the derived linear map), with the documented factor",
    "C02": "every inverse method equals the inverse DFT on all inputs (path-sum composition of the derived stages, or identity test of the derived linear map), with the documented factor",
    "C03": "the linear map derived from the source equals the DFT / inverse DFT (identity test on a generic vector)",
    "C04": "the linear map derived from the source equals the DFT of the real signal / its inverse (identity test on a generic vector)",
    "C05": "the linear map derived from the source equals DCT-II / its inverse (identity test on a generic vector)",
    "C06": "the linear map derived from the source equals the DFT / inverse DFT (identity test on a generic vector)",
    "C07": "the factor between the derived linear map and the unnormalised transform is the documented one",
    "C08": "no two accesses of different threads in one phase of a parallel region overlap unless both read, for any assignment of iterations to threads",
    "C09": "no OpenMP work-sharing or barrier construct is reachable outside a parallel region opened by the same call",
    "C10": "every access lies inside its array; no null, released or uninitialised memory is used",
    "C15": "after every listed history of setup calls the derived linear map equals the transform of the last length",
    "C16": "a transform method calls no allocator, no release, no throwing or I/O function and leaves the object unchanged",
    "C17": "every signed operation stays in its type's range",
    "C18": "read-only arguments and data computed by setup are never stored to",
    "C21": "the longest chain of rounded operations leading from the input, the constants and the sines and cosines to an output (and to a table entry) is at most a constant times log N; no value passes through single precision; arguments of sin and cos are accurate multiples of 2 pi",
    "C22": "the instructions executed by a method call, summed over every iteration of every loop, stay below a fixed multiple of N times the sum of N's prime factors (N log N for Bluestein)",
    "C19": "every access to caller memory is compiled with at most the alignment of a double",
}


def kinds_methods(kind, part):
    if kind == "DCT":
        return {"f": DCT_FWD, "i": DCT_INV, "a": DCT_FWD + DCT_INV}[part]
    return {"f": FWD, "i": INV, "a": ALL}[part]


def chunks(ns, k):
    return [tuple(ns[i::k]) for i in range(k) if ns[i::k]]


def pow2(n):
    return n & (n - 1) == 0


MIXED_SMALL = [n for n in range(3, 133) if not pow2(n)]
MIXED_MID = [135, 143, 144, 147, 160, 169, 175, 180, 187, 192, 196, 210, 221, 225, 240, 243, 245, 250, 251, 256 * 3, 288, 300, 343, 360, 375, 384, 400, 420,
             441, 480, 500, 504, 512 * 5, 512 * 7, 525, 600, 625, 675, 720, 729, 735, 768, 800, 840, 875, 900, 945, 960, 980, 1000, 1001, 1009, 1024 * 3,
             1225, 1260, 1331, 1500, 1536, 1715, 2187, 2197, 2310, 2401, 3125, 4095, 4900, 6561, 8190, 9261, 10000, 12288, 16807, 30030]
MIXED_OMP = [32769, 33075, 33614, 36465, 37632, 40500, 44100, 46189, 46656, 59049, 65535, 65610, 78125, 98304, 117649, 131070]
MIXED_OMP_MORE = [81920, 114688, 117600, 163840, 196608, 207360, 229376, 250047, 262143, 300000, 390625, 531441, 786432]
MIXED_OBL = [3 * 2 ** 18, 3 ** 13, 7 ** 7, 1000000, 1048583]
HUGE = [2 ** 25, 2 ** 26, 2 ** 29, 2 ** 30, 2 ** 30 - 1, 1073741789, 3 ** 18, 5 ** 12, 7 ** 10, 2 * 3 ** 18, 715827882, 46341 ** 2 // 2]
REAL_SMALL = list(range(2, 66, 2))
REAL_MID = [66, 70, 80, 90, 96, 98, 100, 120, 126, 128, 130, 150, 192, 200, 202, 250, 254, 256, 360, 486, 512, 514, 686, 1000, 1022, 1024, 1250, 2048, 2050, 3000,
            4096, 6000, 8192, 10000, 16384]
REAL_OMP = [32766, 32768, 32770, 37800, 44100, 65534, 65536, 65538, 98304, 131072]
REAL_HUGE = [2 ** 18, 2 ** 19, 2 ** 25, 2 ** 28, 2 ** 30, 2 ** 30 - 2, 2 * 268435399, 2 * 3 ** 18]
BLUE_SMALL = list(range(1, 41)) + [45, 63, 64, 65, 97, 100, 127, 128, 129, 211, 255, 256, 257, 360, 509, 512, 513, 1000, 1009, 1023, 1024, 1025, 2047, 2049, 4095, 4097, 5000]
BLUE_OMP = [8191, 8192, 8193, 16383, 16384, 16385, 20011, 32767, 32768, 32769, 65535, 65536, 65537]
BLUE_HUGE = [2 ** 19 - 1, 2 ** 25, 2 ** 28, 2 ** 28 - 1, 268435399]


def backends():
    same = jobs.twins("AVX2", "AVX")
    return [b for b in jobs.BACKENDS if not (same and b == "AVX")], same


def spread(out, kind, bs, ns, part, want, k, cost, histories=None):
    for b in bs:
        for c in chunks(list(ns), k):
            out.append((cost * len(c), ("many", (kind, b, c, kinds_methods(kind, part), want, histories))))


def single(out, kind, bs, ns, groups, want, cost):
    for n in ns:
        for b in bs:
            for g in groups:
                out.append((cost, ("general", (kind, b, n, g, want))))


def plan_complex_pow2(out, bs, groups, tier, want=True):
    for b in bs:
        for L in range(1, 16):
            out.append((1 + L / 10, ("c2c", ("ComplexFFT", b, L, sum(groups, ()), want))))
        out.append((3, ("c2c", ("ComplexFFT", b, 17, sum(groups, ()), want))))
        for L in (16, 18, 20, 22, 24):
            for g in groups:
                out.append((L / 4, ("c2c", ("ComplexFFT", b, L, g, want))))
        for i, g in enumerate(groups):
            if tier == "quick":
                out.append((20, ("general", ("ComplexFFT", b, 1 << 19, g, want))))
                out.append((30, ("general", ("ComplexFFT", b, 1 << 21, g, want))))
                if (b == bs[0]) == (i % 2 == 0) or not want:
                    out.append((90, ("general", ("ComplexFFT", b, 1 << 23, g, want))))
            else:
                for L in (19, 21, 23):
                    out.append((50, ("c2c", ("ComplexFFT", b, L, g, want))))


def plan_mixed(out, bs, tier):
    spread(out, "ComplexFFT", bs, MIXED_SMALL, "a", True, 6, 0.5)
    spread(out, "ComplexFFT", bs, MIXED_MID, "a", True, 8, 1.5)
    one = lambda i: [bs[i % len(bs)]] if tier == "quick" else bs
    for i, n in enumerate(MIXED_OMP):
        for g in (FWD, INV):
            single(out, "ComplexFFT", one(i), [n], (g,), True, 6)
    for b in bs:
        for g in PAIRS_F + PAIRS_I:
            out.append((5, ("c2c", ("ComplexFFT", b, 25, g, True))))
    if tier != "quick":
        spread(out, "ComplexFFT", bs, [n for n in range(133, 1100) if not pow2(n)], "a", True, 40, 1.0)
        for n in MIXED_OMP_MORE:
            single(out, "ComplexFFT", bs, [n], (FWD, INV), True, 20)
        for b in bs:
            for L in (26, 27, 28, 29, 30):
                for g in PAIRS_F + PAIRS_I:
                    out.append((6, ("c2c", ("ComplexFFT", b, L, g, True))))


def plan_real(out, kind, bs, tier):
    spread(out, kind, bs, REAL_SMALL, "a", True, 3, 0.5)
    spread(out, kind, bs, REAL_MID, "a", True, 6, 1.5)
    for n in REAL_OMP:
        for p in "fi":
            single(out, kind, bs, [n], (kinds_methods(kind, p),), True, 6)
    if tier != "quick":
        spread(out, kind, bs, range(66, 1100, 2), "a", True, 30, 1.0)
        for n in (2 ** 18, 2 ** 19, 2 ** 20, 2 ** 21, 196608, 200000, 262146, 1000000):
            for p in "fi":
                single(out, kind, bs, [n], (kinds_methods(kind, p),), True, 30)


def plan_bluestein(out, bs, tier):
    spread(out, "BluesteinFFT", bs, BLUE_SMALL, "a", True, 8, 1.0)
    for n in BLUE_OMP:
        single(out, "BluesteinFFT", bs, [n], (FWD, INV), True, 5 + n / 8192)
    if tier != "quick":
        spread(out, "BluesteinFFT", bs, range(41, 600), "a", True, 40, 1.0)
        for n in (98304, 100003, 131071, 131072, 131073, 200000, 262144, 300007):
            single(out, "BluesteinFFT", bs, [n], (FWD, INV), True, 40)


def plan_obligations(out, bs, tier):
    quick = tier == "quick"

    def alt(kind, ns, k, cost, off=0):
        """the expensive lengths: alternating between the backends in the quick tier, all of them in the thorough one"""
        for i, b in enumerate(bs):
            sel = [n for j, n in enumerate(ns) if not quick or (j + i + off) % len(bs) == 0]
            spread(out, kind, [b], sel, "a", False, k, cost)
    for L in (19,) if quick else (19, 21, 23):
        for i, m in enumerate(PAIRS_F + PAIRS_I):
            for b in [bs[i % len(bs)]] if quick else bs:
                out.append((20, ("general", ("ComplexFFT", b, 1 << L, m, False))))
    for b in bs:
        for L in (16, 18, 20, 22, 24):
            for p in (FWD, INV):
                if not quick or L in (16, 20) or (L == 22) == (b == bs[-1]):
                    out.append((8, ("general", ("ComplexFFT", b, 1 << L, p, False))))
    spread(out, "ComplexFFT", bs, [1 << L for L in range(0, 16)] + [1 << 17], "a", False, 4, 1.0)
    spread(out, "ComplexFFT", bs, MIXED_SMALL[:60], "a", False, 2, 0.3)
    spread(out, "ComplexFFT", bs, MIXED_MID[::2] if quick else MIXED_MID, "a", False, 3, 0.4)
    spread(out, "ComplexFFT", bs, MIXED_OMP + MIXED_OBL + HUGE, "a", False, 6, 1.5)
    for o, kind in enumerate(("RealFFT", "DCT")):
        spread(out, kind, bs, REAL_SMALL[:20] + REAL_MID[1::2], "a", False, 2, 0.5)
        alt(kind, REAL_OMP + REAL_HUGE, 5, 3, o)
    spread(out, "BluesteinFFT", bs, BLUE_SMALL[:24] + [63, 64, 65, 127, 512, 1000, 1025, 4095, 4097], "a", False, 3, 0.7)
    alt("BluesteinFFT", BLUE_OMP[3:] + BLUE_HUGE, 8, 12)
    if not quick:
        spread(out, "BluesteinFFT", bs, [2 ** 17 + 1, 2 ** 20 - 3], "a", False, 2, 90)
        for kind in ("RealFFT", "DCT"):
            spread(out, kind, bs, [2 ** 20, 2 ** 22, 2 ** 24], "a", False, 3, 60)


def plan_scale(out, bs, tier):
    spread(out, "ComplexFFT", bs, [1 << L for L in range(0, 16)] + [1 << 17], "a", True, 8, 1.0)
    for b in bs:
        for p in (FWD, INV):
            out.append((12, ("general", ("ComplexFFT", b, 1 << 16, p, True))))
            out.append((20, ("general", ("ComplexFFT", b, 1 << 18, p, True))))
            out.append((7, ("c2c", ("ComplexFFT", b, 25, p, True))))
        for L in (20, 22, 24):
            for g in PAIRS_F + PAIRS_I:
                out.append((6, ("c2c", ("ComplexFFT", b, L, g, True))))
    for i, g in enumerate(PAIRS_F + PAIRS_I):
        out.append((20, ("general", ("ComplexFFT", bs[i % len(bs)], 1 << 19, g, True))))
    spread(out, "ComplexFFT", bs, MIXED_SMALL[::3] + MIXED_MID[::4], "a", True, 4, 0.6)
    spread(out, "ComplexFFT", bs, [32769, 40500, 59049, 98304], "a", True, 4, 8)
    for kind in ("RealFFT", "DCT"):
        spread(out, kind, bs, REAL_SMALL[::3] + REAL_MID[::3], "a", True, 2, 0.6)
        spread(out, kind, bs, [32768, 32770, 65536, 131072], "a", True, 4, 8)
    spread(out, "BluesteinFFT", bs, BLUE_SMALL[::3], "a", True, 3, 0.6)
    spread(out, "BluesteinFFT", bs, [16385, 32769, 65537], "a", True, 3, 12)
    if tier != "quick":
        plan_mixed(out, bs, tier)
        for kind in ("RealFFT", "DCT"):
            plan_real(out, kind, bs, tier)
        plan_bluestein(out, bs, tier)


HIST_C = [1, 2, 3, 4, 7, 8, 16, 24, 31, 32, 64, 105, 128, 256, 512, 1000, 1024, 2048, 4096]
HIST_BIG = [1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 18, 40500]


def plan_history(out, bs, tier):
    for i, b in enumerate(bs):
        for kind, base in (("ComplexFFT", HIST_C), ("RealFFT", [2, 4, 6, 14, 16, 32, 62, 64, 128, 1000, 1024, 4096]),
                           ("DCT", [2, 4, 6, 14, 16, 32, 62, 64, 128, 1000, 1024, 4096]), ("BluesteinFFT", [1, 2, 3, 5, 8, 9, 16, 17, 33, 64, 100, 129, 1000])):
            for n in base:
                hs = [(h,) for h in base if h != n]
                if tier == "quick" and len(hs) > 9:
                    k = base.index(n)
                    hs = [h for j, h in enumerate(hs) if (j + k + i) % 2 == 0]
                hs += [(base[-1], base[0]), (base[0], base[-1], base[3]), (n,), (base[4], n, base[5])]
                hs += [(0,), (base[3], 0)]
                hs += [(base[5], (n, k)) for k in ((2, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6))] + [(0, (n, 3))]
                out.append((0.25 * len(hs) * (1 + n / 500), ("many", (kind, b, (n,), kinds_methods(kind, "f")[:1] + kinds_methods(kind, "i")[:1], True, tuple(hs)))))
        big = [(4096, 1 << 16), (1 << 16, 4096), (1 << 16, 1000), (1 << 17, 1 << 16), (40500, 1 << 16), (1 << 18, 1 << 14), (1 << 14, 1 << 18), (1 << 16, 1 << 18), (1 << 17, 40500)]
        for h, n in big:
            out.append((8, ("general", ("ComplexFFT", b, n, ("fwd", "inv"), True, (h,)))))
        for kind in ("RealFFT", "DCT"):
            for h, n in ((1 << 16, 1 << 10), (1 << 10, 1 << 16), (1 << 17, 1 << 16), (65538, 1 << 15), (1 << 15, 40500)):
                out.append((10, ("general", (kind, b, n, ("fwd", "inv"), True, (h,)))))
        for h, n in ((20011, 100), (100, 20011), (32769, 16385), (16385, 32769)):
            out.append((8, ("general", ("BluesteinFFT", b, n, ("fwd", "inv"), True, (h,)))))
        if tier != "quick":
            for n in (16, 1000, 4096, 1 << 16):
                for h in HIST_BIG:
                    out.append((8, ("general", ("ComplexFFT", b, n, ALL, True, (h, 3)))))


SMOOTH = [3, 5, 6, 7, 9, 15, 30, 49, 60, 105, 121, 125, 169, 210, 243, 343, 1000, 1001, 1155, 1331, 2187, 2310, 3125, 4913, 6561, 10000, 15625, 16807, 27720, 30030, 46189,
          59049, 83521, 100000, 117649, 161051, 177147, 360360, 371293, 500000, 531441, 720720, 823543, 1000000, 1594323, 1771561, 1953125, 4084101, 4782969, 4826809,
          5764801, 9765625, 11 ** 7, 13 ** 6, 17 ** 5, 7 * 11 * 13 * 17 * 19 * 23, 3 ** 18, 5 ** 12, 7 ** 10, 2 * 3 ** 18, 3 * 2 ** 28, 5 * 2 ** 27, 7 * 2 ** 27, 9 * 5 ** 11, 6 ** 11, 10 ** 9, 15 ** 7, 35 ** 5]


def plan_work(out, bs, tier, want=False):
    quick = tier == "quick"
    spread(out, "ComplexFFT", bs, [1 << L for L in range(0, 31) if L not in (16, 18, 19, 20, 21, 22, 23, 24)], "a", want, 6, 2.0)
    for b in bs:
        for L in (16, 18, 20, 22, 24):
            for p in (FWD, INV):
                if not quick or L in (16, 20) or (L == 22) == (b == bs[-1]):
                    out.append((8, ("general", ("ComplexFFT", b, 1 << L, p, want))))
    for L in (19,) if quick else (19, 21, 23):
        for i, m in enumerate(PAIRS_F + PAIRS_I):
            for b in [bs[i % len(bs)]] if quick else bs:
                out.append((20, ("general", ("ComplexFFT", b, 1 << L, m, want))))
    spread(out, "ComplexFFT", bs, SMOOTH, "a", want, 6, 0.6)
    for kind in ("RealFFT", "DCT"):
        spread(out, kind, bs, [2, 4, 6, 10, 16, 30, 64, 100, 486, 1000, 1024, 6250, 1 << 15, 1 << 16, 1 << 18, 2 * 3 ** 9, 2 * 3 ** 13, 2 * 5 ** 9, 2 * 7 ** 7, 2 * 11 ** 5, 1 << 25, 1 << 28],
               "a", want, 4, 1.5)
    spread(out, "BluesteinFFT", bs, [1, 2, 3, 5, 7, 16, 17, 31, 64, 100, 257, 1009, 1024, 4097, 8191, 10007, 65536, 65537, 2 ** 19 - 1, 1048583, 2 ** 25, 2 ** 25 - 39, 2 ** 28, 2 ** 28 - 57],
           "a", want, 5, 4)


def budget(kind, n):
    """instructions a method call of a well-behaved implementation may execute: three to five times what straightforward code needs"""
    if kind == "BluesteinFFT":
        return n * (1000 + 300 * math.log2(max(n, 2)))
    return n * (200 + sum(25 if p == 2 else 100 if p <= 5 else 110 * p for p in rounding.prime_factors(n)))


def plan(prop, bs, tier):
    out = []
    if prop in ("C01", "C02"):
        plan_complex_pow2(out, bs, PAIRS_F if prop == "C01" else PAIRS_I, tier)
    elif prop == "C03":
        plan_mixed(out, bs, tier)
    elif prop in ("C04", "C05"):
        plan_real(out, "RealFFT" if prop == "C04" else "DCT", bs, tier)
    elif prop == "C06":
        plan_bluestein(out, bs, tier)
    elif prop == "C07":
        plan_scale(out, bs, tier)
    elif prop == "C22":
        plan_work(out, bs, tier)
    elif prop == "C21":
        plan_work(out, bs, tier, "chains")
    elif prop == "C15":
        plan_history(out, bs, tier)
    else:
        plan_obligations(out, bs, tier)
    out.sort(key=lambda x: -x[0])
    return [x[1] for x in out]


def check(prop, tier, rep=None):
    rep = rep or Report(prop, tier, "proof")
    rep.rules.append(TEXT[prop])
    jobs.load()
    bs, same = backends()
    if tier != "quick":
        bs = list(jobs.BACKENDS)
    elif same:
        rep.cov["backend_identity"] = "the compiled code of AVX and AVX2 is identical up to names; analysed once"
    todo = plan(prop, bs, tier)
    rep.cov["jobs"] = len(todo)
    st = {"loops": 0, "stages": 0, "clauses": 0, "how": {}, "lengths": {}, "runs": 0, "wall": []}
    for r in jobs.run(todo):
        consume(rep, prop, r, st)
    rep.cov["loops_summarised"] = st["loops"]
    rep.cov["method_runs"] = st["runs"]
    rep.cov["lengths"] = {k: len(v) for k, v in st["lengths"].items()}
    rep.cov["largest_length"] = {k: max(v) for k, v in st["lengths"].items()}
    rep.cov["slowest"] = sorted(st["wall"], reverse=True)[:40]
    if st["how"]:
        rep.cov["decided_by"] = st["how"]
        rep.cov["stages_composed"] = st["stages"]
        rep.cov["store_clauses"] = st["clauses"]
    if st.get("share"):
        rep.cov["largest_share_of_budget"] = st["share"]
    if prop == "C16":
        callgraph.check(rep)
    return rep.finish()


def consume(rep, prop, r, st):
    st["loops"] += r["loops"]
    st["runs"] += len(r["methods"])
    rep.units += len(r["methods"])
    st["lengths"].setdefault(r["kind"], set()).add(r["n"])
    rep.functions |= r["functions"]
    tag = "%s %s(%d)" % (r["backend"], r["kind"], r["n"])
    if r.get("history"):
        tag += " after setup of %s" % ", ".join(str(h) if isinstance(h, int) else "%d (allocation %d failing)" % h for h in r["history"])
    st["wall"].append((round(sum(rec.get("wall", 0) for rec in r["methods"].values()), 1), tag))
    if prop in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C15"):
        values(rep, prop, r, tag, st)
    elif prop == "C21":
        b = rounding.budget(r["kind"], r["n"])
        rep.obligations({k: v for k, v in r["obl"].items() if k == "precision"})
        for rule, loc, msg, m in r["viol"]:
            if rule == "precision":
                rep.violation(rule, loc, "%s::%s: %s" % (tag, m, msg))
        for m, rec in r["methods"].items():
            for k, what in (("tables", "a value computed by setup"), ("chain", "an output")):
                if rec["error"] or rec["same"] or not rec.get(k):
                    continue
                n, loc = rec[k]
                st["share"] = max(st.get("share", (0, "")), (round(n / b, 3), "%s::%s" % (tag, m)))
                rep.oblige("rounding chain", n <= b, loc, "%s::%s: %s is the end of a chain of %.4g rounded operations; %.4g are enough for an error that grows with log N" % (tag, m, what, n, b))
                if k == "chain":
                    rep.sample("%s::%s: at most %d rounded operations in a row" % (tag, m, n))
        errors(rep, r, tag)
    elif prop == "C22":
        b = budget(r["kind"], r["n"])
        for m, rec in r["methods"].items():
            if rec["error"] or rec["same"]:
                continue
            w = rec["cost"]
            st["share"] = max(st.get("share", (0, "")), (round(w / b, 3), "%s::%s" % (tag, m)))
            rep.sample("%s::%s: %d instructions, %.3g per element and factor" % (tag, m, w, w / r["n"] / max(1, len(rounding.prime_factors(r["n"])))))
            if w == float("inf"):
                rep.undecide("%s::%s: the number of iterations of a loop is not bounded" % (tag, m))
                continue
            rep.oblige("work", w <= b, rec["hot"][0], "%s::%s executes %.4g instructions, %.3g per element; %.3g per element is the most an O(N log N) method needs (%s)" % (
                tag, m, w, w / r["n"], b / r["n"], "%.0f%% in the loop at %s" % (100 * rec["hot"][1] / w, rec["hot"][0]) if rec["hot"][0] else "no single loop"))
        errors(rep, r, tag)
    elif prop == "C09":
        rep.oblige("no-orphaned-construct", not r["orphans"], "", "")
        rep.viol = [v for v in rep.viol if v["where"]]
        for loc, kind, stack, m in r["orphans"]:
            rep.violation("no-orphaned-construct", loc, "%s::%s executes an OpenMP '%s' construct outside any parallel region of the library (%s)" % (
                tag, m, kind, " <- ".join(s.split("(")[0][-60:] for s in reversed(stack[-3:]))))
        threaded(rep, r, tag)
        errors(rep, r, tag)
    else:
        rules = RULES[prop]
        rep.obligations({k: v for k, v in r["obl"].items() if k in rules})
        for rule, loc, msg, m in r["viol"]:
            if rule in rules:
                rep.violation(rule, loc, "%s::%s: %s" % (tag, m, msg))
        if prop == "C08":
            threaded(rep, r, tag)
        errors(rep, r, tag)


def values(rep, prop, r, tag, st):
    rep.obligations({k: v for k, v in r["obl"].items()})
    for rule, loc, msg, m in r["viol"]:
        if rule in NUM_RULES:
            rep.violation(rule, loc, "%s::%s: the stored values are not determined: %s" % (tag, m, msg))
    for m, rec in r["methods"].items():
        name = "%s::%s" % (tag, m)
        if rec["error"]:
            rep.undecide("%s: %s" % (name, rec["error"]))
            if not rec["mismatch"]:
                continue
        if rec["same"]:
            exp = SCALE[m] == SCALE[rec["same"]] or r["n"] == 1
            rep.oblige("normalisation", exp, rec["same"], "%s is implemented by the computation of %s, which is scaled differently" % (name, rec["same"]))
            continue
        how = rec.get("decided_by")
        if how:
            st["how"][how] = st["how"].get(how, 0) + 1
        st["stages"] += rec["stats"].get("stages", 0)
        st["clauses"] += rec["stats"].get("clauses", 0)
        if rec["mismatch"]:
            msg, loc = rec["mismatch"]
            if rec.get("scaled"):
                rep.oblige("normalisation", False, loc or tag, "%s: %s" % (name, msg))
            elif prop != "C07":
                rep.oblige("transform-identity", False, loc or tag, "%s is not the transform it should be: %s" % (name, msg))
        elif how:
            rep.oblige("transform-identity" if prop != "C07" else "normalisation", True)
        if rec["scale"] is not None:
            want = float(r["n"]) ** SCALE[m]
            for sc in rec["scales"]:
                rep.oblige("normalisation", abs(sc / want - 1) < 1e-6, name, "%s scales by %.9g instead of %.9g" % (name, sc, want))
            rep.sample("%s: composition of %d stages equals the DFT with factor %.6g" % (name, rec["stats"].get("stages", 0), rec["scale"]))
        elif how:
            rep.sample("%s: %d store clauses expand to the transform's linear map" % (name, rec["stats"].get("clauses", 0)))


def threaded(rep, r, tag):
    """code that looks at thread numbers or team sizes: the result is the transform for every team supplied"""
    for m, rec in r["methods"].items():
        if rec.get("threads"):
            rep.oblige("team-independent result", not rec["mismatch"], rec["mismatch"][1] if rec["mismatch"] else "", "%s::%s depends on the threads it gets: %s" % (
                tag, m, rec["mismatch"][0] if rec["mismatch"] else ""))


def errors(rep, r, tag):
    for m, rec in r["methods"].items():
        if rec.get("threads"):
            rep.cov["thread_dependent_runs"] = rep.cov.get("thread_dependent_runs", 0) + 1
        if rec["error"]:
            rep.undecide("%s::%s: %s" % (tag, m, rec["error"]))
