"""development aid: one interpretation of a cross-section of (backend, kind, length, method), all rules judged at once.
OTFFT_REPO=<tree> python3-vt tool/smoke.py [size]"""
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
sys.setrecursionlimit(20000)
from sa import jobs
import transforms as T

t0 = time.time()
jobs.load()
bs, same = T.backends()
todo = []
A, D = T.ALL, T.DCT_FWD + T.DCT_INV
for b in bs:
    for L in (1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 15):
        todo.append((1, ("general", ("ComplexFFT", b, 1 << L, A, True))))
    for L in (16, 17, 18):
        for g in (T.FWD, T.INV):
            todo.append((20, ("general", ("ComplexFFT", b, 1 << L, g, True))))
    for g in T.PAIRS_F + T.PAIRS_I:
        todo.append((25, ("general", ("ComplexFFT", b, 1 << 19, g, False))))
        todo.append((5, ("c2c", ("ComplexFFT", b, 20, g, True))))
    for n in (1, 3, 5, 6, 7, 12, 13, 15, 30, 49, 105, 143, 360, 1009, 2310, 4096 * 3, 40500, 65535):
        todo.append((1 + n / 4000, ("general", ("ComplexFFT", b, n, A, True))))
    for n in (2 ** 25, 2 ** 30, 3 ** 18, 1073741789):
        todo.append((6, ("general", ("ComplexFFT", b, n, A, False))))
    for n in (2, 4, 6, 8, 14, 64, 90, 1000, 1024, 32768, 65538):
        todo.append((1 + n / 5000, ("general", ("RealFFT", b, n, A, True))))
        todo.append((1 + n / 5000, ("general", ("DCT", b, n, D, True))))
    for n in (2 ** 30,):
        todo.append((10, ("general", ("RealFFT", b, n, A, False))))
        todo.append((10, ("general", ("DCT", b, n, D, False))))
    for n in (1, 2, 3, 4, 5, 9, 17, 100, 1024, 5000, 20011, 32769):
        todo.append((1 + n / 2000, ("general", ("BluesteinFFT", b, n, A, True))))
    todo.append((15, ("general", ("BluesteinFFT", b, 2 ** 28, A, False))))
    for h, n in (((4096,), 1000), ((0,), 64), ((1 << 16,), 4096), ((64, (1024, 2)), 1024)):
        todo.append((5, ("general", ("ComplexFFT", b, n, A[:2], True, h))))
todo.sort(key=lambda x: -x[0])
bad = {}
und = {}
runs = 0
for r in jobs.run([x[1] for x in todo]):
    tag = "%s %s(%d)%s" % (r["backend"], r["kind"], r["n"], r.get("history") or "")
    for m, rec in r["methods"].items():
        runs += 1
        if rec["error"]:
            und.setdefault(rec["error"].split("\n")[0][:200], []).append(tag + "::" + m)
        if rec["mismatch"]:
            bad.setdefault(("transform", rec["mismatch"][1]), []).append(tag + "::" + m + " " + rec["mismatch"][0][:160])
        if rec["same"] and T.SCALE[m] != T.SCALE[rec["same"]] and r["n"] != 1:
            bad.setdefault(("normalisation", m), []).append(tag + " same as " + rec["same"])
        if rec["scale"] is not None and abs(rec["scale"] / float(r["n"]) ** T.SCALE[m] - 1) > 1e-6:
            bad.setdefault(("normalisation", m), []).append(tag)
    for rule, loc, msg, m in r["viol"]:
        bad.setdefault((rule, loc), []).append(tag + "::" + m + " " + msg[:200])
    for o in r["orphans"]:
        bad.setdefault(("orphan", o[0]), []).append(tag)
for k, v in bad.items():
    print("BAD %s: %d, e.g. %s" % (k, len(v), v[0]))
for k, v in und.items():
    print("UNDECIDED %d, e.g. %s: %s" % (len(v), v[0], k))
print("%d runs, %d rules broken, %d undecided, %.0f s" % (runs, sum(map(len, bad.values())), sum(map(len, und.values())), time.time() - t0))
