"""C13: the objects the build produces, compiled with the build's own flags: instruction sets, symbol resolution, start-up code."""
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from sa import ir
from sa.ir import AnalysisBroken, run
from sa.report import Report

LEVEL = {"common": 0, "sse2": 0, "avx": 1, "avx2": 2}
NS = {"OTFFT_SSE2": "sse2", "OTFFT_AVX": "avx", "OTFFT_AVX2": "avx2"}

SSE3UP = (r"addsubp[sd]|haddp[sd]|hsubp[sd]|lddqu|movddup|movs[hl]dup|fisttp\w*|pshufb|ph(add|sub)(w|d|sw)|pmaddubsw|pmulhrsw|psign[bwd]|palignr|pabs[bwd]|"
          r"p?blend(v?p[sd]|vb|w)|dpp[sd]|extractps|insertps|p(extr|insr)[bdq]|p(max|min)(s[bd]|u[wd])|pmov[sz]x\w+|pmuldq|pmulld|ptest|round[ps][sd]|mpsadbw|packusdw|"
          r"pcmpeqq|phminposuw|movntdqa|pcmp[ei]str[im]|pcmpgtq|crc32\w*|popcnt\w*")
BMI = r"andn[lq]?|bextr\w*|blsi\w*|blsmsk\w*|blsr\w*|bzhi\w*|mulx\w*|pdep\w*|pext[lq]?|rorx\w*|sarx\w*|shlx\w*|shrx\w*|lzcnt\w*|movbe\w*|adcx\w*|adox\w*|rdrand\w*|rdseed\w*"
CRYPTO = r"aes\w+|pclmul\w+|sha(1|256)\w+|gf2p8\w+"
AVX2 = r"vpbroadcast\w+|v(insert|extract)i128|vbroadcasti128|vpblendd|vpmaskmov\w+|vps(ll|rl|ra)v\w+|vpgather\w+|vgather\w+|vpermq|vpermpd|vpermd|vpermps"
FMA = r"vfn?m(add|sub|addsub|subadd)\w+"
F16 = r"vcvtph2ps|vcvtps2ph"

# awk keeps only the lines that may matter: function labels, v-prefixed, and the listed mnemonics
AWK = r'''/^[0-9a-f]+ <.*>:$/ {fn=$2; next} {m=$2; if (m=="lock"||m=="rep"||m=="repz"||m=="repnz"||m=="bnd"||m=="notrack") m=$3;
 n++; if (m ~ /^v/ || m ~ /^(%s)$/) { k=fn "\t" m "\t" ($0 ~ /%%ymm/ ? "y":"") ($0 ~ /%%zmm|%%k[0-7]|%%[xy]mm(1[6-9]|2[0-9]|3[01])/ ? "z":"") ($0 ~ /\(/ ? "m":""); c[k]++ } }
 END {print "#\t" n; for (k in c) print k "\t" c[k]}'''


def short(t):
    return t.replace("otfft_", "")


def flags(u):
    return [f for f in u.all if not f.endswith(".cpp")]


def nm(o):
    out = []
    for ln in run(["nm", o]).splitlines():
        m = re.match(r"^([0-9a-f]*)\s+(\w)\s+(\S+)$", ln)
        if m:
            out.append((m.group(2), m.group(3)))
    return out


def demangle(names):
    names = sorted(set(names))
    r = subprocess.run(["c++filt"], input="\n".join(names) + "\n", stdout=subprocess.PIPE, text=True, check=True)
    return dict(zip(names, r.stdout.split("\n")))


def analyse(job):
    u, tmp = job
    o = os.path.join(tmp, "%s.%s.o" % (u.target, u.name))
    run(["g++"] + flags(u) + ["-w", "-g0", "-c", u.src, "-o", o], cwd=tmp, env=dict(os.environ, LC_ALL="C.UTF-8"))
    syms = nm(o)
    sec = run(["readelf", "-SW", o])
    init = bool(re.search(r"\s\.(init_array|ctors|preinit_array)\S*\s", sec))
    pat = "|".join((SSE3UP, BMI, CRYPTO))
    p1 = subprocess.Popen(["objdump", "-d", "--no-show-raw-insn", "-w", o], stdout=subprocess.PIPE)
    p2 = subprocess.run(["awk", AWK % pat], stdin=p1.stdout, stdout=subprocess.PIPE, text=True)
    p1.wait()
    if p1.returncode or p2.returncode:
        raise AnalysisBroken("disassembly of %s failed" % o)
    ins, n = [], 0
    for ln in p2.stdout.splitlines():
        f = ln.split("\t")
        if f[0] == "#":
            n = int(f[1])
        else:
            ins.append((f[0].strip("<>:"), f[1], f[2], int(f[3])))
    os.unlink(o)
    return u, syms, init, ins, n


def needs(m, fl):
    """level an instruction needs: 0 SSE2, 1 AVX, 2 AVX2, 3 beyond"""
    if "z" in fl or re.fullmatch(FMA, m) or re.fullmatch(F16, m) or re.fullmatch(BMI, m):
        return 3, "FMA" if re.fullmatch(FMA, m) else "BMI/MOVBE" if re.fullmatch(BMI, m) else "F16C" if re.fullmatch(F16, m) else "AVX-512"
    if re.fullmatch(CRYPTO, m.lstrip("v")):
        return 3, "crypto extensions"
    if m[0] == "v" and m not in ("verr", "verw"):
        if re.fullmatch(AVX2, m):
            return 2, "AVX2"
        if m in ("vbroadcastss", "vbroadcastsd") and "m" not in fl:
            return 2, "AVX2"
        if "y" in fl and (m.startswith("vp") or m in ("vmovntdqa", "vmpsadbw")) and not re.fullmatch(r"vpermilp[sd]|vptest|vperm2f128", m):
            return 2, "AVX2"
        return 1, "AVX"
    if re.fullmatch(SSE3UP, m):
        return 1, "SSE3 or later"
    return 0, ""


def check(prop, tier):
    rep = Report(prop, tier)
    us = ir.units()
    tmp = tempfile.mkdtemp(prefix="otfft-isa-")
    try:
        order = {"otfft_sse2": 0}
        jobs = sorted(us, key=lambda u: (order.get(u.target, 1), not re.search("16|8", u.name)))
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(analyse, [(u, tmp) for u in jobs]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rep.rules = ["no object contains an instruction beyond the instruction set its backend is selected for (common and SSE2: SSE2; AVX: AVX; AVX2: AVX2 without FMA, BMI, AVX-512)",
                 "a symbol referenced from an object can only resolve to code of the same or a lower instruction set; the common unit refers to the backends only "
                 "through their factories and deleters, which C12 shows to be called only when supported",
                 "a code symbol the linker may merge across backends is not defined at a higher instruction set than any object referring to it",
                 "no code of an AVX or AVX2 object runs at program start"]
    rep.trusted = ["g++ 13 with the build's own flags (CMake Release)", "binutils disassembly", "instruction-set tables in checks/isa.py"]
    dem = demangle([s for _, syms, _, _, _ in res for _, s in syms] + [i[0] for r in res for i in r[3]])
    defs, weak = {}, {}
    total = 0
    for u, syms, init, ins, n in res:
        t = short(u.target)
        if t not in LEVEL:
            raise AnalysisBroken("unknown target %s" % u.target)
        lv = LEVEL[t]
        total += n
        obj = "%s/%s" % (t, u.name)
        if n == 0:
            raise AnalysisBroken("no code in %s" % obj)
        bad = False
        for fn, m, fl, c in ins:
            need, isa = needs(m, fl)
            if need > lv:
                bad = True
                rep.oblige("instructions within the backend's set", False, "src/%s [%s] %s" % (u.name, t, dem.get(fn, fn)),
                           "%d x %s needs %s, compiled into the %s objects (flags %s)" % (c, m, isa, t, " ".join(f for f in flags(u) if f.startswith("-m"))))
        if not bad:
            rep.oblige("instructions within the backend's set", True)
        if lv > 0:
            rep.oblige("no start-up code above SSE2", not init, "src/%s [%s]" % (u.name, t), "the %s object has static initialisers, which run on every machine" % t)
        for k, s in syms:
            if k in "TDBRGS":
                defs.setdefault(s, []).append((lv, obj, k))
            elif k in "WVui" and k != "v" and k != "w":
                if k in "Wi" or (k == "u"):
                    weak.setdefault(s, []).append((lv, obj, k))
    nref = 0
    for u, syms, init, ins, n in res:
        t = short(u.target)
        lv = LEVEL[t]
        obj = "%s/%s" % (t, u.name)
        for k, s in syms:
            if k not in "UWwiu":
                continue
            d = dem.get(s, s)
            for dl, dobj, dk in defs.get(s, []) + weak.get(s, []):
                nref += 1
                ok = dl <= lv
                if not ok and t == "common" and dk == "T" and re.match(
                        r"OTFFT_\w+::(Factory::create(ComplexFFT|RealFFT|DCT|BluesteinFFT)\(int\)|unique_ptr_deleter\(OTFFT::\w+\*\))$", d):
                    ok = True
                rep.oblige("references stay at or below their instruction set", ok, "src/%s [%s] -> %s" % (u.name, t, d),
                           "%s %s, which %s defines with %s code" % (obj, "refers to" if k == "U" else "may be merged with", dobj, dobj.split("/")[0].upper()))
    rep.cov.update({"objects": len(res), "instructions_disassembled": total, "references_resolved": nref, "weak_code_symbols": len(weak),
                    "anchors": ["CMakeLists.txt", "src/*.cpp"]})
    rep.sample({"object": "%s/%s" % (res[0][0].target, res[0][0].name), "instructions": res[0][4]})
    return rep.finish()
