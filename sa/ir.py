"""Front end: compiles the library's translation units (flags taken from the repository's own CMake build) to LLVM IR,
normalises it with tool/irdump and offers lazily parsed functions."""
import hashlib
import json
import os
import re
import shlex
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OTFFT_REPO", "/repo")
IRDUMP = os.path.join(VERIF, "tool", "irdump")
CACHE = os.environ.get("OTFFT_SA_CACHE", os.path.join(VERIF, ".cache"))


class AnalysisBroken(Exception):
    """the analysis could not be carried out (front end failure, vanished anchor, unsupported construct)"""


def build_tool(force=False):
    src = os.path.join(VERIF, "tool", "irdump.cpp")
    if not force and os.path.exists(IRDUMP) and os.path.getmtime(IRDUMP) >= os.path.getmtime(src):
        return
    tmp = IRDUMP + ".%d" % os.getpid()
    subprocess.run(["g++", "-O1", "-std=c++17", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
                    "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-fno-exceptions", "-fno-rtti", src, "-o", tmp,
                    "-L/usr/lib/llvm-18/lib", "-lLLVM-18"], check=True)
    os.replace(tmp, IRDUMP)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise AnalysisBroken("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


class Unit:
    def __init__(self, src, target, flags, directory):
        self.src = src
        self.target = target
        self.flags = flags
        self.dir = directory
        self.name = os.path.basename(src)
        self.jsonl = None

    @property
    def namespace(self):
        for f in self.flags:
            m = re.match(r"-DOTFFT_NAMESPACE=(\w+)", f)
            if m:
                return m.group(1)
        return None


def units():
    """the library's compile commands, as its own CMakeLists produces them in this sandbox's build"""
    tmp = tempfile.mkdtemp(prefix="otfft-cdb-")
    try:
        env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8")
        for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPPFLAGS"):
            env.pop(k, None)
        run(["cmake", "-S", REPO, "-B", tmp, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-DBUILD_TESTING=OFF",
             "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON", "-Wno-dev"], env=env)
        with open(os.path.join(tmp, "compile_commands.json")) as f:
            db = json.load(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    out = []
    for e in db:
        src = e["file"]
        if not os.path.realpath(src).startswith(os.path.realpath(REPO) + "/src/"):
            continue
        args = shlex.split(e["command"])
        m = re.search(r"CMakeFiles/(\w+)\.dir", e["command"])
        flags = []
        it = iter(args[1:])
        allf = []
        for a in it:
            if a in ("-o", "-c", "-MT", "-MF", "-MQ"):
                next(it, None)
                continue
            if a in ("-I", "-isystem", "-D", "-U", "-include"):
                flags += [a, next(it)]
                continue
            allf.append(a)
            if re.match(r"-(D|I|U|m|std=|isystem)", a) or a in ("-fopenmp", "-fno-exceptions", "-fno-rtti", "-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden"):
                flags.append(a)
        u = Unit(src, m.group(1) if m else "?", flags, e["directory"])
        u.all = allf
        out.append(u)
    if not out:
        raise AnalysisBroken("no library translation unit in the compile commands")
    return out


def _hash_sources():
    h = hashlib.sha256()
    files = []
    for d in ("inc", "src"):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            for f in fs:
                files.append(os.path.join(r, f))
    files += [os.path.join(VERIF, "tool", "irdump.cpp"), os.path.join(VERIF, "tool", "include", "omp.h")]
    hd = os.path.join(VERIF, "harness")
    files += [os.path.join(hd, f) for f in (os.listdir(hd) if os.path.isdir(hd) else [])]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def harness_unit(name, like):
    """a client translation unit of ours, compiled with the flags of one of the library's own units"""
    u = Unit(os.path.join(VERIF, "harness", name), "harness", like.flags, like.dir)
    u.all = like.all
    return u


def compile_unit(u, outdir, threshold, lint=False):
    base = os.path.join(outdir, "%s.%s" % (u.target, u.name))
    js = base + ".jsonl"
    if not os.path.exists(js):
        bc = base + ".%d.bc" % os.getpid()
        flags = [f for f in u.flags]
        run(["clang++-18" if shutil.which("clang++-18") else "clang++", "-O1", "-gline-tables-only", "-Xclang", "-disable-llvm-passes",
             "-ffp-contract=off", "-w"] + flags + ["-idirafter", os.path.join(VERIF, "tool", "include"), "-emit-llvm", "-c", u.src, "-o", bc], cwd=outdir)
        tmp = js + ".%d" % os.getpid()
        run([IRDUMP, "-inline-threshold=%d" % threshold, "-lint=" + base + ".lint", bc, tmp])
        os.unlink(bc)
        os.replace(tmp, js)
    u.jsonl = js
    return u


def frontend(select=None, threshold=225, jobs=8, harness=()):
    """harness: (file, predicate choosing the unit whose flags it takes)"""
    build_tool()
    allu = us = units()
    if select:
        us = [u for u in us if select(u)]
    for h, like in harness:
        c = [u for u in allu if like(u)]
        if not c:
            raise AnalysisBroken("no unit to take the flags of %s from" % h)
        us = us + [harness_unit(h, c[0])]
    key = _hash_sources()[:24] + "-t%d" % threshold
    # (harness units share the directory: they are named after their file)
    key += "-" + hashlib.sha256("|".join(" ".join(u.flags) for u in us).encode()).hexdigest()[:8] if False else ""
    outdir = os.path.join(CACHE, key)
    os.makedirs(outdir, exist_ok=True)
    # keep only a few cache generations
    try:
        gens = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE)), key=os.path.getmtime)
        for g in gens[:-4]:
            if g != outdir:
                shutil.rmtree(g, ignore_errors=True)
    except OSError:
        pass
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(lambda u: compile_unit(u, outdir, threshold), us))
    return us


class Func:
    __slots__ = ("name", "dem", "decl", "linkage", "nounwind", "feat", "file", "line", "args", "nv", "loops", "bbs", "dbg",
                 "loop_of", "hdr", "unit", "cache", "kinds")

    def __init__(self, o, unit):
        self.unit = unit
        self.name = o["name"]
        self.dem = o["dem"]
        self.decl = o["decl"]
        self.linkage = o["linkage"]
        self.nounwind = o["nounwind"]
        self.feat = o["feat"]
        self.file = o.get("file", "")
        self.line = o.get("line", 0)
        self.args = o.get("args", [])
        self.nv = o.get("nv", 0)
        self.loops = o.get("loops", [])
        self.bbs = o.get("bbs", [])
        self.dbg = o.get("dbg", [])
        self.hdr = {}
        self.cache = {}
        for i, l in enumerate(self.loops):
            self.hdr[l["h"]] = i
            l["set"] = set(l["blocks"])

    def loc(self, i):
        if isinstance(i, int) and 0 <= i < len(self.dbg):
            return self.dbg[i]
        return "%s:%s %s" % (self.file, self.line, self.dem)


class Program:
    """all definitions of one backend (or of the common unit)"""

    def __init__(self, us):
        self.units = us
        self.index = {}
        self.globals = {}
        self.decls = {}
        self._parsed = {}
        for u in us:
            with open(u.jsonl, "rb") as f:
                off = 0
                for ln in f:
                    if ln.startswith(b'{"k":"g"'):
                        g = json.loads(ln)
                        o = self.globals.get(g["name"])
                        if o is None or o["decl"]:
                            self.globals[g["name"]] = g
                    else:
                        e = ln.index(b'"', 17)
                        nm = ln[17:e].decode()
                        d = ln.find(b'"decl":', e)
                        if ln[d + 7:d + 8] == b"1":
                            self.decls.setdefault(nm, (u.jsonl, off, len(ln), u))
                        else:
                            self.index.setdefault(nm, []).append((u.jsonl, off, len(ln), u))
                    off += len(ln)

    def _load(self, ent):
        k = ent[:2]
        r = self._parsed.get(k)
        if r is None:
            with open(ent[0], "rb") as f:
                f.seek(ent[1])
                r = Func(json.loads(f.read(ent[2])), ent[3])
            self._parsed[k] = r
        return r

    def has(self, name):
        return name in self.index

    def get(self, name):
        return self._load(self.index[name][0])

    def all_defs(self):
        for nm, es in self.index.items():
            for e in es:
                yield self._load(e)

    def get_decl(self, name):
        return self._load(self.decls[name]) if name in self.decls else None


def loc_site(s):
    """innermost 'file:line function' of a debug chain, repository relative"""
    p = s.split(" < ")[0]
    return p.replace(REPO + "/", "")
