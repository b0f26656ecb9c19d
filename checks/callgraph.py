"""C16, for every length at once: what the transform methods can reach in the call graph of each backend.

Roots: every transform method in the virtual tables of the classes implementing the public interfaces.  Edges: direct calls, bodies
handed to the OpenMP runtime, virtual calls (every virtual function with the same table slot and parameter types), other indirect calls
(every function of that type whose address is taken).  Only blocks reachable without an exception in flight are followed."""
import re
from sa import ir, jobs

ALLOC = re.compile(r"^(malloc|calloc|realloc|reallocarray|posix_memalign|aligned_alloc|memalign|valloc|pvalloc|strdup|strndup|mmap(64)?|brk|sbrk|_mm_malloc"
                   r"|_Zn[wa].*|__cxa_allocate_exception|kmp_.*alloc.*|omp_alloc|omp_calloc|__kmpc_alloc.*)$")
FREE = re.compile(r"^(free|cfree|munmap|_Zd[la].*|_mm_free|omp_free|__kmpc_free.*)$")
THROW = re.compile(r"^(__cxa_throw|__cxa_rethrow|__cxa_throw_bad_array_new_length|__cxa_bad_cast|__cxa_bad_typeid|_ZSt\d+__throw_.*|_ZSt\d+rethrow_exception.*|longjmp|_Unwind_.*)$")
END = re.compile(r"^(exit|_exit|_Exit|quick_exit|_ZSt9terminatev|raise|kill)$")
IO = re.compile(r"^(v?f?printf|v?dprintf|puts|fputs|putchar|putc|fputc|fwrite|fread|fopen(64)?|fdopen|freopen|fclose|fflush|fgets|fgetc|getc|getchar|gets|fscanf|scanf|getline|getdelim"
                r"|perror|open(64)?|openat|creat|read|pread|write|pwrite|close|lseek|ioctl|fcntl|sync|fsync|system|popen|pclose|syslog|getenv|secure_getenv|setenv|putenv"
                r"|socket|send|sendto|recv|recvfrom|connect|accept|sleep|usleep|nanosleep|select|poll|fork|execve?"
                r"|_ZNSo.*|_ZNSi.*|_ZStls.*|_ZSt(16)?__ostream_insert.*|_ZSt4endl.*|_ZSt5flush.*|_ZNSt8ios_base.*|_ZNSt\d*basic_[io]?f?stream.*|_ZNKSt\d*basic_[io]?f?stream.*|__fprintf_chk|__printf_chk|__vfprintf_chk)$")
LOCK = re.compile(r"^(pthread_(mutex|rwlock|spin|cond|barrier|sem|create|join).*|sem_(wait|timedwait|post)|mtx_.*|cnd_.*|thrd_.*|omp_(set|unset|test|init|destroy)_(nest_)?lock.*|futex|_ZNSt6thread.*|_ZNSt5mutex.*)$")
LIBSTDCXX = re.compile(r"^_Z(NK?)?S[tabiosd]")


def kind(name):
    for k, r in (("no-allocation", ALLOC), ("no-release", FREE), ("no-throw", THROW), ("no-io", IO), ("no-lock", LOCK), ("no-termination", END)):
        if r.match(name):
            return k
    if LIBSTDCXX.match(name):
        return "no-throw"       # out-of-line part of the C++ library: allocates or may throw
    return None


SAFE = re.compile(r"^(llvm\.|__kmpc_|kmp_|omp_get_|sin|cos|sincos|tan|sqrt|exp|log|pow|fabs|floor|ceil|round|trunc|rint|lrint|nearbyint|fmod|fm[ai]|ldexp|frexp|modf|hypot|atan|abs|mem(set|cpy|move|cmp)"
                  r"|__assert_fail$|abort$|__clang_call_terminate$|__cxa_(begin|end)_catch$|__cxa_pure_virtual$|__cxa_guard_|__gxx_personality_v0$|__stack_chk_fail$)")


class Graph:
    def __init__(self, prog):
        self.prog = prog
        self.vt = {}                # class symbol -> {slot offset: function}
        self.taken = set()
        for n, g in prog.globals.items():
            for off, _, ty, v in g["init"]:
                if isinstance(v, list) and v and v[0] == "F":
                    self.taken.add(v[1])
                    if n.startswith("_ZTV"):
                        self.vt.setdefault(n, {})[off - 16] = v[1]
        self.body = {}
        self.unknown = {}

    def bases(self, ti, seen=()):
        """type infos the class derives from, itself included"""
        out = {ti}
        g = self.prog.globals.get(ti)
        if g and not g["decl"]:
            for off, _, ty, v in g["init"]:
                if isinstance(v, list) and v and v[0] == "g" and v[1].startswith("_ZTI") and v[1] not in seen:
                    out |= self.bases(v[1], tuple(seen) + (ti,))
        return out

    def public(self):
        """(class, slot, function): methods of the classes behind the public interfaces"""
        for n, slots in sorted(self.vt.items()):
            g = self.prog.globals[n]
            ti = next((v[1] for off, _, ty, v in g["init"] if isinstance(v, list) and v[0] == "g" and v[1].startswith("_ZTI")), None)
            if ti is None or not any(re.match(r"_ZTIN5OTFFT\d", b) for b in self.bases(ti)):
                continue
            for off, f in sorted(slots.items()):
                yield n, off, f

    def params(self, f):
        if self.prog.has(f):
            return tuple(self.prog.get(f).args)
        return None

    def edges(self, fn):
        """(callee, site) of every call that can happen without an exception in flight"""
        r = self.body.get(fn.name)
        if r is not None:
            return r
        bbs = [b["ins"] if isinstance(b, dict) else b for b in fn.bbs]
        live, todo = set(), [0]
        while todo:
            b = todo.pop()
            if b in live or bbs[b] and any(i[0] == "landingpad" for i in bbs[b]):
                continue
            live.add(b)
            for s in succ(bbs[b][-1]):
                todo.append(s)
        defs = {i[1]: i for b in bbs for i in b if isinstance(i[1], int) and i[1] >= 0}
        out = []
        for b in sorted(live):
            for i in bbs[b]:
                if i[0] in ("call", "invoke"):
                    c = i[3]
                    if isinstance(c, list) and c and c[0] == "F":
                        c = c[1]
                    if isinstance(c, str):
                        if not c.startswith("asm:"):
                            out.append((c, fn.loc(i[5])))
                    else:
                        for t in self.indirect(fn, c, i, defs):
                            out.append((t, fn.loc(i[5])))
                    for t in fnptrs(i[4]):
                        out.append((t, fn.loc(i[5])))
        self.body[fn.name] = out
        return out

    def indirect(self, fn, c, i, defs):
        tys = tuple(i[8])
        slot = None
        d = defs.get(c) if isinstance(c, int) else None
        if d is not None and d[0] == "load":
            p = d[3]
            g = defs.get(p) if isinstance(p, int) else None
            if g is not None and g[0] == "gep":
                off = const_gep(g)
                if off is not None:
                    base = defs.get(g[3]) if isinstance(g[3], int) else None
                    if base is not None and base[0] == "load":
                        slot = off
            elif g is not None and g[0] == "load":
                slot = 0
        if slot is not None:
            r = {s[slot] for s in self.vt.values() if slot in s and self.params(s[slot]) in (tys, None)}
            if r:
                return r
        r = {f for f in self.taken | self.address_taken() if self.params(f) == tys}
        if not r:
            self.unknown[ir.loc_site(fn.loc(i[5]))] = 1
        return r

    def address_taken(self):
        if not hasattr(self, "_at"):
            self._at = set()
            for f in self.prog.all_defs():
                for b in f.bbs:
                    for i in b["ins"] if isinstance(b, dict) else b:
                        ops = i[3:] if i[0] not in ("call", "invoke") else i[4:5]
                        self._at |= set(fnptrs(ops))
        return self._at


def fnptrs(x):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "F" and isinstance(x[1], str):
            yield x[1]
        else:
            for y in x:
                yield from fnptrs(y)


def const_gep(g):
    """constant byte offset of a getelementptr, or None"""
    try:
        off = g[4]
        terms = g[5] if len(g) > 5 else []
        if isinstance(off, int) and not terms:
            return off
    except (IndexError, TypeError):
        pass
    return None


def succ(t):
    op = t[0]
    if op == "br":
        return [t[4]] if t[3] is None else [t[4], t[5]]
    if op == "switch":
        return [t[4]] + [x[1] for x in t[5]]
    if op == "invoke":
        return [t[6]]
    return []


def check(rep):
    units = ir.frontend()
    total = {"functions": set(), "calls": 0, "externals": set(), "roots": 0, "opaque": set()}
    for be in jobs.BACKENDS:
        prog = ir.Program([u for u in units if u.namespace == "OTFFT_" + be])
        g = Graph(prog)
        roots = [(n, off, f) for n, off, f in g.public() if not re.search(r"D[012]Ev$", f) and not re.search(r"\d+setup\d?E", f)]
        if len(roots) < 20:
            raise ir.AnalysisBroken("only %d transform methods found in the virtual tables of %s" % (len(roots), be))
        total["roots"] += len(roots)
        parent = {}
        todo = []
        for n, off, f in roots:
            if f not in parent:
                parent[f] = None
                todo.append(f)
        while todo:
            f = todo.pop()
            if not prog.has(f):
                continue
            fn = prog.get(f)
            total["functions"].add(be + ": " + fn.dem)
            for c, site in g.edges(fn):
                total["calls"] += 1
                if prog.has(c):
                    if c not in parent:
                        parent[c] = (f, site)
                        todo.append(c)
                    continue
                total["externals"].add(c)
                k = kind(c) if not SAFE.match(c) else None
                if k is None and not SAFE.match(c):
                    total["opaque"].add(c)
                rep.oblige("reach:" + (k or "no-forbidden-call"), k is None, ir.loc_site(site), "%s: %s reaches %s (%s)" % (be, chain(prog, parent, f), demangled(prog, c), k))
        for s in g.unknown:
            rep.undecide("%s: indirect call at %s has no candidate target" % (be, s))
    rep.cov["callgraph"] = {"roots": total["roots"], "functions": len(total["functions"]), "calls": total["calls"],
                            "externals_reached": sorted(total["externals"]), "externals_not_classified": sorted(total["opaque"])}
    rep.rules.append("call graph: no allocation, release, throw, input/output, lock or termination function is reachable from any transform method, for any length")


def demangled(prog, c):
    d = prog.get_decl(c)
    return d.dem if d is not None else c


def chain(prog, parent, f):
    out = []
    while f is not None and len(out) < 12:
        out.append(prog.get(f).dem.split("(")[0] if prog.has(f) else f)
        p = parent.get(f)
        f = p[0] if p else None
    return " <- ".join(out)
