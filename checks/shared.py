"""C11: writable static storage of the library: who may write it, and when; hidden state behind library calls."""
import json
import re
from sa import ir
from sa.ir import AnalysisBroken, Program, loc_site
from sa.report import Report

# calls that read or change state shared by the whole process
HIDDEN = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "erand48", "strtok", "setlocale", "localtime", "gmtime", "ctime", "asctime", "setenv", "unsetenv",
          "putenv", "strerror", "tmpnam", "signal", "sigaction", "lgamma", "gamma", "getopt", "omp_set_num_threads", "omp_set_nested", "omp_set_dynamic",
          "omp_set_schedule", "omp_set_max_active_levels", "fesetround", "fesetenv", "feenableexcept", "fedisableexcept", "mallopt", "setrlimit", "chdir",
          "_ZSt13set_terminatePFvvE", "_ZSt15set_new_handlerPFvvE", "atexit", "kmp_set_defaults"}
ACQ, REL, ABO = "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"


def mentions(o, names, out):
    if isinstance(o, list):
        if len(o) == 3 and o[0] == "g" and isinstance(o[1], str):
            if o[1] in names:
                out.add(o[1])
            return
        for x in o:
            if isinstance(x, list):
                mentions(x, names, out)


class Unit:
    """one translation unit: its mutable statics and where their addresses flow"""

    def __init__(self, u):
        self.u = u
        self.prog = Program([u])
        self.mut = {n: g for n, g in self.prog.globals.items()
                    if not g["const"] and not n.startswith("llvm.") and not n.startswith((".gomp_critical", "_ZTH", "_ZTV")) and not g["tls"]}
        self.guards = {n for n in self.mut if n.startswith("_ZGV")}
        self.flow = {}        # function name -> per value: set of globals
        self.pts_arg = {}     # (function, arg) -> set
        self.ret = {}         # function -> set
        self.funcs = {}

    def candidates(self):
        """functions that mention a mutable static, and everything they reach or that reaches them through arguments"""
        out = set()
        names = [json.dumps(n) for n in self.mut]
        for nm, es in self.prog.index.items():
            for (path, off, ln, _) in es:
                with open(path, "rb") as f:
                    f.seek(off)
                    t = f.read(ln).decode()
                if any(n in t for n in names):
                    out.add(nm)
        return out

    def base(self, f, env, v):
        if isinstance(v, list):
            if v and v[0] == "g" and v[1] in self.mut:
                return {v[1]}
            if v and v[0] == "c":
                s = set()
                for x in v[2]:
                    s |= self.base(f, env, x)
                return s
            return set()
        if isinstance(v, int) and v >= 0:
            return env.get(v, set())
        return set()

    def analyse(self, rep):
        work = set(self.candidates())
        envs = {}
        callers = {}          # callee -> list of (caller, block, instr index)
        done = False
        scanned = set()
        while not done:
            done = True
            for nm in sorted(work):
                fn = self.prog.get(nm)
                env = envs.setdefault(nm, {})
                for k in range(len(fn.args)):
                    s = self.pts_arg.get((nm, k), set())
                    if s - env.get(k, set()):
                        env[k] = env.get(k, set()) | s
                        done = False
                for b, bb in enumerate(fn.bbs):
                    for i, I in enumerate(bb):
                        op = I[0]
                        r = set()
                        if op == "getelementptr":
                            r = self.base(fn, env, I[3])
                        elif op == "phi":
                            for v, _ in I[3]:
                                r = r | self.base(fn, env, v)
                        elif op == "select":
                            r = self.base(fn, env, I[4]) | self.base(fn, env, I[5])
                        elif op in ("bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast", "extractvalue"):
                            r = self.base(fn, env, I[3])
                        elif op == "insertvalue":
                            r = self.base(fn, env, I[3]) | self.base(fn, env, I[4])
                        elif op in ("add", "sub", "and", "or"):
                            r = self.base(fn, env, I[3]) | self.base(fn, env, I[4])
                        elif op in ("call", "invoke"):
                            c = I[3]
                            if isinstance(c, str) and self.prog.has(c):
                                callers.setdefault(c, set()).add((nm, b, i))
                                for k, a in enumerate(I[4]):
                                    s = self.base(fn, env, a)
                                    if s - self.pts_arg.get((c, k), set()):
                                        self.pts_arg[(c, k)] = self.pts_arg.get((c, k), set()) | s
                                        work = work | {c}
                                        done = False
                                r = self.ret.get(c, set())
                            elif isinstance(c, str) and c == "__kmpc_fork_call":
                                tgt = I[4][2][1] if isinstance(I[4][2], list) and I[4][2][0] == "F" else None
                                if tgt and self.prog.has(tgt):
                                    callers.setdefault(tgt, set()).add((nm, b, i))
                                    for k, a in enumerate(I[4][3:]):
                                        s = self.base(fn, env, a)
                                        if s - self.pts_arg.get((tgt, k + 2), set()):
                                            self.pts_arg[(tgt, k + 2)] = self.pts_arg.get((tgt, k + 2), set()) | s
                                            work = work | {tgt}
                                            done = False
                        elif op == "ret" and len(I) > 4:
                            s = self.base(fn, env, I[3])
                            if s - self.ret.get(nm, set()):
                                self.ret[nm] = self.ret.get(nm, set()) | s
                                done = False
                        if r and I[1] >= 0 and r - env.get(I[1], set()):
                            env[I[1]] = env.get(I[1], set()) | r
                            done = False
            # a function whose result carries an address: its callers must be looked at
            carry = {n for n, s in self.ret.items() if s}
            if carry - scanned:
                for nm, es in self.prog.index.items():
                    if nm in work:
                        continue
                    with open(es[0][0], "rb") as f:
                        f.seek(es[0][1])
                        t = f.read(es[0][2]).decode()
                    if any(json.dumps(c) in t for c in carry - scanned):
                        work.add(nm)
                        done = False
                scanned |= carry
        # static initialisation
        init = set()
        g = self.prog.globals.get("llvm.global_ctors")
        for _, _, _, c in (g["init"] if g else []):
            if c[0] == "F":
                init.add(c[1])
        guarded = {nm: self.guard_state(self.prog.get(nm)) for nm in work}
        # functions only ever entered during initialisation
        allcallers = {}
        for nm in work:
            allcallers[nm] = callers.get(nm, set())
        only_init = set(init)
        changed = True
        addr = self.address_taken(work)
        while changed:
            changed = False
            for nm in work:
                if nm in only_init:
                    continue
                fn = self.prog.get(nm)
                cs = allcallers[nm] | self.other_callers(nm, work)
                if not cs or nm in addr or fn.linkage == 0:
                    continue
                if all(c in only_init or guarded.get(c, {}).get((b, i), False) for c, b, i in cs):
                    only_init.add(nm)
                    changed = True
        for nm in sorted(work):
            fn = self.prog.get(nm)
            env = envs[nm]
            gs = guarded[nm]
            rep.functions.add(fn.dem)
            for b, bb in enumerate(fn.bbs):
                for i, I in enumerate(bb):
                    op = I[0]
                    ok = nm in only_init or gs.get((b, i), False)
                    loc = None
                    if op == "store":
                        for t in self.base(fn, env, I[4]):
                            self.judge(rep, ok, t, fn.loc(I[9]), "is written here outside its one-time initialisation")
                        for t in self.base(fn, env, I[3]) - self.guards:
                            if not self.base(fn, env, I[4]) and not self.is_local(fn, I[4]):
                                self.judge(rep, False, t, fn.loc(I[9]), "has its address stored in memory here, so later writes through it are shared between objects")
                    elif op in ("atomicrmw", "cmpxchg"):
                        for t in self.base(fn, env, I[3]):
                            self.judge(rep, ok, t, fn.loc(I[-1]), "is modified here outside its one-time initialisation")
                    elif op in ("call", "invoke"):
                        c = I[3]
                        if isinstance(c, str) and (self.prog.has(c) or c in (ACQ, REL, ABO) or c == "__kmpc_fork_call"):
                            continue
                        name = c if isinstance(c, str) else "?"
                        for k, a in enumerate(I[4]):
                            for t in self.base(fn, env, a):
                                if name.startswith(("llvm.invariant", "llvm.lifetime", "__kmpc_", "llvm.dbg", "__cxa_atexit", "__cxa_throw")):
                                    continue
                                if name.startswith(("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")) and k == 1:
                                    continue
                                if t.startswith(("_ZTI", "__dso_handle", ".kmpc", ".gomp")):
                                    continue
                                self.judge(rep, ok, t, fn.loc(I[5]), "is passed to %s outside its one-time initialisation" % name)
        return len(work)

    def is_local(self, fn, v):
        """destination in the function's own frame"""
        if not isinstance(v, int):
            return False
        d = self.defs(fn)
        for _ in range(12):
            I = d.get(v)
            if I is None:
                return False
            if I[0] == "alloca":
                return True
            if I[0] in ("getelementptr", "bitcast") and isinstance(I[3], int):
                v = I[3]
                continue
            return False
        return False

    def defs(self, fn):
        k = fn.name
        if k not in self.funcs:
            self.funcs[k] = {I[1]: I for bb in fn.bbs for I in bb if isinstance(I[1], int) and I[1] >= 0}
        return self.funcs[k]

    def judge(self, rep, ok, t, loc, what):
        g = self.prog.globals[t]
        if t in self.guards and ok is False and "written" not in what:
            pass
        rep.oblige("mutable static storage is written only while initialised once", ok, loc_site(loc), "static storage '%s' %s" % (g["dem"], what))

    def address_taken(self, work):
        out = set()
        names = {nm: '["F", %s]' % json.dumps(nm) for nm in work}
        alt = {nm: '["F",%s]' % json.dumps(nm) for nm in work}
        for nm, es in self.prog.index.items():
            with open(es[0][0], "rb") as f:
                f.seek(es[0][1])
                t = f.read(es[0][2]).decode()
            if '"F"' not in t:
                continue
            for w in work:
                if names[w] in t or alt[w] in t:
                    if not (nm in work and self.only_forked(self.prog.get(nm), w)):
                        out.add(w)
        for g in self.prog.globals.values():
            if g["name"] == "llvm.global_ctors":
                continue
            for e in g["init"]:
                if e[3][0] == "F" and e[3][1] in work:
                    out.add(e[3][1])
        return out

    @staticmethod
    def only_forked(fn, w):
        for bb in fn.bbs:
            for I in bb:
                if I[0] in ("call", "invoke") and I[3] == "__kmpc_fork_call":
                    continue
                if json.dumps(["F", w]) in json.dumps(I):
                    return False
        return True

    def other_callers(self, nm, work):
        out = set()
        for f in self.prog.index:
            if f in work:
                continue
            es = self.prog.index[f]
            with open(es[0][0], "rb") as fh:
                fh.seek(es[0][1])
                t = fh.read(es[0][2]).decode()
            if json.dumps(nm) in t:
                out.add((f, -1, -1))
        return out

    def guard_state(self, fn):
        """(block, instruction) -> True when every path to it has taken a guard (and not released it)"""
        n = len(fn.bbs)
        ent = [None] * n
        ent[0] = frozenset()
        d = self.defs(fn)
        work = [0]
        out = {}

        def guard_of(v):
            """v is 'acquire(guard) != 0' -> (guard, sense)"""
            I = d.get(v) if isinstance(v, int) else None
            if I is None:
                return None
            if I[0] == "icmp" and I[3] in ("eq", "ne"):
                for x, y in ((I[4], I[5]), (I[5], I[4])):
                    J = d.get(x) if isinstance(x, int) else None
                    if J is not None and J[0] in ("call", "invoke") and J[3] == ACQ and isinstance(y, list) and y[0] in ("i", "z") and (y[0] == "z" or y[1] == 0):
                        a = J[4][0]
                        return (a[1] if isinstance(a, list) and a[0] == "g" else "?"), I[3] == "ne"
            if I[0] == "trunc" or I[0] == "zext":
                return guard_of(I[3])
            return None
        while work:
            b = work.pop()
            st = set(ent[b])
            for i, I in enumerate(fn.bbs[b]):
                out[(b, i)] = bool(st)
                if I[0] in ("call", "invoke") and I[3] in (REL, ABO):
                    a = I[4][0]
                    st.discard(a[1] if isinstance(a, list) and a[0] == "g" else "?")
            T = fn.bbs[b][-1]
            succ = []
            if T[0] == "br":
                if T[3] is None:
                    succ = [(T[4], st)]
                else:
                    g = guard_of(T[3])
                    if g:
                        yes = st | {g[0]}
                        succ = [(T[4], yes if g[1] else st), (T[5], st if g[1] else yes)]
                    else:
                        succ = [(T[4], st), (T[5], st)]
            elif T[0] == "switch":
                succ = [(T[4], st)] + [(t, st) for _, t in T[5]]
            elif T[0] == "invoke":
                succ = [(T[6], st), (T[7], st)]
            for s, v in succ:
                v = frozenset(v)
                nv = v if ent[s] is None else ent[s] & v
                if ent[s] is None or nv != ent[s]:
                    ent[s] = nv
                    work.append(s)
        return out


def externals(prog):
    return {n: f for n, f in ((n, prog.get_decl(n)) for n in prog.decls) if not prog.has(n)}


def check(prop, tier):
    rep = Report(prop, tier)
    us = ir.frontend()
    rep.rules = ["static storage that is not constant is written only by static initialisation or inside the compiler's once-only guard; its address never ends up in an object",
                 "no call to a library function that keeps process-wide state"]
    rep.trusted = ["clang 18 lowering to LLVM IR", "Itanium C++ ABI guard protocol", "C library functions other than the listed ones keep no process-wide state"]
    nmut, nfun, next_ = 0, 0, set()
    mut = []
    for u in us:
        x = Unit(u)
        nmut += len(x.mut)
        mut += ["%s: %s" % (u.name, g["dem"]) for g in x.mut.values() if not g["decl"]]
        rep.oblige("static storage inventoried", True)
        if x.mut:
            nfun += x.analyse(rep)
        for n, f in externals(x.prog).items():
            next_.add(f.dem)
            hid = n in HIDDEN
            if hid:
                site = where_called(x.prog, n)
                rep.oblige("no call with process-wide state", False, site, "calls %s, which keeps state shared by all threads" % f.dem)
            else:
                rep.oblige("no call with process-wide state", True)
    rep.cov.update({"translation_units": len(us), "mutable_statics": nmut, "mutable_static_names": mut[:40], "functions_touching_them": nfun, "external_functions": sorted(next_)[:80]})
    rep.sample({"units": len(us), "mutable": mut[:6]})
    return rep.finish()


def where_called(prog, name):
    key = json.dumps(name)
    for nm, es in prog.index.items():
        with open(es[0][0], "rb") as f:
            f.seek(es[0][1])
            t = f.read(es[0][2]).decode()
        if key in t:
            fn = prog.get(nm)
            for bb in fn.bbs:
                for I in bb:
                    if I[0] in ("call", "invoke") and I[3] == name:
                        return loc_site(fn.loc(I[5]))
    return name
