"""Entry points: build an object through the backend's factory and call its public methods, all inside the abstract interpreter."""
import re
from . import ring
from .interp import Interp, Ptr, FnPtr, Region, Unsupported
from .ir import AnalysisBroken
from .poly import pmul

KINDS = {"ComplexFFT": ("fwd", "fwd0", "fwdu", "fwdn", "inv", "inv0", "invu", "invn"),
         "BluesteinFFT": ("fwd", "fwd0", "fwdu", "fwdn", "inv", "inv0", "invu", "invn"),
         "RealFFT": ("fwd", "fwd0", "fwdu", "fwdn", "inv", "inv0", "invu", "invn"),
         "DCT": ("fwd", "fwd0", "fwdn", "inv", "inv0", "invn")}


def factory_name(prog, kind):
    c = [nm for nm in prog.index if "create" in nm and re.match(r"\w+::Factory::create%s\(int\)$" % kind, prog_dem(prog, nm))]
    if len(c) != 1:
        raise AnalysisBroken("factory create%s(int) not found" % kind)
    return c[0]


def prog_dem(prog, nm):
    d = prog.__dict__.setdefault("_dem", {})
    r = d.get(nm)
    if r is None:
        r = d[nm] = prog.get(nm).dem if "Factory" in nm or "setup" in nm or "fwd" in nm or "inv" in nm else nm
    return r


def create(it, kind, n):
    """-> Ptr to the object"""
    p = it.call(factory_name(it.prog, kind), [n])
    if isinstance(p, tuple):
        p = p[0]
    if not isinstance(p, Ptr) or p.r is None:
        raise AnalysisBroken("create%s returned %r" % (kind, p))
    return p


def vtable(it, obj):
    """method signature (without class) -> function name"""
    c = obj.r.cells.get(obj.off)
    if c is None or not isinstance(c[1], Ptr):
        raise AnalysisBroken("object without a vtable pointer")
    vt = c[1]
    out = {}
    for off, (s, v) in vt.r.cells.items():
        if off >= vt.off and isinstance(v, FnPtr):
            fn = it.prog.get(v.name) if it.prog.has(v.name) else it.prog.get_decl(v.name)
            m = re.search(r"::(~?\w+)(\([^()]*\))", fn.dem.replace("std::", ""))
            d = fn.dem
            k = d[:d.rindex("(")].rsplit("::", 1)[-1] if "(" in d else d
            out.setdefault(k, []).append((off - vt.off, v.name, len(fn.args)))
    return out


def method(it, obj, name, nargs=None):
    c = vtable(it, obj).get(name)
    if not c:
        raise AnalysisBroken("virtual method %s not found" % name)
    if nargs is not None:
        c = [x for x in c if x[2] == nargs + 1]
        if not c:
            raise AnalysisBroken("virtual method %s with %d arguments not found" % (name, nargs))
    return sorted(c)[0][1]


def caller_array(it, name, ndoubles):
    r = it.new_region(name, pmul(ndoubles, 8), "caller", 8)
    return Ptr(r, 0)
