"""python3-vt tool/manifest.py: writes MANIFEST.json (checks + the properties that are not claimed, with the reason)"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INTERP = "abstract interpretation of the compiled source (LLVM IR of all three backends): "
TRUST = ("Trusts clang's lowering of the C++/OpenMP source to IR, the interpreter in sa/interp.py, and the library's own build flags; floating-point "
         "rounding is abstracted away. ")

CHECKS = {
    "C01": ("proof", INTERP + "store summaries per loop, composed and proved equal to the DFT by exact path sums",
            "For each power-of-two length analysed (quick: 2^1..2^24; thorough: to 2^30) and every backend and forward method, equality with the DFT holds for every input. " + TRUST),
    "C02": ("proof", INTERP + "store summaries per loop, composed and proved equal to the inverse DFT by exact path sums",
            "As C01, for the inverse methods. " + TRUST),
    "C03": ("proof", INTERP + "store summaries per loop, composed and proved equal to the DFT by exact path sums",
            "For each non-power-of-two length class analysed (composite, prime, large prime factor) and every backend, equality with the DFT holds for every input. " + TRUST),
    "C04": ("proof", INTERP + "store summaries composed and proved equal to the real DFT / its inverse by exact path sums",
            "For each analysed even length and every backend, for every input. " + TRUST),
    "C05": ("proof", INTERP + "store summaries composed and proved equal to the DCT-II / its inverse by exact path sums",
            "For each analysed even length and every backend, for every input. " + TRUST),
    "C06": ("proof", INTERP + "store summaries composed and proved equal to the DFT by exact path sums over the chirp-z factorisation",
            "For each analysed length and every backend, for every input. " + TRUST),
    "C07": ("proof", INTERP + "derived scale factor of every method compared with its documented normalisation",
            "Lengths and backends as C01. " + TRUST),
    "C08": ("proof", INTERP + "symbolic access footprints of worksharing iterations between barriers proved disjoint",
            "Holds for every thread count and schedule at each analysed length. " + TRUST),
    "C09": ("proof", INTERP + "every OpenMP construct reached from setup or a method is inside a parallel region the library itself opened (no orphans)",
            "Every call path executed abstractly for the analysed lengths. " + TRUST),
    "C10": ("proof", INTERP + "every load/store offset bounded against the size of the buffer it points into",
            "Every access of setup and all methods for each analysed length. " + TRUST),
    "C11": ("proof", "IR query + dataflow: every mutable object of static storage duration in every translation unit, with every access proved initialise-once under a thread-safe guard; calls to libc functions with hidden state",
            "All functions of all translation units of the library, no bound. Trusts clang's lowering and the C++ runtime's guard implementation."),
    "C12": ("proof", "path-complete abstract interpretation of feature detection and the factory (LLVM IR) over every CPUID/XGETBV bit the code inspects, compared with the architecture manuals' rule",
            "Every combination of every feature bit the code looks at, every request, all transform types; other CPUID leaves' contents are arbitrary. Trusts clang's lowering and the class identification by vtable."),
    "C13": ("proof", "symbol-resolution and instruction-class query over the compiled translation units (g++ with the build's own per-unit flags)",
            "All functions of all translation units: every weak definition any unit could win with, every instruction. Trusts the assembler's disassembly and the decoder's instruction classes."),
    "C14": ("proof", INTERP + "every allocation of a history of creations, setups and deletions tracked to its release, with every single request failing in turn (exception paths followed)",
            "Histories over lengths reaching every kernel class, all kinds and backends; failures one at a time or two in a row. " + TRUST),
    "C15": ("proof", INTERP + "object state after a setup history compared with the state after a single setup (effects and memory contents)",
            "Histories of setups over the analysed lengths, every backend and kind. " + TRUST),
    "C16": ("proof", INTERP + "every call, allocation, throw and store to the object or global memory on the paths of every transform method",
            "All paths executed abstractly for the analysed lengths. " + TRUST),
    "C17": ("proof", INTERP + "interval/polynomial bounds on every nsw/nuw integer operation",
            "Every no-wrap operation of setup and all methods for each analysed length. " + TRUST),
    "C18": ("proof", INTERP + "every store of a method classified by the buffer it hits; read-only inputs must receive none",
            "Every store of all methods for each analysed length. " + TRUST),
    "C19": ("proof", INTERP + "alignment requirement of every access against the alignment guaranteed for its buffer",
            "Every access of setup and all methods for each analysed length. " + TRUST),
    "C21": ("proof", INTERP + "length of the longest chain of rounded operations behind every output and table entry, propagated through the summaries and compared with a fixed multiple of log N; narrowing to single precision, cancelling square roots, inaccurate constants and angles",
            "At each analysed length, every method and backend. A chain of k roundings bounds the normwise error by about k times the unit roundoff; cancellation inside sums that are well conditioned normwise is not counted. " + TRUST),
    "C22": ("proof", INTERP + "instruction count of every method as a sum over loops of iterations times body, compared with a fixed multiple of N times the sum of N's prime factors (N log N for Bluestein)",
            "At each analysed length, up to 2^30 (2^28 for Bluestein): powers of two, products of small primes, large primes for Bluestein. Counts operations, not time. " + TRUST),
    "C20": ("proof", "abstract interpretation of every public operation (LLVM IR) to a symbolic expression in its operands, decided equal to the mathematical operation; layout query; lint that const/pure attributes are not contradicted by the body's effects",
            "Every operand value, in exact arithmetic; every operator, constructor and function of the public header, aliasing variants included. Trusts clang's lowering and sympy's normal forms."),
}

NA = {}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    m = {"version": 1,
         "setup_cmd": "python3-vt tool/setup.py",
         "checks": [], "not_applicable": []}
    for p in ids:
        if p in CHECKS:
            lv, tech, note = CHECKS[p]
            m["checks"].append({"property": p, "quick_cmd": "python3-vt checks/run.py %s --tier quick" % p,
                                "thorough_cmd": "python3-vt checks/run.py %s --tier thorough" % p,
                                "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": lv, "level_note": note})
        else:
            m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check registered yet")})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
