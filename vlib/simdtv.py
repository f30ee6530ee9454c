"""Translation validation of SIMD kernels through the real simd_intrinsics.h, per ISA branch."""
import random

from vlib import cexec, dag, tv
from vlib.core import REPO, SEED, Inconclusive, report, sample

HDR = REPO + "/nrpy/helpers"
# name -> (preprocessor defines, lanes, gcc flags for replay)
ISAS = {
    "scalar": ((), 1, ("-U__SSE2__", "-U__SSE3__", "-U__AVX__", "-U__AVX512F__", "-U__FMA__")),
    "sse2": (("__SSE2__=1",), 2, ("-msse2", "-mno-sse3")),
    "sse3": (("__SSE2__=1", "__SSE3__=1"), 2, ("-msse3", "-mno-avx")),
    "sse2_fma": (("__SSE2__=1", "__FMA__=1"), 2, ("-mfma", "-DVERIF_SSE2FMA")),
    "avx": (("__SSE2__=1", "__SSE3__=1", "__AVX__=1"), 4, ("-mavx", "-mno-fma")),
    "avx_fma": (("__SSE2__=1", "__SSE3__=1", "__AVX__=1", "__FMA__=1"), 4, ("-mavx2", "-mfma")),
    "avx512": (("__SSE2__=1", "__SSE3__=1", "__AVX__=1", "__FMA__=1", "__AVX512F__=1"), 8, ("-mavx512f", "-mfma")),
}
PRELUDE = tv.PRELUDE.replace("#ifndef MAYBE_UNUSED\n#define MAYBE_UNUSED\n#endif\n", "") + '#ifdef VERIF_SSE2FMA\n#include <immintrin.h>\n#undef __AVX__\n#undef __AVX2__\n#undef __AVX512F__\n#endif\n#include "simd_intrinsics.h"\n'


def simd_source(kernels):
    src = PRELUDE
    for i, k in enumerate(kernels):
        src += f"void kern_{i}(const double *in, double *outp) {{\n"
        for j, s in enumerate(k.syms):
            src += f"  const REAL_SIMD_ARRAY {s} = ReadSIMD(&in[{j}*simd_width]);\n"
        for o in k.outs:
            src += f"  REAL_SIMD_ARRAY {o};\n"
        src += k.predecl + "\n" + k.code + "\n"
        for j, o in enumerate(k.outs):
            src += f"  WriteSIMD(&outp[{j}*simd_width], {o});\n"
        src += "}\n"
    return src


def validate(kernels, isas, lanes_all=True):
    flags = ISAS["scalar"][2]
    kernels = tv.filter_compiling(kernels, simd_source, flags, [HDR])
    if not kernels:
        return
    src = simd_source(kernels)
    for isa in isas:
        defs, w, rflags = ISAS[isa]
        ex = cexec.Exec(src, defines=defs, incdirs=[HDR], width=w)
        for i, k in enumerate(kernels):
            inarr = ex.newobj(cexec.T("arr", elem=cexec.DBL), "in")
            for j, s in enumerate(k.syms):
                for l in range(w):
                    inarr.conc[j * w + l] = cexec.S(cexec.DBL, dag.V(f"{s.name}@{l}"))
            out = ex.newobj(cexec.T("arr", elem=cexec.DBL), "outp")
            try:
                ex.call(f"kern_{i}", [inarr, out])
            except cexec.ExecError as e:
                # the executor met something outside its C subset: a violation only if the compiler agrees
                if not cexec.syntax_check(simd_source([k]), rflags, [HDR]):
                    raise Inconclusive(f"symbolic execution of SIMD code failed ({isa}): {e} :: {k.code}") from e
                report(k.key + ":" + isa + ":exec", f"{e} in SIMD code for {str(k.exprs)[:200]}", {"code": k.code})
                continue
            bad = []
            for l in sorted({0, w - 1} if not lanes_all else range(w)):
                pr = dag.Prover()
                memo = {}
                for j, e in enumerate(k.exprs):
                    want = dag.from_sympy(e, memo, symmap=lambda s, l=l: dag.V(f"{s.name}@{l}"))
                    got = ex.read(ex.elem_obj(out, dag.C(j * w + l))).n
                    if not pr.equal(got, want):
                        bad.append((j, l))
            if i == 0:
                sample({"isa": isa, "exprs": [str(e)[:200] for e in k.exprs], "code": k.code[:500]})
            if bad:
                rep = replay(simd_source([k]), 0, k, bad, isa)
                if rep is None:
                    raise Inconclusive(f"SIMD counterexample not reproduced ({isa}): {k.exprs} :: {k.code}")
                report(k.key + ":" + isa, f"SIMD code ({isa}) computes {rep['got']!r} instead of {rep['expected']!r} for {str(k.exprs[rep['output']])[:200]}", {"replay": rep, "code": k.code})


def replay(src, idx, k, bad, isa):
    """Compile the real SIMD code and run it; compare lane by lane with the expression."""
    _, w, rflags = ISAS[isa]
    rnd = random.Random(f"simdreplay{SEED}")
    for t in range(10):
        draw = (lambda: rnd.uniform(0.5, 1.5)) if t < 3 else (lambda: rnd.uniform(-2, 2)) if t < 6 else (lambda: rnd.choice([0.0, 0.0, 1.0, -1.0, 2.0]))
        vals = [[draw() for _ in range(w)] for _ in k.syms]
        flat = [v for lane in vals for v in lane]
        try:
            got = tv.run_real(src, idx, flat, len(k.outs) * w, rflags, [HDR])
        except Exception:  # pylint: disable=broad-except
            # SVML intrinsics or instruction set not available here: replay on the scalar branch
            if isa == "scalar":
                return None
            return replay(src, idx, k, [(j, 0) for j, _ in bad], "scalar")
        for j, l in bad:
            try:
                exp = tv.expected_value(k.exprs[j], k.syms, [v[l] for v in vals])
            except Exception:  # pylint: disable=broad-except
                continue
            if abs(exp.imag) > 1e-12 or exp.real != exp.real:
                continue
            g = got[j * w + l]
            if not abs(g - exp.real) <= 1e-9 * (1 + abs(exp.real)):
                return dict(isa=isa, inputs=dict(zip(map(str, k.syms), [v[l] for v in vals])), lane=l, output=j, got=g, expected=exp.real)
    return None
