"""P02: SIMD C produced by c_codegen compiles on its own and computes the sympy expressions lane by lane."""
import hashlib

import sympy as sp

from vlib import corpus, simdtv, tv
from vlib.core import QUICK, SEED, Check, encoded, nrpy_call

R = sp.Rational


def feature_list():
    x, y, z, w, a, b = corpus.SYMS
    L = []
    for n in range(-7, 8):
        L += [x**n, (x + y) ** n * z, 3 * x**n - y, -(x**n), y / (x**n + 2)]
    for q in (R(1, 2), R(-1, 2), R(-3, 2), R(-5, 2)):
        L += [x**q, (x * y + z) ** q, R(3, 7) * x**q - y, z * (x + 2) ** q / y, -(x**q), x**q + y**q]
    for f in (sp.sin, sp.cos, sp.exp, sp.sqrt, sp.Abs):
        L += [f(x), f(x * y) - f(y) ** 2, 1 / f(x + y), R(2, 3) * f(2 * x) * f(x), f(-x + R(1, 3)), f(f(x) + 1), -f(x) * y]
    L += [sp.Integer(0), sp.Integer(1), sp.Integer(-1), sp.Integer(7), R(-3, 5), R(1, 3)]
    L += [x, -x, x - y, y - x, -x - y, x * y, -x * y, x / y, -x / y, 1 / (x * y), -1 / (x + y), x / (y * z), x / (y / z)]
    L += [(x - y) * (x + y), (x - y) / (x + y), -(x - y) * (z - w), x - (y - z), x - y * z, x * y - z * w, -x * y - z * w, -x * y + z * w]
    L += [x * y * z * w, x * y * z + w, x + y + z + w + a + b, x * y + z * w + a * b, x * y - z * w - a * b, R(1, 2) * x * y - R(1, 3) * z * w + R(3, 4) * a]
    L += [x * (y + z * (w + a * (b + 1))), 1 / (1 + 1 / (1 + 1 / x)), sp.sqrt(x + sp.sqrt(y + sp.sqrt(z)))]
    L += [2 * x + 3 * y - 5 * z, 2 * (x + y) ** 2 - 3 * (x + y) + 1, R(-1, 12) * x + R(4, 3) * y - R(5, 2) * z + R(4, 3) * w - R(1, 12) * a]
    L += [(-x) ** 3, (-x * y) ** 2 + z, -((x - y) ** 2), (-(x + y)) ** 5, x + 1, 1 - x, x - 1, -1 - x, 2 - x * y]
    return L


def supported(e):
    """Only operations the SIMD header provides."""
    ok = (sp.Rational(1, 2), sp.Rational(-1, 2), sp.Rational(-3, 2), sp.Rational(-5, 2))
    for p in e.atoms(sp.Pow):
        if p.base != sp.E and not (p.exp.is_Integer or p.exp in ok):
            return False
        if p.base.is_number and p.base != sp.E:
            return False  # numeric radicals: see numeric_radical_case
    return not e.atoms(sp.NumberSymbol) - {sp.E}


def optsets():
    o = []
    for subs in (False, True):
        for fma in (True, False):
            o.append(dict(simd_find_more_subs=subs, simd_find_more_FMAsFMSs=fma))
    o.append(dict(enable_GoldenKernels=True))
    o.append(dict(enable_cse_preprocess=True, cse_varprefix="FDPart3"))
    o.append(dict(simd_clean_NegativeOnes_after_processing=True, cse_varprefix="pp"))
    o.append(dict(cse_sorting="none", enable_cse_preprocess=True, simd_find_more_subs=True, simd_find_more_FMAsFMSs=False))
    return o


def case(arg):
    groups, opts, infra, isas = arg
    import nrpy.params as par
    from nrpy.c_codegen import c_codegen

    encoded("nrpy.c_codegen.c_codegen(enable_simd=True) (generated C)", "nrpy.helpers.simd.expr_convert_to_simd_intrins", "nrpy/helpers/simd_intrinsics.h macros")
    par.set_parval_from_str("Infrastructure", infra)
    ks = []
    for g in groups:
        key = "simd:" + hashlib.sha1((repr(sorted(opts.items())) + str(g)).encode()).hexdigest()[:12]
        outs = [f"o_{j}" for j in range(len(g))]
        syms = sorted(set().union(*[e.free_symbols for e in g]), key=lambda s: s.name)
        code = nrpy_call(key, c_codegen, list(g), list(outs), enable_simd=True, **opts)
        ks.append(tv.Kernel(key, code, outs, list(g), syms))
    simdtv.validate(ks, isas)


def numeric_radical_case(_):
    """sqrt(2)*x: the radicand has to be a vector on every ISA branch."""
    from nrpy.c_codegen import c_codegen

    x = corpus.SYMS[0]
    for n in (2, 3):
        key = f"numeric-radical:sqrt({n})*x"
        code = nrpy_call(key, c_codegen, sp.sqrt(n) * x, "o_0", enable_simd=True)
        simdtv.validate([tv.Kernel(key, code, ["o_0"], [sp.sqrt(n) * x], [x])], ["scalar", "avx"])


def main():
    ck = Check(
        "P02",
        "translation_validation",
        assumptions=[
            "real-number semantics (no rounding); divisors nonzero; sqrt arguments >= 0",
            "Intel intrinsics have the lane-wise semantics of the Intrinsics Guide (table in vlib/cexec.py)",
            "operations limited to those simd_intrinsics.h provides: + - * /, integer powers, square roots and their odd negative powers, abs, exp, sin, cos",
        ],
        bounds="program shapes: feature list, all sign patterns of three-term sums, seeded sums and trees; every option set; ISA branches scalar for all shapes and each vector branch for a rotating subset",
        explanation="generated SIMD C is preprocessed with the real simd_intrinsics.h, executed lane by lane and proved equal to the sympy expression by z3",
    )
    n = 300 if QUICK else 3000
    x, y, z, w, a, b = corpus.SYMS
    ex = feature_list() + corpus.sum_patterns(SEED, n) + corpus.random_trees(SEED, n // 3, [sp.sin, sp.cos, sp.exp, sp.Abs], (R(1, 2), R(-1, 2), R(-3, 2), R(-5, 2)))
    signs = corpus.all_sign_patterns()
    singles = [[e] for e in feature_list()] + [[e] for e in signs[::3 if QUICK else 1]]
    gr = [h for h in ([e for e in g if supported(e)] for g in corpus.groups(ex, SEED)) if h]
    singles = [g for g in singles if supported(g[0])]
    vec = ["sse2", "sse2_fma", "avx", "avx_fma", "avx512"]
    cases = []
    B = 40
    for oi, opts in enumerate(optsets()):
        for bi in range(0, len(gr), B):
            cases.append((f"opt{oi}_g{bi//B}", case, (gr[bi : bi + B], opts, ["BHaH", "ETLegacy", "CarpetX"][bi // B % 3], ["scalar"])))
        for bi in range(0, len(singles), 80):
            cases.append((f"opt{oi}_s{bi//80}", case, (singles[bi : bi + 80], opts, "BHaH", ["scalar"])))
        cases.append((f"opt{oi}_vec", case, (gr[oi :: 12], opts, "BHaH", [vec[oi % 5], vec[(oi + 2) % 5]])))
    cases.append(("numeric_radical", numeric_radical_case, None))
    ck.run(cases)
    ck.finish()


if __name__ == "__main__":
    main()
