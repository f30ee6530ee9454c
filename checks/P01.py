"""P01: scalar C produced by c_codegen computes exactly the sympy expressions it was given."""
import hashlib
import itertools

import sympy as sp

from vlib import corpus, tv
from vlib.core import QUICK, SEED, Check, encoded, nrpy_call

INFRA_TYPE = {"NRPy": None, "BHaH": "REAL", "ETLegacy": "CCTK_REAL", "CarpetX": "CCTK_REAL"}


def optsets():
    o = []
    for cse, srt in ((True, "canonical"), (True, "none"), (False, "canonical")):
        o.append(dict(enable_cse=cse, cse_sorting=srt))
    o.append(dict(enable_cse_preprocess=True))
    o.append(dict(enable_cse_preprocess=True, cse_varprefix="pre", cse_sorting="none"))
    o.append(dict(enable_GoldenKernels=True))
    o.append(dict(cse_varprefix="foo", include_braces=False, verbose=False))
    o.append(dict(enable_cse_preprocess=True, rational_const_alias="const", verbose=True, include_braces=False))
    return o


def make_corpus():
    n = 150 if QUICK else 1200
    fl = corpus.scalar_feature_list()
    funcs = [sp.sin, sp.cos, sp.exp, sp.Abs, sp.tanh, sp.sqrt and (lambda t: sp.sqrt(1 + t**2))]
    ex = fl + corpus.sum_patterns(SEED, n) + corpus.random_trees(SEED, n // 2, funcs, (sp.Rational(1, 2), sp.Rational(-1, 2), sp.Rational(3, 2), sp.Rational(1, 3), sp.Rational(-3, 2)))
    return [g for g in corpus.groups(ex, SEED)]


def keyof(opts, exprs):
    return "c_codegen:" + hashlib.sha1((repr(sorted(opts.items())) + str(exprs)).encode()).hexdigest()[:12]


def gen(groups, opts, infra="NRPy", fp="double", alias=""):
    import nrpy.params as par
    from nrpy.c_codegen import c_codegen

    encoded("nrpy.c_codegen.c_codegen (generated C)", "nrpy.helpers.custom_c_codegen_functions", "nrpy.helpers.cse_preprocess_postprocess")
    par.set_parval_from_str("Infrastructure", infra)
    ks = []
    for g in groups:
        outs = [f"o_{j}" for j in range(len(g))]
        kw = dict(opts)
        if fp != "double":
            kw["fp_type"] = fp
        if alias:
            kw["fp_type_alias"] = alias
        syms = sorted(set().union(*[e.free_symbols for e in g]), key=lambda s: s.name)
        exprs = list(g)
        sc = kw.pop("_single", False)
        if sc:
            g, outs, exprs = g[0], outs[0], exprs[:1]
        code = nrpy_call(keyof(opts, exprs), c_codegen, list(g) if isinstance(g, list) else g, list(outs) if isinstance(outs, list) else outs, **kw)
        ks.append(tv.Kernel(keyof(opts, exprs), code, outs if isinstance(outs, list) else [outs], exprs, syms, fp=fp))
    return ks


def case_values(arg):
    groups, opts, infra, fp, alias = arg
    ks = gen(groups, opts, infra, fp, alias)
    tv.validate_scalar(ks, flags=[f"-DREAL={fp}"])


def case_features(_):
    """Single expression API, prestring/poststring, declared outputs, postprocessing substitution, scalar temporaries."""
    import nrpy.params as par
    from nrpy.c_codegen import c_codegen

    x, y, z, w, a, b = corpus.SYMS
    par.set_parval_from_str("Infrastructure", "BHaH")
    ks = []

    def add(key, outs, names, exprs, want, syms, predecl="", **kw):
        code = nrpy_call("c_codegen:" + key, c_codegen, exprs, names, **kw)
        ks.append(tv.Kernel("c_codegen:" + key, code, outs, want, syms, predecl=predecl))

    for cse in (True, False):
        for pp in (False, True):
            o = dict(enable_cse=cse, enable_cse_preprocess=pp, include_braces=False)
            tag = f"cse{cse}pp{pp}"
            # outputs declared by the generated code itself and consumed by poststring
            add("decl" + tag, ["r0", "r1"], ["const double q0", "double q1"], [x * y + z, (x * y + z) ** 2 / w], [x * y + z + 1, (x * y + z) ** 2 / w], [x, y, z, w], poststring="r0 = q0 + 1.0; r1 = q1;", **o)
            # prestring defines an input
            add("pre" + tag, ["r0"], ["r0"], [a * x + sp.sin(a * x)], [(x + 2) * x + sp.sin((x + 2) * x)], [x], prestring="const double a = x + 2.0;\n", **o)
            # gridpoint-style array outputs
            add("arr" + tag, ["r0", "r1"], ["loc[0]", "loc[1]"], [x - y, (x - y) * 3], [x - y, (x - y) * 3], [x, y], predecl="double loc[2];", poststring="r0 = loc[0]; r1 = loc[1];", **o)
            # duplicate expressions to several outputs
            add("dup" + tag, ["r0", "r1", "r2"], ["r0", "r1", "r2"], [x * y - 2, x * y - 2, -(x * y - 2)], [x * y - 2, x * y - 2, -(x * y - 2)], [x, y], **o)
            # postprocessing substitution (x -> x_new) on every use
            xn = sp.Symbol("x_new")
            add("subst" + tag, ["r0", "r1"], ["r0", "r1"], [x * y + sp.cos(y + z), x**2 + sp.cos(y + z) * x], [xn * y + sp.cos(y + z), xn**2 + sp.cos(y + z) * xn], [xn, y, z], postproc_substitution_dict={"x": "_new"}, **o)
    # scalar temporaries: intermediate results named by the caller
    t0 = sp.Symbol("t0")
    for pp in (False, True):
        add(f"scalartmp{pp}", ["r0"], ["t0", "r0"], [x * y + z, t0**2 + x * y], [(x * y + z) ** 2 + x * y], [x, y, z], SCALAR_TMP_varnames=["t0"], SCALAR_TMP_sympyexprs=[t0], include_braces=False, enable_cse_preprocess=pp)
    tv.validate_scalar(ks, flags=["-DREAL=double"])


def main():
    ck = Check(
        "P01",
        "translation_validation",
        assumptions=[
            "real-number semantics: floating-point rounding and overflow are out of scope",
            "divisors are nonzero, arguments of even roots are >= 0, cbrt arguments >= 0 when matched with fractional powers",
            "functions (sin, exp, ...) are uninterpreted apart from sign symmetries, sin^2+cos^2=1, cosh^2-sinh^2=1",
        ],
        bounds="program shapes: the feature list, sign patterns and seeded random trees of vlib/corpus.py, in multi-output groups of 1..5, for every option set; inputs unbounded reals",
        explanation="each generated C fragment is symbolically executed and z3 proves every output equal to the sympy expression for all inputs",
    )
    groups = make_corpus()
    cases = [("features", case_features, None)]
    B = 40
    for oi, opts in enumerate(optsets()):
        for bi in range(0, len(groups), B):
            cases.append((f"opt{oi}_b{bi//B}", case_values, (groups[bi : bi + B], opts, ["NRPy", "BHaH", "ETLegacy", "CarpetX"][(oi + bi // B) % 4], "double", "")))
    singles = [[e] for e in corpus.scalar_feature_list()]
    for fp in ("float", "long double"):
        for opts in (dict(), dict(enable_cse=False), dict(enable_cse_preprocess=True)):
            for bi in range(0, len(singles), 120):
                cases.append((f"fp_{fp.replace(' ','')}_{len(opts)}_{list(opts)[:1]}_{bi}", case_values, (singles[bi : bi + 120], opts, "BHaH" if fp == "float" else "NRPy", fp, "")))
    for infra in INFRA_TYPE:
        cases.append((f"single_{infra}", case_values, (singles[::3], dict(_single=True), infra, "double", "")))
    cases.append(("alias", case_values, (singles[::4], dict(enable_cse_preprocess=True), "NRPy", "double", "REAL")))
    ck.run(cases)
    ck.finish()


if __name__ == "__main__":
    main()
