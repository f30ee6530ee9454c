"""P05: generated FD kernels read the right grid points, upwind correctly and compute the requested expressions."""
import itertools

import sympy as sp

from vlib import cexec, dag, fdtv, simdtv
from vlib.core import QUICK, SEED, Check, Inconclusive, encoded, nrpy_call, report, rmtree, sample, scratch
from vlib.dag import C, V


def setup(infra):
    """Register gridfunctions; returns (gfs with groups, name -> symbol)."""
    import nrpy.grid as gri
    import nrpy.params as par

    par.set_parval_from_str("Infrastructure", infra)
    gfs = []

    def reg(names, group):
        for n in names:
            gfs.append((n, group))

    gri.register_gridfunctions(["uu", "vv", "Zeta"], group="EVOL")
    reg(["uu", "vv", "Zeta"], "EVOL")
    gri.register_gridfunctions_for_single_rank1("betU", group="EVOL")
    reg(["betU0", "betU1", "betU2"], "EVOL")
    gri.register_gridfunctions_for_single_rank2("hDD", symmetry="sym01", group="EVOL")
    reg(["hDD00", "hDD01", "hDD02", "hDD11", "hDD12", "hDD22"], "EVOL")
    gri.register_gridfunctions(["psiaux", "Kaux"], group="AUXEVOL")
    reg(["psiaux", "Kaux"], "AUXEVOL")
    if infra != "ETLegacy":
        gri.register_gridfunctions(["diag"], group="AUX")
        reg(["diag"], "AUX")
    return gfs


def deriv(gf, op, *dirs):
    """nrpy's name for a derivative: basename + _op + indices (component indices first)."""
    base = gf.rstrip("0123456789")
    comp = gf[len(base):]
    return sp.Symbol(f"{base}_{op}{comp}{''.join(map(str, dirs))}", real=True)


def kernel_sets():
    """name -> (list of expressions, {deriv symbol: (gf, op, dirs)}, upwind control vector)."""
    D = {}

    def d(gf, op, *dirs):
        s = deriv(gf, op, *dirs)
        D[s] = (gf, op, dirs)
        return s

    S = lambda n: sp.Symbol(n, real=True)
    uu, vv, K, psi, Z = S("uu"), S("vv"), S("Kaux"), S("psiaux"), S("Zeta")
    bet = [S(f"betU{i}") for i in range(3)]
    c = S("wavespeed")
    out = {}

    def put(name, exprs, vec=None):
        used = set().union(*[e.free_symbols for e in exprs]) | (set().union(*[sp.sympify(v).free_symbols for v in vec]) if vec else set())
        out[name] = (exprs, {s: v for s, v in D.items() if s in used}, vec)

    put("wave", [vv, c**2 * (d("uu", "dDD", 0, 0) + d("uu", "dDD", 1, 1) + d("uu", "dDD", 2, 2))])
    put("grad", [sum(d("uu", "dD", i) ** 2 for i in range(3)) + uu * vv, d("vv", "dD", 1) * K - psi])
    put("mixed", [d("uu", "dDD", 0, 1) * d("vv", "dDD", 1, 2) - d("uu", "dDD", 0, 2) / (1 + K**2), d("hDD01", "dDD", 0, 1) + d("hDD12", "dDD", 2, 2)])
    put("tensor", [d("hDD02", "dD", 1) - d("hDD12", "dD", 0) + d("betU1", "dD", 2), d("betU0", "dD", 0) + d("betU1", "dD", 1) + d("betU2", "dD", 2)])
    put("upwind", [sum(bet[i] * d("uu", "dupD", i) for i in range(3)), sum(bet[i] * d("hDD12", "dupD", i) for i in range(3)) + d("uu", "dD", 0)], bet)
    put("upwind1", [bet[1] * d("vv", "dupD", 1) - uu], bet)
    put("upwindexpr", [Z * d("uu", "dupD", 2) + bet[0] * d("Zeta", "dupD", 0) ** 2], [bet[0] - 2 * vv, bet[1], K * bet[2]])
    put("ko", [vv + sp.Symbol("diss", real=True) * sum(d("uu", "dKOD", i) for i in range(3)), d("hDD00", "dKOD", 2) - d("hDD00", "dD", 2)])
    put("all", [d("uu", "dD", 0) + 3 * d("uu", "dDD", 0, 0) - d("uu", "dDD", 0, 1) + d("uu", "dKOD", 0) + bet[0] * d("uu", "dupD", 0), sp.Rational(2, 3) * d("vv", "dDD", 1, 2) * uu**2 + Z / 7], bet)
    put("noderiv", [uu * vv - Z / K, psi + bet[2]])
    return out


PARAMS = ["invdxx0", "invdxx1", "invdxx2", "wavespeed", "diss"]


def expected(H, mems, expr, D, vec, order, lane):
    """Oracle value of one output for one lane."""
    memo = {}

    def gfat(gf, off):
        arr, idx = H.index(gf, (off[0] + lane, off[1], off[2]))
        return mems[arr].at(idx)

    def fd(gf, op, dirs):
        r = dag.ZERO
        for off, w in fdtv.stencil(op, dirs, order).items():
            r = dag.add(r, dag.mul(C(w), gfat(gf, off)))
        for x in dirs:
            r = dag.mul(r, V(f"invdxx{x}"))
        return r

    def symmap(s):
        if s in D:
            gf, op, dirs = D[s]
            if op == "dupD" and vec is not None:
                ctrl = dag.from_sympy(sp.sympify(vec[dirs[0]]), {}, symmap=symmap)
                return dag.ite(dag.lt(dag.ZERO, ctrl), fd(gf, "dupD", dirs), fd(gf, "ddnD", dirs))
            return fd(gf, op, dirs)
        if s.name in PARAMS:
            return V(s.name)
        return gfat(s.name, (0, 0, 0))

    return dag.from_sympy(expr, memo, symmap=symmap)


def case(arg):
    infra, order, simd, fdf, isa, names, gk = arg
    import nrpy.finite_difference as fin
    import nrpy.params as par
    from nrpy.c_codegen import c_codegen

    encoded("nrpy.c_codegen.gridfunction_management_and_FD_codegen (generated C)", "nrpy.finite_difference.read_gfs_from_memory", "nrpy.finite_difference.FDFunction", f"nrpy.grid {infra} gridfunction memory access")
    gfs = setup(infra)
    par.set_parval_from_str("fd_order", order)
    d = scratch("fd_")
    hdr = fdtv.bhah_header(d, simd) if infra == "BHaH" else ""
    sets = kernel_sets()
    for nm in names:
        exprs, D, vec = sets[nm]
        key = f"fd:{infra}:{order}:{int(simd)}{int(fdf)}{int(gk)}:{nm}"
        kw = dict(enable_fd_codegen=True, enable_simd=simd, enable_fd_functions=fdf, enable_GoldenKernels=gk)
        if vec is not None:
            kw["upwind_control_vec"] = list(vec)
        if order % 4 == 0:
            kw["mem_alloc_style"] = "012"
        outs = [f"out[{j}*simd_width]" if simd else f"out[{j}]" for j in range(len(exprs))]
        code = nrpy_call(key, c_codegen, list(exprs), outs, **kw)
        pre = fin.construct_FD_functions_prefunc() if fdf else ""
        H = fdtv.Harness(infra, gfs, PARAMS, code, pre, simd, hdr, [d])
        flags = simdtv.ISAS[isa][2]
        err = cexec.syntax_check(H.source(), flags, H.incdirs)
        if err:
            report(key + ":compile", f"FD kernel {nm} ({infra}, order {order}, simd={simd}, fd_functions={fdf}) does not compile: {[l for l in err.splitlines() if 'error' in l][:1]}", {"code": code[:4000], "gcc": err})
            continue
        try:
            ex, mems, out, w = H.run(isa)
        except cexec.ExecError as e:
            raise Inconclusive(f"{key}: {e}") from e
        bad = []
        for lane in range(w):
            pr = dag.Prover()
            for j, e in enumerate(exprs):
                want = expected(H, mems, e, D, vec, order, lane)
                got = ex.read(ex.elem_obj(out, C(j * w + lane))).n
                if not pr.equal(got, want):
                    bad.append((j, lane, got, want))
        # no further writes
        extra = [i for i in out.written if not (dag.isc(i) and 0 <= int(i.a[0]) < len(exprs) * w)]
        if extra:
            report(key + ":writes", f"FD kernel {nm} writes outside its outputs: {extra[:2]}", {"code": code[:4000]})
        if bad:
            confirm(H, mems, key, nm, bad, w, isa, len(exprs), code)
    sample({"infra": infra, "order": order, "simd": simd, "fd_functions": fdf, "isa": isa, "kernels": names})
    rmtree(d)


def confirm(H, mems, key, nm, bad, w, isa, nout, code):
    pv = [2.0, 3.0, 5.0, 1.25, 0.75]
    N = (29, 27, 25)
    rep = None
    for pt in [(10, 11, 12), (9, 12, 10), (11, 9, 9), (12, 10, 11), (8, 13, 12), (13, 8, 9)]:
        env = dict(zip(PARAMS, pv))
        envi = {"i0": pt[0], "i1": pt[1], "i2": pt[2], "N0": N[0], "N1": N[1], "N2": N[2]}
        for a, m in mems.items():
            for vn, idx in m.idx.items():
                env[vn] = fdtv.hashval(a, int(dag.evaluate([idx], envi)[idx.id]))
        got = H.concrete(nout, pv, pt, N, isa)
        for j, lane, _g, want in bad:
            exp = complex(dag.evaluate([want], env)[want.id]).real
            if not abs(got[j * w + lane] - exp) <= 1e-8 * (1 + abs(exp)):
                rep = (j, lane, got[j * w + lane], exp, pt)
                break
        if rep:
            break
    if rep is None:
        raise Inconclusive(f"{key}: counterexample not reproduced by the compiled kernel")
    report(key + ":value", f"FD kernel {nm} ({H.infra}, simd={H.simd}, {isa}) output {rep[0]} lane {rep[1]}: compiled code gives {rep[2]!r}, expected {rep[3]!r} at point {rep[4]}", {"code": code[:6000], "replay": rep})


def main():
    ck = Check(
        "P05",
        "translation_validation",
        assumptions=["real-number semantics (no rounding)", "Intel intrinsics have the lane-wise semantics of the Intrinsics Guide", "each array index is a distinct real variable; grid sizes and the point are symbolic integers"],
        bounds="10 kernels (scalars, vectors, symmetric tensors, EVOL/AUXEVOL/AUX groups, all derivative operators, upwinding with a list or expressions as control vector); orders 2,4,6,8; BHaH, ETLegacy, CarpetX; scalar and SIMD; with and without FD functions",
        explanation="the generated C is executed symbolically with symbolic grid data, grid point and sizes; z3 proves each output equal to the expression with independently computed stencils",
    )
    sets = list(kernel_sets())
    cases = []
    for infra in ("BHaH", "ETLegacy", "CarpetX"):
        for order in (2, 4, 6) if QUICK else (2, 4, 6, 8):
            for simd in (False, True):
                for fdf in (False, True):
                    for gk in (False, True):
                        if gk and (order != 4 or not simd) and QUICK:
                            continue
                        names = sets if order == 2 or not QUICK else [n for n in sets if n not in ("all", "noderiv") and (order == 4 or n != "mixed")]
                        isa = "scalar"
                        half = len(names) // 2
                        for h, part in enumerate((names[:half], names[half:])):
                            cases.append((f"{infra}_{order}_{int(simd)}{int(fdf)}{int(gk)}_{h}", case, (infra, order, simd, fdf, isa, part, gk)))
    for infra, isa in (("BHaH", "avx_fma"), ("ETLegacy", "avx512"), ("CarpetX", "sse2"), ("BHaH", "avx512")):
        for fdf in (False, True):
            cases.append((f"vec_{infra}_{isa}_{int(fdf)}", case, (infra, 2 if isa == "avx512" else 4, True, fdf, isa, ["wave", "upwind", "ko"] if QUICK else sets, False)))
    ck.run(cases)
    ck.finish()


if __name__ == "__main__":
    main()
