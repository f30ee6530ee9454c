"""P14: rfm-precompute lookup tables hold the right function values and are read at the right index."""
from vlib import bhah, cexec, dag
from vlib.bhah import crun, darr, hashof, structs
from vlib.core import STATS, Check, Inconclusive, encoded, nrpy_call, report, rmtree, sample
from vlib.dag import C, V

R3 = range(3)
SYSTEMS = ["Spherical", "SinhSpherical", "SinhSphericalv2n2", "SinhSphericalv2n4", "HoleySinhSpherical", "RingHoleySinhSpherical", "Cartesian", "SinhCartesian", "Cylindrical", "SinhCylindrical", "SinhCylindricalv2n2", "SinhCylindricalv2n4", "SymTP", "SinhSymTP", "LWedgeHSinhSph", "UWedgeHSinhSph"]
S, INT, DBL = cexec.S, cexec.INT, cexec.DBL
W = 4


def freevars(cs):
    import nrpy.reference_metric as rm

    r = rm.reference_metric[cs + "_rfm_precompute"]
    return {str(a): b for a, b in zip(r.freevars_uniq_xx_indep, r.freevars_uniq_vals) if "_of_xx" in str(a)}


def case(arg):
    systems, simd, collapse, shape = arg
    key = f"rfm:{'+'.join(systems)}:{'simd' if simd else 'scalar'}:{collapse}"
    encoded("rfm_precompute_malloc", "rfm_precompute_defines", "rfm_precompute_free", "simple_loop(enable_rfm_precompute) (generated)")
    import nrpy.finite_difference  # noqa
    import nrpy.params as par

    par.set_parval_from_str("Infrastructure", "BHaH")
    par.set_parval_from_str("fd_order", 2)
    from nrpy.infrastructures.BHaH import CodeParameters, rfm_precompute
    from nrpy.infrastructures.BHaH.simple_loop import simple_loop
    from nrpy.infrastructures.BHaH import numerical_grids_and_timestep as ng

    nrpy_call(key, bhah.quiet, rfm_precompute.register_CFunctions_rfm_precompute, list(systems))
    # registers the parameters the headers need
    nrpy_call(key, bhah.quiet, ng.register_CFunction_numerical_grid_params_Nxx_dxx_xx, systems[0], {systems[0]: [2, 2, 2]})
    nrpy_call(key, bhah.quiet, CodeParameters.register_CFunctions_params_commondata_struct_set_to_default)
    bhah.wrappers(key)
    import nrpy.c_function as cfc

    names = [n for n in cfc.CFunction_dict if n.startswith("rfm_precompute_") or n.endswith("_to_default")]
    for n in list(cfc.CFunction_dict):
        if n not in names:
            del cfc.CFunction_dict[n]
    fv = {cs: nrpy_call(key, bhah.quiet, freevars, cs) for cs in systems}
    kern = ""
    for cs in systems:
        body = ""
        for q, nm in enumerate(sorted(fv[cs])):
            idx = f"{q}*Nxx_plus_2NGHOSTS0*Nxx_plus_2NGHOSTS1*Nxx_plus_2NGHOSTS2 + IDX3(i0, i1, i2)"
            body += f"WriteSIMD(&out[{idx}], {nm});\n" if simd else f"out[{idx}] = {nm};\n"
        code = nrpy_call(key, bhah.quiet, simple_loop, body or ";", loop_region="all points", CoordSystem=cs, enable_rfm_precompute=True, enable_simd=simd, OMP_collapse=collapse)
        inc = "set_CodeParameters-simd.h" if simd else "set_CodeParameters.h"
        kern += f'void kern_{cs}(const commondata_struct *commondata, const params_struct *params, const rfm_struct *rfmstruct, REAL *out) {{\n#include "{inc}"\n{code}\n}}\n'
    unit = bhah.Unit(simd=simd, key=key)
    src = unit.source(names, "", kern)
    flags = ("-mavx", "-mno-fma") if simd else ()
    STATS.obligations += 1
    err = cexec.syntax_check(src, flags + ("-fopenmp",), unit.incdirs)
    if err:
        report(key + ":compile", f"{key}: generated code does not compile: {[l for l in err.splitlines() if 'error' in l][:2]}", {"gcc": err})
        rmtree(unit.dir)
        return
    n = shape
    tot = n[0] * n[1] * n[2]
    bad = []
    defs = ("__SSE2__=1", "__SSE3__=1", "__AVX__=1") if simd else ()
    ex = cexec.Exec(src, defines=defs, incdirs=unit.incdirs, width=W if simd else 1)
    for cs in systems:
        c, p = structs(ex)
        p.field("CoordSystem_hash").v = S(INT, hashof(ex, cs))
        for d in R3:
            p.field(f"Nxx_plus_2NGHOSTS{d}").v = S(INT, C(n[d]))
        xs = [[V(f"x{d}_{j}") for j in range(n[d])] for d in R3]
        xx = cexec.Arr(ex, cexec.T("ptr", elem=DBL), "xx", 3)
        for d in R3:
            xx.conc[d] = cexec.P(darr(ex, xs[d]), dag.ZERO)
        rfm = ex.newobj(ex.typedefs["rfm_struct"], "rfmstruct")
        out = cexec.Arr(ex, DBL, "out", len(fv[cs]) * tot)
        ex.heap.clear()
        try:
            ex.call("rfm_precompute_malloc", [cexec.P(c), cexec.P(p), cexec.P(rfm)])
            ex.call("rfm_precompute_defines", [cexec.P(c), cexec.P(p), cexec.P(rfm), cexec.P(xx)])
            ex.call("kern_" + cs, [cexec.P(c), cexec.P(p), cexec.P(rfm), cexec.P(out)])
            ex.call("rfm_precompute_free", [cexec.P(c), cexec.P(p), cexec.P(rfm)])
        except cexec.ExecError as e:
            bad.append((cs, "exec", str(e)))
            continue
        STATS.obligations += 1
        left = [a.name for a in ex.heap if not a.freed]
        if left:
            bad.append((cs, "leak", f"{len(left)} lookup tables never freed"))
        memo = {}
        pr = dag.Prover()
        for q, nm in enumerate(sorted(fv[cs])):
            e = dag.from_sympy(fv[cs][nm], memo)
            for i in range(tot):
                i0, i1, i2 = i % n[0], i // n[0] % n[1], i // (n[0] * n[1])
                want = dag.subst(e, {"xx0": xs[0][i0], "xx1": xs[1][i1], "xx2": xs[2][i2], "PI": V("M_PI")})
                o = out.conc.get(q * tot + i)
                got = (o.v if isinstance(o, cexec.Cell) else o) if o is not None else None
                if got is None:
                    bad.append((cs, nm, f"{nm} not available at point {(i0, i1, i2)}"))
                    break
                if not pr.equal(got.n, want):
                    bad.append((cs, nm, f"{nm} at point {(i0, i1, i2)} is {dag.show(got.n)[:150]}, should be {dag.show(want)[:150]}"))
                    break
        sample({"system": cs, "tables": sorted(fv[cs]), "points": tot})
    seen = set()
    for cs, tag, what in bad:
        if (cs, tag) in seen:
            continue
        seen.add((cs, tag))
        r = replay(unit, src, cs, fv[cs], n, flags)
        if r is None and tag != "leak":
            raise Inconclusive(f"{key}: {what}: not reproduced")
        if tag == "leak":
            r = r or "malloc count differs from free count"
        report(f"{key}:{cs}:{tag}", f"{cs}: {what}; compiled: {r}", {"compiled": r})
    rmtree(unit.dir)


def replay(unit, src, cs, fv, n, flags):
    """Compiled run with distinct coordinates, compared with the expressions; returns a difference or None."""
    import sympy as sp

    names = sorted(fv)
    tot = n[0] * n[1] * n[2]
    xs = [[0.3 + 0.17 * j + 0.05 * d for j in range(n[d])] for d in R3]
    params = sorted({str(s) for e in fv.values() for s in e.free_symbols} - {"xx0", "xx1", "xx2", "M_PI", "PI"})
    main = "".join(f"double a{d}[] = {{{', '.join(map(repr, xs[d]))}}};\n" for d in R3)
    main += f"""
int main() {{
  static commondata_struct cd; static griddata_struct gd[1]; static rfm_struct rfm;
  commondata_struct_set_to_default(&cd); cd.NUMGRIDS = 1; params_struct_set_to_default(&cd, gd); params_struct *p = &gd[0].params;
  p->CoordSystem_hash = {cs.upper()}; p->Nxx_plus_2NGHOSTS0 = {n[0]}; p->Nxx_plus_2NGHOSTS1 = {n[1]}; p->Nxx_plus_2NGHOSTS2 = {n[2]};
  double *xx[3] = {{a0, a1, a2}}; double *out = malloc(sizeof(double) * {max(1, len(names)) * tot});
  for (int i = 0; i < {len(names) * tot}; i++) out[i] = -12345.0;
"""
    main += "".join(f"  p->{s} = {0.2 + 0.13 * i};\n" for i, s in enumerate(params))
    main += f"""  rfm_precompute_malloc(&cd, p, &rfm); rfm_precompute_defines(&cd, p, &rfm, xx);
  kern_{cs}(&cd, p, &rfm, out); rfm_precompute_free(&cd, p, &rfm);
  for (int i = 0; i < {len(names) * tot}; i++) printf("%.17g ", out[i]);
}}
"""
    r = crun(unit, src + main, flags, asan=True)
    try:
        v = [float(x) for x in (r or "").split()]
    except ValueError:
        return r
    if len(v) != len(names) * tot:
        return r
    pv = {sp.Symbol(s, real=True): 0.2 + 0.13 * i for i, s in enumerate(params)}
    for q, nm in enumerate(names):
        for i in range(tot):
            ii = (i % n[0], i // n[0] % n[1], i // (n[0] * n[1]))
            env = dict(pv)
            env.update({sp.Symbol(f"xx{d}", real=True): xs[d][ii[d]] for d in R3})
            e = fv[nm]
            w = complex(e.subs({s: env.get(sp.Symbol(str(s), real=True), sp.pi) for s in e.free_symbols}).evalf())
            if abs(v[q * tot + i] - w.real) > 1e-9 * (1 + abs(w)):
                return f"{nm} at {ii} = {v[q * tot + i]} instead of {w.real}"
    return None


def main():
    ck = Check(
        "P14",
        "translation_validation",
        assumptions=["real arithmetic"],
        bounds="every coordinate system; one grid of 4x3x2 points (scalar: 3x4x2); all coordinate and parameter values; OpenMP collapse 1-3; AVX reads",
        explanation="the generated allocation, table set-up, loop reads and free are executed symbolically; z3 shows every value seen in the loop body equals the defining expression at that point",
    )
    cs = []
    for i, s in enumerate(SYSTEMS):
        cs.append((f"{s}_scalar", case, ([s], False, 1 + i % 3, (3, 4, 2))))
        cs.append((f"{s}_simd", case, ([s], True, 1 + (i + 1) % 3, (4, 3, 2))))
    cs.append(("multi", case, (["SinhSpherical", "Cartesian", "SinhCylindrical", "SymTP"], False, 1, (2, 3, 4))))
    ck.run(cs)
    ck.finish()


if __name__ == "__main__":
    main()
