"""P16: inner boundary maps, parities, outer boundary ordering and extrapolation of generated BHaH code."""
from vlib import bhah, cbc, cexec, dag
from vlib.core import QUICK, STATS, Check, Inconclusive, encoded, report, rmtree, sample
from vlib.dag import C, V, add, mul

R3 = range(3)
INT, DBL, S = cexec.INT, cexec.DBL, cexec.S


def replay(unit, src, g, what):
    """Compiled code on the same grid with concrete parameters, compared with the geometric oracle."""
    inn, out = g.oracle()
    env = g.geo.pr.envs[0]
    names = cbc.cfc_gfs()
    t = "\n#include <stdio.h>\nint main() {\n  commondata_struct cd; params_struct p; bc_struct bc; memset(&cd, 0, sizeof cd); memset(&p, 0, sizeof p);\n"
    t += "  commondata_struct_set_to_default(&cd); griddata_struct gd[1]; memset(gd, 0, sizeof gd); cd.NUMGRIDS = 1; params_struct_set_to_default(&cd, gd); p = gd[0].params;\n"
    t += f"  p.CoordSystem_hash = {g.cs.upper()};\n"
    for d in R3:
        for f, v in ((f"Nxx{d}", g.N[d]), (f"Nxx_plus_2NGHOSTS{d}", g.M[d]), (f"dxx{d}", num(g, g.dx[d])), (f"invdxx{d}", 1 / num(g, g.dx[d])), (f"xxmin{d}", num(g, g.lo[d]))):
            t += f"  p.{f} = {v!r};\n"
        t += f"  double x{d}[] = {{{', '.join(repr(num(g, x)) for x in g.x[d])}}};\n"
    for f in g.p.t.fields:
        if f in env and f not in ("PI", "SQRT1_2") and not f.startswith(("Nxx", "dxx", "invdxx", "xxmin")):
            t += f"  p.{f} = {float(env[f])!r};\n"
    n = g.M[0] * g.M[1] * g.M[2]
    t += f"  double *xx[3] = {{x0, x1, x2}}; bcstruct_set_up(&cd, &p, xx, &bc);\n"
    t += f"  const int src[{n}] = {{{', '.join(str(inn[k][0]) if k in inn else '-1' for k in range(n))}}};\n"
    zero = [0] * 10
    t += f"  const int par[{n}][10] = {{{', '.join('{' + ','.join(map(str, inn[k][1] if k in inn else zero)) + '}' for k in range(n))}}};\n"
    face = {g.idx(i): f for i, f in out.items()}
    t += f"  const int face[{n}][4] = {{{', '.join('{%d,%d,%d,%d}' % ((face[k][0],) + face[k][2]) if k in face else '{-1,0,0,0}' for k in range(n))}}};\n"
    t += f"""  static int seen[{n}]; const int M0 = {g.M[0]}, M1 = {g.M[1]};
  for (int k = 0; k < bc.bc_info.num_inner_boundary_points; k++) {{ innerpt_bc_struct *e = &bc.inner_bc_array[k]; seen[e->dstpt]++;
    if (src[e->dstpt] != e->srcpt) {{ printf("inner point %d filled from %d instead of %d", e->dstpt, e->srcpt, src[e->dstpt]); return 0; }}
    for (int q = 0; q < 10; q++) if (e->parity[q] != par[e->dstpt][q]) {{ printf("inner point %d: parity of type %d is %d instead of %d", e->dstpt, q, e->parity[q], par[e->dstpt][q]); return 0; }} }}
  for (int g = 0; g < NGHOSTS; g++) for (int d = 0; d < 3; d++) for (int k = 0; k < bc.bc_info.num_pure_outer_boundary_points[g][d]; k++) {{
    outerpt_bc_struct *e = &bc.pure_outer_bc_array[d + 3*g][k]; const int id = e->i0 + M0*(e->i1 + M1*e->i2); seen[id]++;
    if (face[id][0] != g || face[id][1] != e->FACEX0 || face[id][2] != e->FACEX1 || face[id][3] != e->FACEX2) {{ printf("outer point %d: layer %d face (%d,%d,%d) instead of layer %d face (%d,%d,%d)", id, g, e->FACEX0, e->FACEX1, e->FACEX2, face[id][0], face[id][1], face[id][2], face[id][3]); return 0; }} }}
  for (int k = 0; k < {n}; k++) if (seen[k] != (src[k] >= 0 || face[k][0] >= 0)) {{ printf("ghost point %d is handled %d times", k, seen[k]); return 0; }}
  static double f[NUM_EVOL_GFS * {n}], r[NUM_EVOL_GFS * {n}], f0[NUM_EVOL_GFS * {n}];
  const int gf[{len(names)}] = {{{', '.join(a.upper() + 'GF' for a in names)}}}, pt[{len(names)}] = {{{', '.join(str(cbc.parity_type(a)) for a in names)}}};
  for (int k = 0; k < NUM_EVOL_GFS * {n}; k++) f[k] = r[k] = f0[k] = sin(1.7 * k) + 0.01 * k;
  for (int g = 0; g < NGHOSTS; g++) for (int d = 0; d < 3; d++) for (int k = 0; k < {n}; k++) if (face[k][0] == g && face[k][1 + d]) {{ const int s = face[k][1] + M0 * (face[k][2] + M1 * face[k][3]);
    for (int v = 0; v < NUM_EVOL_GFS; v++) r[v * {n} + k] = 3 * r[v * {n} + k + s] - 3 * r[v * {n} + k + 2 * s] + r[v * {n} + k + 3 * s]; }}
  for (int a = 0; a < {len(names)}; a++) for (int k = 0; k < {n}; k++) if (src[k] >= 0) {{ r[gf[a] * {n} + k] = par[k][pt[a]] * r[gf[a] * {n} + src[k]]; f0[gf[a] * {n} + k] = par[k][pt[a]] * f0[gf[a] * {n} + src[k]]; }}
  static double h[NUM_EVOL_GFS * {n}]; memcpy(h, f, sizeof f); apply_bcs_inner_only(&cd, &p, &bc, h);
  for (int k = 0; k < NUM_EVOL_GFS * {n}; k++) if (fabs(h[k] - f0[k]) > 1e-9) {{ printf("apply_bcs_inner_only: element %d is %g instead of %g", k, h[k], f0[k]); return 0; }}
"""
    if min(g.N) + g.NG >= 3 and "extrap" in what:
        t += f"""  apply_bcs_outerextrap_and_inner(&cd, &p, &bc, f);
  for (int k = 0; k < NUM_EVOL_GFS * {n}; k++) if (fabs(f[k] - r[k]) > 1e-9 * (1 + fabs(r[k]))) {{ printf("apply_bcs_outerextrap_and_inner: element %d is %g instead of %g", k, f[k], r[k]); return 0; }}
"""
    t += "  return 0; }\n"
    return bhah.crun(unit, src + t, asan=True)


def num(g, n):
    return float(g.geo.val(n)[0])


def decide(key, unit, src, g, what, bad):
    """bad: what the symbolic run found (or None); replay on the compiled code."""
    r = replay(unit, src, g, what)
    if r:
        report(f"{key}:{what}", f"{key}: {bad}; compiled: {r}", {"grid": [g.N, g.NG], "solver": str(bad)})
        return
    raise Inconclusive(f"{key}:{what}: {bad} (compiled code agrees with the oracle)")


def case(arg):
    systems, cs, N, NG = arg
    key = f"bc:{cs}:{'x'.join(map(str, N))}:NG{NG}" + (":multi" if len(systems) > 1 else "")
    encoded("bcstruct_set_up (generated)", "EigenCoord_set_x0x1x2_inbounds__i0i1i2_inbounds_single_pt (generated)", "set_parity_for_inner_boundary_single_pt (generated)", "apply_bcs_inner_only (generated)", "apply_bcs_outerextrap_and_inner (generated)", "evol_gf_parity table (generated)")
    unit, src, ex = cbc.register(key, systems, NG)
    if ex is None:
        return
    try:
        g = cbc.Grid(ex, cs, N, NG)
        if ex.call("verif_NGHOSTS", []).n is not C(NG):
            raise Inconclusive("NGHOSTS")
        inn, out = g.oracle()
        bad = None
        try:
            g.set_up()
            bad = compare_setup(g, inn, out)
        except cexec.ExitCalled:
            bad = "bcstruct_set_up stops with an error"
        except (cexec.ExecError, Inconclusive) as e:
            bad = f"{type(e).__name__}: {e}"
        if bad:
            return decide(key, unit, src, g, "setup", bad)
        sample({"grid": key, "inner": len(inn), "outer": len(out), "first": str(list(inn.items())[:1])})
        for what in ("inner", "extrap"):
            if what == "extrap" and (min(N) + NG < 3 or max(g.M) < 4):
                continue
            try:
                bad = apply(g, inn, out, what)
            except (cexec.ExecError, Inconclusive) as e:
                bad = f"{type(e).__name__}: {e}"
            if bad:
                return decide(key, unit, src, g, what, bad)
    finally:
        rmtree(unit.dir)


def compare_setup(g, inn, out):
    seen = set()
    for d, s, par in g.inner():
        STATS.obligations += 1
        if d in seen:
            return f"inner point {d} listed twice"
        seen.add(d)
        if d not in inn:
            return f"point {d} is not an inner boundary point"
        if (s, par) != inn[d]:
            return f"inner point {d}: source {s} parity {par}, expected {inn[d]}"
    if set(inn) - seen:
        return f"inner points {sorted(set(inn) - seen)[:4]} are missing"
    seen = set()
    for lay, d, i, f in g.outer():
        STATS.obligations += 1
        if i in seen:
            return f"outer point {i} listed twice"
        seen.add(i)
        if i not in out:
            return f"point {i} is not a pure outer boundary point"
        if (lay, d, f) != out[i]:
            return f"outer point {i}: layer {lay}, direction {d}, face {f}, expected {out[i]}"
    if set(out) - seen:
        return f"outer points {sorted(set(out) - seen)[:4]} are missing"
    return None


def apply(g, inn, out, what):
    """Run the apply function with every gridfunction value symbolic; compare all points of all gridfunctions."""
    ex = g.ex
    names = cbc.cfc_gfs()
    n = g.M[0] * g.M[1] * g.M[2]
    ngf = int(ex.call("verif_NGF", []).n.a[0])
    if ngf != len(names):
        return f"NUM_EVOL_GFS is {ngf} for {len(names)} evolved gridfunctions"
    vals = [V(f"f{k}") for k in range(n * ngf)]
    arr = bhah.darr(ex, vals)
    fn = "apply_bcs_inner_only" if what == "inner" else "apply_bcs_outerextrap_and_inner"
    ex.call(fn, [cexec.P(g.c), cexec.P(g.p), cexec.P(g.bc), cexec.P(arr)])
    pr = dag.Prover()
    for a, nm in enumerate(names):
        gf = int(ex.call("verif_gf", [S(INT, C(a))]).n.a[0])
        f = dict(enumerate(vals[gf * n : (gf + 1) * n]))
        if what == "extrap":
            for lay in range(g.NG):
                for d in R3:
                    for i, (l2, d2, fc) in out.items():
                        if (l2, d2) == (lay, d):
                            p = [g.idx(tuple(i[q] + m * fc[q] for q in R3)) for m in range(4)]
                            f[p[0]] = add(add(mul(C(3), f[p[1]]), mul(C(-3), f[p[2]])), f[p[3]])
        for k, (s, par) in inn.items():
            f[k] = mul(C(par[cbc.parity_type(nm)]), f[s])
        for k in range(n):
            got = ex.read(ex.elem_obj(arr, C(gf * n + k))).n
            if got is f[k]:
                STATS.obligations += 1
                continue
            if not pr.equal(got, f[k]):
                return f"{fn}: {nm} at point {k} is {dag.show(got)}, expected {dag.show(f[k])}"
    return None


def main():
    ck = Check(
        "P16",
        "translation_validation",
        assumptions=["exact real arithmetic; cell-centred grids with an even number of points around each full circle and at least NGHOSTS points per direction", "coordinate parameters and spacings positive, holes wider than the ghost zone", "the order of outer points within one layer and direction is irrelevant"],
        bounds="grids of 2 to 6 points per direction with NGHOSTS 1 to 3; all spacings, coordinate parameters and gridfunction values symbolic",
        explanation="The generated bcstruct_set_up is executed with symbolic spacings and parameters; each root, arc function, rounding, parity and comparison is proved by z3 to take one value for all of them. The resulting inner and outer lists are compared with the geometry, then the apply functions run on symbolic gridfunctions",
    )
    cases = []
    for cs in cbc.SYSTEMS:
        N = (2, 2, 4) if cs not in cbc.CYL else (2, 4, 2)
        if cs == "RingHoleySinhSpherical":
            N = (2, 3, 2)
        cases.append((cs + "_1", case, ([cs], cs, N, 1)))
        N2 = {"RingHoleySinhSpherical": (2, 5, 2)}.get(cs, (3, 2, 2) if cs not in cbc.CYL else (3, 2, 2))
        if not QUICK or cs in ("Spherical", "SinhSpherical", "Cylindrical", "SinhCylindrical", "SymTP", "Cartesian", "SinhCartesian", "HoleySinhSpherical"):
            cases.append((cs + "_2", case, ([cs], cs, N2, 2)))
    cases.append(("multi", case, (["Spherical", "SinhCylindrical", "Cartesian"], "SinhCylindrical", (2, 2, 3), 1)))
    if not QUICK:
        for cs in ("Spherical", "Cylindrical", "Cartesian", "SinhSpherical"):
            cases.append((cs + "_3", case, ([cs], cs, (4, 4, 4) if cs != "Cylindrical" else (3, 6, 3), 3)))
    ck.run(cases, timeout=700 if QUICK else 7200)
    ck.finish()


if __name__ == "__main__":
    main()
