"""P15: coordinate maps, nearest index, grid set-up and CFL time step of generated BHaH code."""
import itertools
import os
import subprocess

import sympy as sp

from vlib import bhah, cexec, dag
from vlib.bhah import consts, crun, darr, hashof, structs
from vlib.core import QUICK, STATS, Check, Inconclusive, encoded, nrpy_call, report, rmtree, sample
from vlib.dag import C, V, add, mul, sub

z3 = dag.z3
R3 = range(3)
SYSTEMS = ["Spherical", "SinhSpherical", "SinhSphericalv2n2", "HoleySinhSpherical", "RingHoleySinhSpherical", "Cartesian", "SinhCartesian", "Cylindrical", "SinhCylindrical", "SinhCylindricalv2n2", "SymTP", "SinhSymTP", "LWedgeHSinhSph", "UWedgeHSinhSph"]
NG = 2


def setup(key, systems, Nxx, sizes=None, gf=False):
    """Register the real functions and build the real headers."""
    import nrpy.params as par

    par.set_parval_from_str("Infrastructure", "BHaH")
    import nrpy.finite_difference  # noqa
    from nrpy.infrastructures.BHaH import CodeParameters, numerical_grids_and_timestep as ng, xx_tofrom_Cart as xc

    par.set_parval_from_str("fd_order", 2 * NG - 2)
    for cs in systems:
        nrpy_call(key, bhah.quiet, xc.register_CFunction_xx_to_Cart, cs)
        nrpy_call(key, bhah.quiet, xc.register_CFunction__Cart_to_xx_and_nearest_i0i1i2, cs)
        nrpy_call(key, bhah.quiet, xc.register_CFunction__Cart_to_xx_and_nearest_i0i1i2, cs, relative_to="global_grid_center")
    nrpy_call(key, bhah.quiet, ng.register_CFunctions, list_of_CoordSystems=list(systems), list_of_grid_physical_sizes=sizes or [10.0] * len(systems), Nxx_dict=Nxx)
    par.register_CodeParameter("REAL", "verif", "CFL_FACTOR", 0.5, commondata=True) if "CFL_FACTOR" not in par.glb_code_params_dict else None
    for nm, t in (("nn", "int"), ("nn_0", "int"), ("t_0", "REAL"), ("time", "REAL"), ("dt", "REAL")):
        if nm not in par.glb_code_params_dict:
            par.register_CodeParameter(t, "verif", nm, add_to_parfile=False, add_to_set_CodeParameters_h=False, commondata=True)
    nrpy_call(key, bhah.quiet, CodeParameters.register_CFunctions_params_commondata_struct_set_to_default)
    bhah.wrappers(key)
    bhah.rfm_typedef()
    import nrpy.c_function as cfc

    unit = bhah.Unit(key=key)
    names = [n for n in cfc.CFunction_dict]
    src = unit.source(names, "", "\nint verif_NGHOSTS(void) { return NGHOSTS; }\n")
    err = cexec.syntax_check(src, (), unit.incdirs)
    STATS.obligations += 1
    if err:
        report(key + ":compile", f"{key}: generated code does not compile: {[l for l in err.splitlines() if 'error' in l][:2]}", {"gcc": err})
        rmtree(unit.dir)
        return None, None, None
    return unit, src, cexec.Exec(src, incdirs=unit.incdirs)


def to_cart(ex, c, p, cs, xs):
    """Run xx_to_Cart (through the dispatching wrapper) at coordinate values xs."""
    p.field("CoordSystem_hash").v = cexec.S(cexec.INT, hashof(ex, cs))
    ptrs = cexec.Arr(ex, cexec.T("ptr", elem=cexec.DBL), "xx", 3)
    for d in R3:
        ptrs.conc[d] = cexec.P(darr(ex, [None, xs[d]][1:]), dag.ZERO)
    out = darr(ex, [None] * 3)
    z = cexec.S(cexec.INT, dag.ZERO)
    ex.call("xx_to_Cart", [cexec.P(c), cexec.P(p), cexec.P(ptrs), z, z, z, cexec.P(out)])
    return [ex.read(ex.elem_obj(out, C(i))).n for i in R3]


def from_cart(ex, c, p, cs, X, name="Cart_to_xx_and_nearest_i0i1i2"):
    p.field("CoordSystem_hash").v = cexec.S(cexec.INT, hashof(ex, cs))
    xx, ii = darr(ex, [None] * 3), darr(ex, [None] * 3, cexec.INT)
    ex.call(name, [cexec.P(c), cexec.P(p), cexec.P(darr(ex, X)), cexec.P(xx), cexec.P(ii)])
    return [ex.read(ex.elem_obj(xx, C(i))).n for i in R3], [ex.read(ex.elem_obj(ii, C(i))).n for i in R3]


def exps(n):
    """sinh, cosh of anything -> exponentials."""
    memo = {}
    for x in dag.topo([n]):
        o, a = x.op, x.a
        b = [memo[y.id] if isinstance(y, dag.N) else y for y in a]
        if o == "fn" and a[0] in ("sinh", "cosh"):
            e = dag.fn("exp", b[1])
            h = C(dag.Fraction(1, 2))
            memo[x.id] = mul(h, add(e, dag.inv(e)) if a[0] == "cosh" else sub(e, dag.inv(e)))
        elif all(p is q for p, q in zip(a, b)):
            memo[x.id] = x
        else:
            memo[x.id] = {"+": add, "*": mul, "inv": dag.inv, "pow": dag.ipow, "root": dag.root, "fn": dag.fn, "ite": dag.ite}.get(o, lambda *q: dag.mk(o, *q))(*b)
    return memo[n.id]


def replay_inverse(unit, src, cs, X):
    """Compile and run Cart_to_xx followed by xx_to_Cart at Cartesian points."""
    main = f"""
#include <stdio.h>
int main() {{
  commondata_struct cd; params_struct p; memset(&cd, 0, sizeof cd); memset(&p, 0, sizeof p);
  commondata_struct_set_to_default(&cd); griddata_struct gd[1]; memset(gd, 0, sizeof gd); cd.NUMGRIDS = 1;
  params_struct_set_to_default(&cd, gd); p = gd[0].params; p.CoordSystem_hash = {cs.upper()};
  p.dxx0 = p.dxx1 = p.dxx2 = 0.01; p.xxmin0 = p.xxmin1 = p.xxmin2 = -10;
  double X[8][3] = {{{{0.3,0.4,0.5}},{{-0.7,0.2,0.9}},{{1.5,-2.5,-0.5}},{{-1.1,-0.6,0.7}},{{0.2,0.1,-3}},{{2,3,4}},{{0.9,1.9,-0.3}},{{-0.4,0.8,1.2}}}};
  for (int k = 0; k < 8; k++) {{ double xx[3], Y[3]; int ii[3];
    Cart_to_xx_and_nearest_i0i1i2(&cd, &p, X[k], xx, ii);
    double *ptr[3] = {{&xx[0], &xx[1], &xx[2]}};
    xx_to_Cart(&cd, &p, ptr, 0, 0, 0, Y);
    for (int d = 0; d < 3; d++) if (!(fabs(X[k][d] - Y[d]) < 1e-7 * (1 + fabs(X[k][d])))) {{
      printf("point (%g,%g,%g) -> xx (%g,%g,%g) -> (%g,%g,%g)", X[k][0], X[k][1], X[k][2], xx[0], xx[1], xx[2], Y[0], Y[1], Y[2]); return 0; }}
    for (int d = 0; d < 3; d++) if (fabs(xx[d] - (-10 + (ii[d] - NGHOSTS + 0.5) * 0.01)) > 0.00501) {{ printf("point (%g,%g,%g): index %d of coordinate %g in direction %d is not the nearest", X[k][0], X[k][1], X[k][2], ii[d], xx[d], d); return 0; }}
  }}
}}
"""
    return crun(unit, src + main)


def map_case(cs):
    key = f"maps:{cs}"
    encoded("xx_to_Cart (generated)", "Cart_to_xx_and_nearest_i0i1i2 (generated)", "coordinate-system dispatch wrapper (generated)")
    unit, src, ex = setup(key, [cs, "Cartesian"] if cs != "Cartesian" else ["Cartesian", "Spherical"], {cs: [4, 4, 4], "Cartesian": [4, 4, 4], "Spherical": [4, 4, 4]})
    if ex is None:
        return
    import nrpy.reference_metric as rm

    rfm = rm.reference_metric[cs]
    c, p = structs(ex)
    pr = dag.Prover(timeout_ms=60000)
    bad = []
    O = [V(f"Cart_origin{d}") for d in "xyz"]
    # 1. xx_to_Cart is the symbolic map, shifted by the origin
    xs = [V(f"xx{d}") for d in R3]
    try:
        got = to_cart(ex, c, p, cs, xs)
        for d in R3:
            if not pr.equal(got[d], add(dag.from_sympy(sp.sympify(rfm.xx_to_Cart[d])), O[d])):
                bad.append(("xx_to_Cart", f"xx_to_Cart component {d} is not the coordinate map plus the grid origin"))
                break
        # 2. Cart_to_xx is a right inverse for every Cartesian point off the axis
        X = [V(q) for q in ("X", "Y", "Z")]
        xi, ii = from_cart(ex, c, p, cs, [add(X[d], O[d]) for d in R3])
        xg, _ig = from_cart(ex, c, p, cs, X, "Cart_to_xx_and_nearest_i0i1i2_global_grid_center")
    except cexec.ExitCalled:
        report(key + ":dispatch", f"{cs}: the dispatching wrapper rejects a registered coordinate system", {})
        return
    simp = dag.Prover()
    # the global variant differs only by the origin
    for d in R3:
        a = dag.subst(xi[d], {"Cart_originx": dag.ZERO, "Cart_originy": dag.ZERO, "Cart_originz": dag.ZERO})
        if not pr.equal(xg[d], a):
            bad.append(("global", f"Cart_to_xx relative to the global grid centre: coordinate {d} is not that of the unshifted point"))
            break
    # shift invariance: xi depends on X only
    for d in R3:
        if not pr.equal(xi[d], xg[d]):
            bad.append(("shift", f"Cart_to_xx coordinate {d} does not undo the grid origin"))
            break
    xg = [exps(x) for x in xg]
    back = to_cart(ex, c, p, cs, xg)
    back = [exps(sub(b, o)) for b, o in zip(back, O)]
    pr2 = dag.Prover(timeout_ms=60000)
    ok = True
    for d in R3:
        STATS.obligations += 1
        if not pr2.equal(dag.ipow(back[d], 2), dag.ipow(X[d], 2)):
            ok = False
            break
    if ok:
        for d in R3:
            # X' = +-X; exclude the negative sign for X != 0
            STATS.obligations += 1
            zb, zx = pr2.z([back[d], X[d]])
            pos = [pr2.z([V(q)])[0] > 0 for q in dag.variables([back[d]]) if q not in ("X", "Y", "Z")]
            r, _m = pr2._check([zb * zx < 0] + pr2.axioms() + pos, timeout=30000)
            if r == z3.sat or r == z3.unknown:
                e = [{"X": sx * 0.7, "Y": sy * 0.4, "Z": sz * 0.9} for sx in (1, -1) for sy in (1, -1) for sz in (1, -1)]
                for env in e:
                    v = dag.evaluate([back[d]], {k: dag.mpmath.mpf(x) for k, x in env.items()})[back[d].id]
                    if abs(v - env["XYZ"[d]]) > 1e-9:
                        ok = False
                if ok:
                    raise Inconclusive(f"{key}: sign of component {d}")
            if not ok:
                break
    if not ok:
        bad.append(("inverse", "Cart_to_xx followed by xx_to_Cart is not the identity"))
    # 3. nearest index: the cell containing the coordinate
    for d in R3:
        STATS.obligations += 1
        n = ii[d]
        if not (n.op == "fn" and n.a[0] in ("trunc", "floor")):
            raise Inconclusive(f"{key}: index is not a truncation: {dag.show(n)}")
        arg = n.a[1]
        v = V("coord")
        want = add(mul(sub(xi[d], V(f"xxmin{d}")), dag.inv(V(f"dxx{d}"))), V("off"))
        # offset such that trunc(arg) is the nearest cell centre index
        ng = ex.call("verif_NGHOSTS", []).n
        off = sub(arg, mul(sub(xi[d], V(f"xxmin{d}")), dag.inv(V(f"dxx{d}"))))
        zo = dag.Prover()
        k = zo.sig(off)[0]
        kq = dag.Fraction(str(dag.mpmath.nstr(k, 12))).limit_denominator(1000)
        if not zo.equal(off, C(kq)):
            bad.append((f"nearest{d}", f"index along direction {d} is not an offset of (xx-xxmin)/dxx"))
            continue
        s = z3.Solver()
        x, mn, dx, i = z3.Real("x"), z3.Real("mn"), z3.Real("dx"), z3.Int("i")
        q = z3.Real("q")
        s.add(dx > 0, q * dx == x - mn, q + z3.RealVal(str(kq)) >= 0)
        s.add(z3.ToReal(i) <= q + z3.RealVal(str(kq)), q + z3.RealVal(str(kq)) < z3.ToReal(i) + 1)
        # distance to the centre of cell i, in units of dx
        dist = q - (z3.ToReal(i) - int(ng.a[0]) + z3.RealVal("1/2"))
        s.add(z3.Or(dist > z3.RealVal("1/2"), dist < -z3.RealVal("1/2")))
        STATS.queries += 1
        r = s.check()
        if r == z3.sat:
            STATS.sat += 1
            bad.append((f"nearest{d}", f"index along direction {d} is not that of the nearest cell centre"))
        elif r == z3.unsat:
            STATS.unsat += 1
        else:
            raise Inconclusive(key)
    if bad:
        rep = replay_inverse(unit, src, cs, None)
        for tag, what in bad:
            if rep is None and tag == "inverse":
                raise Inconclusive(f"{key}: {what}: not reproduced")
            report(f"{key}:{tag}", f"{cs}: {what}; compiled: {rep}", {"compiled": rep})
    sample({"CoordSystem": cs, "bad": len(bad)})
    rmtree(unit.dir)


def face(cs):
    """(direction, which end) -> expected physical statement at that face, as (function of Cartesian position, value)."""
    g, hole = V("grid_physical_size"), V("grid_hole_radius")

    def rad(x):
        return add(add(mul(x[0], x[0]), mul(x[1], x[1])), mul(x[2], x[2]))

    def rho(x):
        return add(mul(x[0], x[0]), mul(x[1], x[1]))

    g2 = mul(g, g)
    if "Cartesian" in cs:
        return {(d, e): ((lambda x, d=d: x[d]), g if e else dag.neg(g)) for d in R3 for e in (0, 1)}
    if "Cylindrical" in cs:
        return {(0, 1): (rho, g2), (0, 0): (rho, dag.ZERO), (2, 0): ((lambda x: x[2]), dag.neg(g)), (2, 1): ((lambda x: x[2]), g)}
    if "SymTP" in cs:
        # distance from the z axis at the equator
        return {(0, 1): ((lambda x: rho(x)), g2, {1: mul(C(dag.Fraction(1, 2)), V("M_PI"))}), (0, 0): (rho, dag.ZERO)}
    r = {(0, 1): (rad, g2)}
    r[(0, 0)] = (rad, mul(hole, hole) if "Holey" in cs or "Wedge" in cs else dag.ZERO)
    return r


def angles(cs):
    pi = V("M_PI")
    q = dag.Fraction
    if "Cartesian" in cs:
        return {}
    if "Cylindrical" in cs:
        return {1: (dag.neg(pi), pi)}
    th = (dag.ZERO, pi)
    if cs == "RingHoleySinhSpherical" or "Wedge" in cs:
        th = (mul(C(q(1, 4)), pi), mul(C(q(3, 4)), pi))
    ph = (dag.neg(pi), pi)
    if "Wedge" in cs:
        ph = (mul(C(q(-1, 4)), pi), mul(C(q(1, 4)), pi))
    return {1: th, 2: ph}


def grid_case(arg):
    cs, Nx, conv, default = arg
    key = f"grid:{cs}:{Nx}:{conv}:{default}"
    encoded("numerical_grid_params_Nxx_dxx_xx (generated)", "cfl_limited_timestep (generated)", "numerical_grids_and_timestep (generated)")
    base = [5, 2, 4]
    unit, src, ex = setup(key, [cs], {cs: base})
    if ex is None:
        return
    S, INT, DBL = cexec.S, cexec.INT, cexec.DBL
    c, p = structs(ex)
    p.field("CoordSystem_hash").v = S(INT, hashof(ex, cs))
    c.field("convergence_factor").v = S(DBL, C(conv))
    xx = cexec.Arr(ex, cexec.T("ptr", elem=DBL), "xx", 3)
    nx = darr(ex, [C(k) for k in Nx], INT)
    ex.call("numerical_grid_params_Nxx_dxx_xx", [cexec.P(c), cexec.P(p), cexec.P(xx), cexec.P(nx), S(cexec.BOOL, C(1 if default else 0))])
    pr = dag.Prover(timeout_ms=60000)
    ng = int(ex.call("verif_NGHOSTS", []).n.a[0])
    bad = []
    N = list(base) if -1 in Nx else list(Nx)
    N = [n if n == 2 else int(n * conv) for n in N]

    def val(f):
        return p.field(f).v.n

    def chk(tag, a, b, what):
        if not pr.equal(a, b):
            bad.append((tag, what + f": {dag.show(a)} instead of {dag.show(b)}"))

    for d in R3:
        chk("Nxx", val(f"Nxx{d}"), C(N[d]), f"Nxx{d}")
        chk("Nxx", val(f"Nxx_plus_2NGHOSTS{d}"), C(N[d] + 2 * ng), f"Nxx_plus_2NGHOSTS{d}")
        mn, mx = val(f"xxmin{d}"), val(f"xxmax{d}")
        if not default:
            chk("keep", mn, V(f"xxmin{d}"), f"xxmin{d} must keep its value")
            chk("keep", mx, V(f"xxmax{d}"), f"xxmax{d} must keep its value")
        chk("dxx", mul(val(f"dxx{d}"), C(N[d])), sub(mx, mn), f"dxx{d} * Nxx{d}")
        chk("invdxx", mul(val(f"dxx{d}"), val(f"invdxx{d}")), C(1), f"dxx{d} * invdxx{d}")
        arr = xx.conc[d].obj
        STATS.obligations += 1
        if not (isinstance(arr.n, int) and arr.n >= N[d] + 2 * ng):
            bad.append(("alloc", f"xx[{d}] holds {arr.n} values, {N[d] + 2 * ng} are needed"))
        for j in range(N[d] + 2 * ng):
            try:
                a = ex.read(ex.elem_obj(arr, C(j))).n
            except cexec.ExecError as e:
                bad.append(("xx", f"xx[{d}][{j}]: {e}"))
                break
            chk("xx", a, add(mn, mul(C(dag.Fraction(2 * (j - ng) + 1, 2)), val(f"dxx{d}"))), f"xx[{d}][{j}]")
    if default:
        for d, (lo, hi) in angles(cs).items():
            chk("angle", val(f"xxmin{d}"), lo, f"xxmin{d}")
            chk("angle", val(f"xxmax{d}"), hi, f"xxmax{d}")
        # physical size: map the faces with the generated xx_to_Cart
        for f in ("x", "y", "z"):
            p.field(f"Cart_origin{f}").v = S(DBL, dag.ZERO)
        pr2 = dag.Prover(timeout_ms=60000)
        for (d, e), spec in face(cs).items():
            coords = [V(f"q{k}") for k in R3]
            coords[d] = exps(val(f"xxmax{d}" if e else f"xxmin{d}"))
            if len(spec) > 2:
                for k, v in spec[2].items():
                    coords[k] = v
            X = [exps(dag.subst(x, {})) for x in to_cart(ex, c, p, cs, coords)]
            lhs = spec[0](X)
            lhs = trig_const(lhs)
            if not pr2.equal(lhs, spec[1]):
                bad.append((f"extent{d}{e}", f"{'outer' if e else 'inner'} face of direction {d} is not at the physical size of the grid: {dag.show(lhs)} instead of {dag.show(spec[1])}"))
    if bad:
        rep = replay_grid(unit, src, cs, N, ng, Nx, conv, default)
        for tag, what in bad[:3]:
            if rep is None:
                raise Inconclusive(f"{key}: {what}: not reproduced")
            report(f"grid:{cs}:{tag}", f"{cs}, Nx={Nx}, convergence factor {conv}: {what}; compiled: {rep}", {"compiled": rep})
    sample({"grid": cs, "Nxx": N, "NGHOSTS": ng})
    rmtree(unit.dir)


def trig_const(n):
    """sin/cos at multiples of pi/2."""
    memo = {}
    half = mul(C(dag.Fraction(1, 2)), V("M_PI"))
    tab = {("sin", half.id): dag.ONE, ("cos", half.id): dag.ZERO}
    for x in dag.topo([n]):
        o, a = x.op, x.a
        if o == "fn" and len(a) == 2 and (a[0], a[1].id) in tab:
            memo[x.id] = tab[(a[0], a[1].id)]
            continue
        b = [memo[y.id] if isinstance(y, dag.N) else y for y in a]
        memo[x.id] = x if all(p is q for p, q in zip(a, b)) else {"+": add, "*": mul, "inv": dag.inv, "pow": dag.ipow, "root": dag.root, "fn": dag.fn}[o](*b)
    return memo[n.id]


def replay_grid(unit, src, cs, N, ng, Nx, conv, default):
    import math

    main = f"""
int main() {{
  commondata_struct cd; memset(&cd, 0, sizeof cd); griddata_struct gd[1]; memset(gd, 0, sizeof gd);
  commondata_struct_set_to_default(&cd); cd.NUMGRIDS = 1; cd.convergence_factor = {float(conv)};
  params_struct_set_to_default(&cd, gd); params_struct *p = &gd[0].params; p->CoordSystem_hash = {cs.upper()}; p->grid_physical_size = 7.5; p->grid_hole_radius = 1.5;
  if (!{int(default)}) {{ p->xxmin0 = p->xxmin1 = p->xxmin2 = 0.25; p->xxmax0 = p->xxmax1 = p->xxmax2 = 1.75; }}
  int Nx[3] = {{{Nx[0]}, {Nx[1]}, {Nx[2]}}};
  numerical_grid_params_Nxx_dxx_xx(&cd, p, gd[0].xx, Nx, {int(default)});
  int N[3] = {{{N[0]}, {N[1]}, {N[2]}}};
  int n[3] = {{p->Nxx0, p->Nxx1, p->Nxx2}}, n2[3] = {{p->Nxx_plus_2NGHOSTS0, p->Nxx_plus_2NGHOSTS1, p->Nxx_plus_2NGHOSTS2}};
  double mn[3] = {{p->xxmin0, p->xxmin1, p->xxmin2}}, mx[3] = {{p->xxmax0, p->xxmax1, p->xxmax2}}, dx[3] = {{p->dxx0, p->dxx1, p->dxx2}}, idx[3] = {{p->invdxx0, p->invdxx1, p->invdxx2}};
  for (int d = 0; d < 3; d++) {{
    if (n[d] != N[d] || n2[d] != N[d] + 2*NGHOSTS) {{ printf("Nxx%d=%d, with ghosts %d", d, n[d], n2[d]); return 0; }}
    if (fabs(dx[d]*N[d] - (mx[d]-mn[d])) > 1e-10 || fabs(dx[d]*idx[d]-1) > 1e-10) {{ printf("dxx%d=%g invdxx %g", d, dx[d], idx[d]); return 0; }}
    if (!{int(default)} && (mn[d] != 0.25 || mx[d] != 1.75)) {{ printf("extent of direction %d changed", d); return 0; }}
    for (int j = 0; j < n2[d]; j++) if (fabs(gd[0].xx[d][j] - (mn[d] + (j - NGHOSTS + 0.5)*dx[d])) > 1e-10) {{ printf("xx[%d][%d]=%g", d, j, gd[0].xx[d][j]); return 0; }}
  }}
  for (int d = 0; d < 3; d++) printf("%.17g %.17g ", mn[d], mx[d]);
  for (int d = 0; d < 3; d++) for (int e = 0; e < 2; e++) {{ double q[3] = {{0.3, 0.4, 0.2}}, X[3]; if ({int('SymTP' in cs)}) q[1] = M_PI/2; q[d] = e ? mx[d] : mn[d]; double *pt[3] = {{&q[0], &q[1], &q[2]}};
    xx_to_Cart(&cd, p, pt, 0, 0, 0, X); printf("%.17g %.17g %.17g ", X[0], X[1], X[2]); }}
}}
"""
    r = crun(unit, src + main)
    w = (r or "").split()
    try:
        v = [float(x) for x in w]
    except ValueError:
        return r
    if len(v) != 24:
        return r
    if not default:
        return None
    env = {"grid_physical_size": 7.5, "grid_hole_radius": 1.5}
    for d, (lo, hi) in angles(cs).items():
        for k, e in enumerate((lo, hi)):
            want = float(dag.evaluate([e], {})[e.id])
            if abs(v[2 * d + k] - want) > 1e-10:
                return f"angular extent of direction {d}: {v[2 * d + k]} instead of {want}"
    for (d, e), spec in face(cs).items():
        X = [dag.C(dag.Fraction(x)) for x in v[6 + 3 * (2 * d + e) : 9 + 3 * (2 * d + e)]]
        a, b = spec[0](X), spec[1]
        val = dag.evaluate([a, b], env)
        if abs(val[a.id] - val[b.id]) > 1e-8:
            return f"face {d},{e}: {float(val[a.id])} instead of {float(val[b.id])}"
    return None


def cfl_case(cs):
    key = f"cfl:{cs}"
    encoded("cfl_limited_timestep (generated)")
    unit, src, ex = setup(key, [cs], {cs: [2, 2, 2]})
    if ex is None:
        return
    import nrpy.reference_metric as rm

    S, INT, DBL = cexec.S, cexec.INT, cexec.DBL
    c, p = structs(ex)
    p.field("CoordSystem_hash").v = S(INT, hashof(ex, cs))
    dims = (2, 1, 3)
    for d in R3:
        p.field(f"Nxx_plus_2NGHOSTS{d}").v = S(INT, C(dims[d]))
    xx = cexec.Arr(ex, cexec.T("ptr", elem=DBL), "xx", 3)
    co = [[V(f"x{d}_{j}") for j in range(dims[d])] for d in R3]
    for d in R3:
        xx.conc[d] = cexec.P(darr(ex, co[d]), dag.ZERO)
    old = V("cd.dt")
    c.field("dt").v = S(DBL, old)
    ex.call("cfl_limited_timestep", [cexec.P(c), cexec.P(p), cexec.P(xx)])
    new = c.field("dt").v.n
    rfm = rm.reference_metric[cs]
    h = [dag.from_sympy(sp.sympify(e)) for e in rfm.scalefactor_orthog]
    ds = []
    for j in itertools.product(*[range(n) for n in dims]):
        env = {f"xx{d}": co[d][j[d]] for d in R3}
        env.update(PI=V("M_PI"))
        for d in R3:
            ds.append(dag.fn("fabs", mul(dag.subst(h[d], env), V(f"dxx{d}"))))
    pr = dag.Prover(timeout_ms=60000)
    cfl = V("cd.CFL_FACTOR")
    # name every compared distance: leaves of the min() proved equal to a required distance become that variable
    memo = {}
    hasite = {}
    for x in dag.topo([new]):
        hasite[x.id] = x.op == "ite" or any(hasite[y.id] for y in x.a if isinstance(y, dag.N))
    leaves = {y.id: y for x in dag.topo([new]) if x.op in ("<", "<=") for y in x.a if not hasite[y.id] and not dag.isc(y)}
    reps = []
    for e in {e.id: e for e in ds}.values():
        if not any(pr.numeric_equal(f, e) and pr.equal(f, e) for f in reps):
            reps.append(e)
    ds = reps
    for y in leaves.values():
        for i, e in enumerate(ds):
            if pr.numeric_equal(y, e) and pr.equal(y, e):
                memo[y.id] = V(f"ds{i}")
                break
    new = dag.subst(new, {}, memo)
    ds = [V(f"ds{i}") for i in range(len(ds))]
    zds = pr.z(ds)
    big = [x < z3.RealVal(10) ** 30 for x in zds] + [x >= 0 for x in zds]
    em = ds[0]
    for x in ds[1:]:
        em = dag.ite(dag.lt(x, em), x, em)
    zem = pr.z([em])[0]
    dmin = V("ds_min_all")
    for y in dag.topo([new]):
        if y.op == "ite" and pr.numeric_equal(y, em):
            # linear: the accumulated minimum is the minimum over all points and directions
            if pr._check(big + [pr.z([y])[0] != zem])[0] == z3.unsat:
                new = dag.subst(new, {}, {y.id: dmin})
                break
    zc, zm, znew, zold = pr.z([cfl, dmin, new, old])
    big += [zc > 0, zm == zem]
    m = zm
    STATS.obligations += 1
    r, _m = pr._check(big + [znew != z3.If(zold < m * zc, zold, m * zc)])
    if r == z3.unsat:
        sample({"cfl": cs, "points": len(ds)})
        rmtree(unit.dir)
        return
    rep = replay_cfl(unit, src, cs, dims, h)
    if rep is None:
        raise Inconclusive(f"{key}: {r}: not reproduced")
    report(key, f"{cs}: time step is not CFL_FACTOR times the smallest proper distance between neighbouring points; compiled: {rep}", {"compiled": rep})


def replay_cfl(unit, src, cs, dims, h):
    import random

    rnd = random.Random(3)
    for _t in range(24):
        xs = [[rnd.uniform(0.1, 1.4) for _ in range(dims[d])] for d in R3]
        if "Holey" in cs or "Wedge" in cs:
            pass
        dx = [rnd.choice([0.01, 0.1, 1.0]) * rnd.uniform(0.5, 1) for _ in R3]
        old = rnd.choice([1e-4, 1e-2, 1e3])
        arr = "".join(f"double a{d}[] = {{{', '.join(map(repr, xs[d]))}}};\n" for d in R3)
        main = f"""
int main() {{
  commondata_struct cd; memset(&cd, 0, sizeof cd); griddata_struct gd[1]; memset(gd, 0, sizeof gd);
  commondata_struct_set_to_default(&cd); cd.NUMGRIDS = 1; cd.CFL_FACTOR = 0.37; cd.dt = {old};
  params_struct_set_to_default(&cd, gd); params_struct *p = &gd[0].params; p->CoordSystem_hash = {cs.upper()};
  {arr}
  double *xx[3] = {{a0, a1, a2}};
  p->Nxx_plus_2NGHOSTS0 = {dims[0]}; p->Nxx_plus_2NGHOSTS1 = {dims[1]}; p->Nxx_plus_2NGHOSTS2 = {dims[2]};
  p->dxx0 = {dx[0]!r}; p->dxx1 = {dx[1]!r}; p->dxx2 = {dx[2]!r};
  cfl_limited_timestep(&cd, p, xx); printf("%.17g\\n", cd.dt);
  printf("%.17g", 0.0);
"""
        import nrpy.params as par

        names = [v for v in dag.variables(h) if not str(v).startswith("xx") and v in par.glb_code_params_dict]
        for v in names:
            main += f'  printf(" %.17g", (double)p->{v});\n'
        main += "}\n"
        r = crun(unit, src + main)
        try:
            w = [float(x) for x in r.split()]
        except (ValueError, AttributeError):
            return r
        env = dict(zip(names, w[2:]))
        best = old
        for j in itertools.product(*[range(n) for n in dims]):
            e = dict(env, **{f"xx{d}": xs[d][j[d]] for d in R3})
            for d in R3:
                best = min(best, 0.37 * abs(float(dag.evaluate([h[d]], e)[h[d].id]) * dx[d]))
        if abs(best - w[0]) > 1e-9 * abs(best):
            return f"dt = {w[0]} instead of {best}"
    return None


def multi_case(_):
    """numerical_grids_and_timestep on three grids: every grid gets its own system, size and time step limit."""
    key = "multigrid"
    encoded("numerical_grids_and_timestep (generated)", "params_struct_set_to_default (generated)")
    systems = ["SinhSpherical", "Cartesian", "Cylindrical"]
    sizes = [3.0, 7.0, 11.0]
    Nxx = {"SinhSpherical": [3, 2, 2], "Cartesian": [2, 3, 4], "Cylindrical": [2, 2, 3]}
    unit, src, ex = setup(key, systems, Nxx, sizes)
    if ex is None:
        return
    S, INT, DBL = cexec.S, cexec.INT, cexec.DBL
    c = bhah.symbolic_struct(ex.newobj(ex.typedefs["commondata_struct"], "commondata"), "cd.")
    c.field("convergence_factor").v = S(DBL, C(1))
    c.field("CFL_FACTOR").v = S(DBL, C(dag.Fraction(1, 2)))
    ex.call("commondata_struct_set_to_default", [cexec.P(c)])
    c.field("convergence_factor").v = S(DBL, C(1))
    n = 3
    gd = cexec.Arr(ex, ex.typedefs["griddata_struct"], "griddata", 16)
    for g in range(n):
        bhah.symbolic_struct(ex.elem_obj(gd, C(g)).field("params"), f"g{g}.")
    limits = []

    def cfl(_e, _n, args):
        limits.append(args[1].obj)
        return None

    ex.stubs["cfl_limited_timestep"] = cfl
    bad = []
    for first in (1, 0):
        limits.clear()
        c.field("time").v = S(DBL, V("time0"))
        c.field("nn").v = S(INT, V("nn0"))
        c.field("nn_0").v = S(INT, V("nn_00"))
        c.field("t_0").v = S(DBL, V("t_00"))
        ex.call("numerical_grids_and_timestep", [cexec.P(c), cexec.P(gd), S(cexec.BOOL, C(first))])
        pr = dag.Prover()
        STATS.obligations += 4
        for f, v in (("time", V("time0")), ("nn", V("nn0")), ("nn_0", V("nn_00")), ("t_0", V("t_00"))):
            if not pr.equal(c.field(f).v.n, dag.ZERO if first else v):
                bad.append((f"init:{f}", f"{f} after set-up (first call: {bool(first)}) is {dag.show(c.field(f).v.n)}"))
        if not pr.equal(c.field("NUMGRIDS").v.n, C(n)):
            bad.append(("NUMGRIDS", "NUMGRIDS is not the number of grids"))
        got = [ex.elem_obj(gd, C(g)).field("params") for g in range(n)]
        if sorted(id(x) for x in limits) != sorted(id(x) for x in got):
            bad.append(("cfl", f"time step limited by {len(limits)} of {n} grids"))
        for g, cs in enumerate(systems):
            q = got[g]
            # every parameter that has a default and is not set by the grid set-up has its default
            for nm, v in (("Cart_originx", dag.ZERO), ("Cart_originy", dag.ZERO), ("Cart_originz", dag.ZERO), ("grid_rotates", dag.ZERO)):
                STATS.obligations += 1
                if nm in q.t.fields and not pr.equal(q.field(nm).v.n, v):
                    bad.append((f"default:{nm}", f"grid {g} ({cs}): parameter {nm} is not set to its default"))
            for nm, want in [("CoordSystem_hash", hashof(ex, cs)), ("grid_physical_size", C(dag.Fraction(sizes[g])))] + [(f"Nxx{d}", C(Nxx[cs][d])) for d in R3]:
                if not pr.equal(q.field(nm).v.n, want):
                    bad.append((nm, f"grid {g} ({cs}): {nm} = {dag.show(q.field(nm).v.n)} instead of {dag.show(want)}"))
            mx = q.field("xxmax2").v.n if cs != "SinhSpherical" else q.field("AMPL").v.n
            if not pr.equal(mx, C(dag.Fraction(sizes[g]))):
                bad.append(("size", f"grid {g} ({cs}) does not have its physical size"))
    if bad:
        main = f"""
int main() {{
  commondata_struct cd; memset(&cd, 0, sizeof cd); griddata_struct *gd = malloc(16*sizeof(griddata_struct)); memset(gd, 3, 16*sizeof(griddata_struct));
  commondata_struct_set_to_default(&cd); cd.time = 3.5; cd.nn = 7;
  for (int first = 1; first >= 0; first--) {{ cd.time = 3.5; cd.nn = 7;
  numerical_grids_and_timestep(&cd, gd, first);
  printf("%d %g %d ", cd.NUMGRIDS, cd.time, cd.nn);
  for (int g = 0; g < 3; g++) printf("%d %g %d %d %d %g %g ", gd[g].params.CoordSystem_hash, gd[g].params.grid_physical_size, gd[g].params.Nxx0, gd[g].params.Nxx1, gd[g].params.Nxx2, gd[g].params.xxmax2, gd[g].params.AMPL), printf("orig %g %g %g rot %d ", gd[g].params.Cart_originx, gd[g].params.Cart_originy, gd[g].params.Cart_originz, (int)gd[g].params.grid_rotates);
  }}
}}
"""
        r = crun(unit, src + main)
        for tag, what in bad[:4]:
            report(f"{key}:{tag}", what + f"; compiled run prints: {r}", {})
    sample({"systems": systems})
    rmtree(unit.dir)


def main():
    ck = Check(
        "P15",
        "translation_validation",
        assumptions=["real-number semantics", "positive scale parameters; Cartesian points off the polar axis", "PI and SQRT1_2 parameters hold their constants"],
        bounds="14 coordinate systems; all coordinates, origins, parameters and Cartesian points symbolic; grids of 2-6 points per direction (several Nx overrides and convergence factors); CFL over 6 points with symbolic coordinates; three grids at once",
        explanation="the generated C functions are executed symbolically through the generated dispatch wrappers; z3 proves the coordinate map, that Cart_to_xx followed by xx_to_Cart is the identity, that the returned index is that of the nearest cell centre, grid sizes, spacings, coordinates and physical extents, and that dt is the CFL factor times the smallest proper distance",
    )
    cases = [(f"map_{s}", map_case, s) for s in SYSTEMS]
    cases += [(f"cfl_{s}", cfl_case, s) for s in SYSTEMS]
    for s in SYSTEMS:
        for a in [((-1, -1, -1), 1, True), ((3, 4, 2), 2, True), ((2, -1, 3), 1, False)] + ([] if QUICK else [((6, 2, 5), dag.Fraction(3, 2), True), ((4, 4, 4), dag.Fraction(1, 2), False)]):
            cases.append((f"grid_{s}_{a[0]}_{a[1]}", grid_case, (s,) + a))
    cases.append(("multigrid", multi_case, 0))
    ck.run(cases)
    ck.finish()


if __name__ == "__main__":
    main()
