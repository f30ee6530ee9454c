"""P11: the generated MoL time step is the Runge-Kutta step of the chosen method."""
import math
import os

import sympy as sp

from vlib import bhah, cexec, dag, tv
from vlib.core import QUICK, STATS, Check, Inconclusive, Violation, encoded, nrpy_call, report, rmtree, sample, unlimit
from vlib.dag import C, V

# two grids of different size; 2 evolved gridfunctions
GRIDS = [(2, 1, 2), (1, 3, 1)]
NEV = 2


def register(method, rfm, bcs, postpost):
    import nrpy.grid as gri
    import nrpy.params as par
    from nrpy.infrastructures.BHaH.MoLtimestepping import MoL

    par.set_parval_from_str("Infrastructure", "BHaH")
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep  # noqa  (registers NUMGRIDS, Nxx parameters)

    gri.register_gridfunctions(["uu", "vv"], group="EVOL")
    gri.register_gridfunctions(["aa"], group="AUXEVOL")
    if bcs:
        from nrpy.infrastructures.BHaH.BHaH_defines_h import register_BHaH_defines

        register_BHaH_defines("bcstub", "")
    nrpy_call(
        f"mol:{method}", bhah.quiet, MoL.register_CFunctions,
        MoL_method=method,
        rhs_string="rhs_eval(commondata, params, grid, xx, RK_INPUT_GFS, RK_OUTPUT_GFS);" if not rfm else "rhs_eval(commondata, params, grid, rfmstruct, RK_INPUT_GFS, RK_OUTPUT_GFS);",
        post_rhs_string="if(1) { apply_bcs(commondata, params, grid, RK_OUTPUT_GFS); }",
        post_post_rhs_string="postpost(commondata);\n" if postpost else "",
        enable_rfm_precompute=rfm, enable_curviBCs=False, enable_simd=False,
    )


def expected_tables(method):
    from nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary import generate_Butcher_tables

    tab = generate_Butcher_tables()[method][0]
    rows = [r for r in tab if r[0] != ""]
    b = [sp.sympify(x) for x in tab[-1][1:]]
    return [[sp.sympify(x) for x in r[1:]] for r in rows], [sp.sympify(r[0]) for r in rows], b


def dnum(x):
    return dag.from_sympy(sp.sympify(x), {})


def close(a, b):
    """Coefficients are printed as doubles: allow 1e-15 relative per coefficient by comparing linear forms."""
    return dag.sub(a, b)


def case(arg):
    method, rfm, postpost = arg
    encoded("MoL_step_forward_in_time", "MoL_malloc_y_n_gfs", "MoL_malloc_non_y_n_gfs", "MoL_free_memory_y_n_gfs", "MoL_free_memory_non_y_n_gfs", "MoL_gridfunctions_struct")
    register(method, rfm, False, postpost)
    key = f"mol:{method}:{int(rfm)}{int(postpost)}"
    if rfm:
        from nrpy.infrastructures.BHaH.BHaH_defines_h import register_BHaH_defines

        register_BHaH_defines("after_general", "typedef struct __rfmstruct__ { int dummy; } rfm_struct;\n")
    unit = bhah.Unit(key=key, header_kw=dict(enable_rfm_precompute=rfm))
    xxarg = "const rfm_struct *restrict rfmstruct" if rfm else "REAL *restrict xx[3]"
    pre = f"""
void rhs_eval(const commondata_struct *commondata, const params_struct *params, int grid, {xxarg}, const REAL *in, REAL *out);
void apply_bcs(const commondata_struct *commondata, const params_struct *params, int grid, REAL *gfs);
void postpost(const commondata_struct *commondata);
"""
    names = ["MoL_malloc_y_n_gfs", "MoL_malloc_non_y_n_gfs", "MoL_step_forward_in_time", "MoL_free_memory_y_n_gfs", "MoL_free_memory_non_y_n_gfs"]
    src = unit.source(names, pre)
    err = cexec.syntax_check(src, (), unit.incdirs)
    if err:
        report(key + ":compile", f"MoL code for {method} does not compile: {[l for l in err.splitlines() if 'error' in l][:1]}", {"gcc": err})
        return
    A, c, b = expected_tables(method)
    s = len(A)
    ex = cexec.Exec(src, incdirs=unit.incdirs)
    S, INT, DBL = cexec.S, cexec.INT, cexec.DBL
    cd = ex.newobj(ex.typedefs["commondata_struct"], "commondata")
    gd = cexec.Arr(ex, ex.typedefs["griddata_struct"], "griddata", len(GRIDS))
    t0, dt, nn = V("t0"), V("dt"), V("nn")
    cd.field("time").v = S(DBL, t0)
    cd.field("dt").v = S(DBL, dt)
    cd.field("nn").v = S(INT, nn)
    cd.field("NUMGRIDS").v = S(INT, C(len(GRIDS)))
    for f in cd.t.fields:
        o = cd.field(f)
        if isinstance(o, cexec.Cell) and o.v is None and o.t.k in ("int", "flt"):
            o.v = S(o.t, V("cd." + f))
    pcd = cexec.P(cd)
    y0 = {}
    for g, dims in enumerate(GRIDS):
        st = ex.elem_obj(gd, C(g))
        par = st.field("params")
        for f in par.t.fields:
            o = par.field(f)
            if isinstance(o, cexec.Cell) and o.t.k in ("int", "flt"):
                o.v = S(o.t, V(f"par{g}.{f}"))
        for d in range(3):
            par.field(f"Nxx_plus_2NGHOSTS{d}").v = S(INT, C(dims[d]))
        xx = st.field("xx")
        for d in range(3):
            xx.conc[d] = cexec.Cell(T_ptr(), cexec.P(cexec.Arr(ex, DBL, f"xx{g}{d}", None)), "")
        gf = st.field("gridfuncs")
        pp = cexec.P(par)
        try:
            ex.call("MoL_malloc_y_n_gfs", [pcd, pp, cexec.P(gf)]) if not reads_unset(ex, gf) else None
            ex.call("MoL_malloc_non_y_n_gfs", [pcd, pp, cexec.P(gf)])
        except cexec.ExecError as e:
            report(key + ":malloc", f"MoL allocation for {method}: {e}", {})
            return
        tot = dims[0] * dims[1] * dims[2]
        for f in gf.t.fields:
            v = gf.field(f).v
            if f.startswith("diagnostic_output"):
                continue
            want = tot * (1 if f == "auxevol_gfs" else NEV)
            STATS.obligations += 1
            if not (isinstance(v, cexec.P) and isinstance(v.obj, cexec.Arr) and v.obj in ex.heap):
                report(key + ":alloc:" + f, f"{method}: gridfunction array {f} is not allocated", {})
                return
            if v.obj.n is None or v.obj.n < want:
                report(key + ":alloc:" + f, f"{method}: gridfunction array {f} is allocated for {v.obj.n} values, needs {want}", {})
                return
        nscratch = len([f for f in gf.t.fields if f not in ("y_n_gfs", "auxevol_gfs") and not f.startswith("diagnostic")])
        for f in ("diagnostic_output_gfs", "diagnostic_output_gfs2"):
            v = gf.field(f).v
            STATS.obligations += 1
            if f.endswith("2") and nscratch == 1 and isinstance(v, cexec.P) and v.obj is None:
                continue
            if not (isinstance(v, cexec.P) and isinstance(v.obj, cexec.Arr) and v.obj in ex.heap and (v.obj.n or 0) >= tot * NEV and v.obj is not gf.field("y_n_gfs").v.obj):
                report(key + ":" + f, f"{method}: {f} does not point to scratch storage for the evolved gridfunctions after allocation", {})
        if gf.field("diagnostic_output_gfs").v.obj is gf.field("diagnostic_output_gfs2").v.obj:
            report(key + ":diag_alias", f"{method}: diagnostic_output_gfs and diagnostic_output_gfs2 share storage", {})
        y = gf.field("y_n_gfs").v.obj
        for i in range(NEV * tot):
            y.conc[i] = S(DBL, V(f"y{g}_{i}"))
            y0[(g, i)] = V(f"y{g}_{i}")
    # environment: RHS and boundary conditions
    calls = []  # per rhs call
    ks = {}  # grid -> list of {i: kvar}
    bc = {}
    nb = [0]

    def ghost(g):
        return 0  # index of the point that the boundary condition fills

    def rhs(ex_, name, args):
        g = int(args[2].n.a[0])
        inp, out = args[-2], args[-1]
        stage = len(ks.setdefault(g, []))
        dims = GRIDS[g]
        n = NEV * dims[0] * dims[1] * dims[2]
        vals = [ex.read(ex.elem_obj(inp.obj, dag.add(inp.off, C(i)))).n for i in range(n)]
        t = cd.field("time").v.n
        calls.append((g, stage, vals, t))
        if inp.obj is out.obj:
            raise cexec.ExecError("RHS input and output are the same array")
        if isinstance(args[1], cexec.P) and args[1].obj is not ex.elem_obj(gd, C(g)).field("params"):
            raise cexec.ExecError("RHS got the parameters of another grid")
        kv = {}
        for i in range(n):
            kv[i] = V(f"k{g}_{stage}_{i}")
            ex.write(ex.elem_obj(out.obj, dag.add(out.off, C(i))), S(DBL, kv[i]))
        ks[g].append(kv)
        return None

    def bcs(ex_, name, args):
        g = int(args[2].n.a[0])
        p = args[3]
        nb[0] += 1
        v = V(f"B{nb[0]}")
        bc.setdefault(g, set()).add(v.id)
        ex.write(ex.elem_obj(p.obj, dag.add(p.off, C(ghost(g)))), S(DBL, v))
        return None

    pps = []
    ex.stubs["rhs_eval"] = rhs
    ex.stubs["apply_bcs"] = bcs
    ex.stubs["postpost"] = lambda *_: pps.append(len(calls))
    try:
        ex.call("MoL_step_forward_in_time", [pcd, cexec.P(gd)])
    except cexec.ExecError as e:
        rep = concrete(unit, names, pre, xxarg, A, c, b, rfm)
        if rep is None:
            raise Inconclusive(f"{key}: {e}") from e
        report(key + ":exec", f"MoL step for {method}: {e}; compiled step: {rep}", {"compiled": rep})
        return
    pr = dag.Prover()
    bad = []

    def check(tag, got, want, what):
        try:
            same = pr.equal(got, want)
        except Inconclusive:
            # decimal coefficients: equal to double precision
            same = pr.within(got, want, dag.mul(C(dag.Fraction(1, 10**14)), dag.fn("fabs", dt)))
        if not same:
            bad.append((tag, what, got, want))

    for g, dims in enumerate(GRIDS):
        n = NEV * dims[0] * dims[1] * dims[2]
        mine = [x for x in calls if x[0] == g]
        STATS.obligations += 1
        if len(mine) != s:
            bad.append((f"stages{g}", f"{len(mine)} right-hand-side evaluations for a {s}-stage method", C(len(mine)), C(s)))
            continue
        for _, st, vals, t in mine:
            check(f"time{st}", t, dag.add(t0, dag.mul(dnum(c[st]), dt)), f"time of right-hand-side evaluation {st}")
            for i in range(n):
                if i == ghost(g):
                    if st > 0 and vals[i].id not in bc.get(g, ()):
                        bad.append((f"bc{st}", f"the input of right-hand-side evaluation {st} has not had the post-RHS step applied", vals[i], vals[i]))
                    if st == 0:
                        check(f"in{st}", vals[i], y0[(g, i)], "input of the first right-hand-side evaluation")
                    continue
                want = y0[(g, i)]
                for j in range(st):
                    want = dag.add(want, dag.mul(dag.mul(dt, dnum(A[st][j])), ks[g][j][i]))
                check(f"in{st}", vals[i], want, f"input of right-hand-side evaluation {st}")
        y = ex.elem_obj(gd, C(g)).field("gridfuncs").field("y_n_gfs").v
        for i in range(n):
            got = ex.read(ex.elem_obj(y.obj, dag.add(y.off, C(i)))).n
            if i == ghost(g):
                if got.id not in bc.get(g, ()):
                    bad.append(("bcend", "the new state has not had the post-RHS step applied", got, got))
                continue
            want = y0[(g, i)]
            for j in range(s):
                want = dag.add(want, dag.mul(dag.mul(dt, dnum(b[j])), ks[g][j][i]))
            check("end", got, want, "state after the step")
    check("nn", cd.field("nn").v.n, dag.add(nn, C(1)), "iteration counter")
    check("tend", cd.field("time").v.n, dag.mul(dag.add(nn, C(1)), dt), "time after the step")
    if postpost and len(pps) < s:
        bad.append(("postpost", f"post-post-RHS hook ran {len(pps)} times for {s} substeps", C(0), C(0)))
    if bad:
        rep = concrete(unit, names, pre, xxarg, A, c, b, rfm)
        if rep is None:
            raise Inconclusive(f"{key}: not reproduced: {bad[0][1]}")
        for tag, what, got, want in bad[:3]:
            report(f"{key}:{tag}", f"{method}: {what} is wrong; compiled step: {rep}", {"compiled": rep, "got": dag.show(got, 4), "want": dag.show(want, 4)})
    elif method in ("RK4", "Euler", "DP5", "SSPRK3"):
        # the replay program agrees with the solver on a correct step
        rep = concrete(unit, names, pre, xxarg, A, c, b, rfm)
        STATS.twins += 1
        if rep is not None:
            raise Inconclusive(f"{key}: proved equal but the compiled step differs: {rep}")
    # freeing
    for g in range(len(GRIDS)):
        gf = ex.elem_obj(gd, C(g)).field("gridfuncs")
        try:
            ex.call("MoL_free_memory_y_n_gfs", [cexec.P(gf)])
            ex.call("MoL_free_memory_non_y_n_gfs", [cexec.P(gf)])
        except cexec.ExecError as e:
            report(key + ":free", f"MoL free for {method}: {e}", {})
    left = [a.name for a in ex.heap if not a.freed]
    STATS.obligations += 1
    if left:
        report(key + ":leak", f"{method}: {len(left)} gridfunction arrays are not freed", {"left": left})
    sample({"method": method, "stages": s, "rhs_calls": len(calls)})
    rmtree(unit.dir)


def T_ptr():
    return cexec.T("ptr", elem=cexec.DBL)


def reads_unset(ex, gf):
    """Allocation functions copy pointers of arrays allocated by the other function: give unset pointers a null value first."""
    for f in gf.t.fields:
        o = gf.field(f)
        if isinstance(o, cexec.Cell) and o.v is None:
            o.v = cexec.P(None, dag.ZERO, o.t)
    return False


def far(a, b):
    return not all(abs(x - y) <= 1e-10 for x, y in zip(a, b))


def concrete(unit, names, pre, xxarg, A, c, b, rfm):
    """Compile the real step with a nonlinear time-dependent RHS and compare with a reference RK step."""
    n = [NEV * d[0] * d[1] * d[2] for d in GRIDS]

    main = f"""
static int NPTS[2] = {{{n[0]}, {n[1]}}};
static double LOG[100000]; static int nlog = 0;
void rhs_eval(const commondata_struct *commondata, const params_struct *params, int grid, {xxarg}, const REAL *in, REAL *out) {{
  LOG[nlog++] = commondata->time;
  for (int i = 0; i < NPTS[grid]; i++) LOG[nlog++] = in[i];
  for (int i = 0; i < NPTS[grid]; i++) out[i] = 0.0;
  for (int i = 0; i < NPTS[grid]; i++) out[i] = sin(3*in[i]) + 0.5*in[(i+1)%NPTS[grid]] + cos(2*commondata->time) + 0.1*i;
}}
void apply_bcs(const commondata_struct *commondata, const params_struct *params, int grid, REAL *gfs) {{ gfs[0] = 0.125 + grid; }}
void postpost(const commondata_struct *commondata) {{ }}
int main() {{
  commondata_struct cd; memset(&cd, 0, sizeof cd); griddata_struct gd[2]; memset(gd, 0, sizeof gd);
  cd.time = 0.3; cd.dt = 0.1; cd.nn = 3; cd.NUMGRIDS = 2;
  int dims[2][3] = {{{{{','.join(map(str, GRIDS[0]))}}}, {{{','.join(map(str, GRIDS[1]))}}}}};
  for (int g = 0; g < 2; g++) {{
    gd[g].params.Nxx_plus_2NGHOSTS0 = dims[g][0]; gd[g].params.Nxx_plus_2NGHOSTS1 = dims[g][1]; gd[g].params.Nxx_plus_2NGHOSTS2 = dims[g][2];
    MoL_malloc_y_n_gfs(&cd, &gd[g].params, &gd[g].gridfuncs); MoL_malloc_non_y_n_gfs(&cd, &gd[g].params, &gd[g].gridfuncs);
    for (int i = 0; i < NPTS[g]; i++) gd[g].gridfuncs.y_n_gfs[i] = 0.2 + 0.3*i - 0.4*g;
  }}
  MoL_step_forward_in_time(&cd, gd);
  printf("%d %.17g %d\\n", nlog, cd.time, cd.nn);
  for (int i = 0; i < nlog; i++) printf("%.17g\\n", LOG[i]);
  for (int g = 0; g < 2; g++) for (int i = 0; i < NPTS[g]; i++) printf("%.17g\\n", gd[g].gridfuncs.y_n_gfs[i]);
}}
"""
    import subprocess

    p = unit.dir + "/mol_main.c"
    with open(p, "w", encoding="utf-8") as f:
        f.write(unit.source(names, pre, main))
    r = subprocess.run(["gcc", "-std=gnu99", "-w", "-O1", "-g", "-fsanitize=address"] + ["-I" + d for d in unit.incdirs] + [p, "-lm", "-o", unit.dir + "/mol"], capture_output=True, text=True, check=False)
    if r.returncode:
        return "does not compile: " + r.stderr[:300]
    r = subprocess.run([unit.dir + "/mol"], capture_output=True, text=True, check=False, timeout=60, preexec_fn=unlimit, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    if r.returncode:
        return f"crashes with status {r.returncode}"
    lines = r.stdout.split()
    nlog, tend, nn = int(lines[0]), float(lines[1]), int(lines[2])
    log = [float(x) for x in lines[3 : 3 + nlog]]
    ys = [float(x) for x in lines[3 + nlog :]]
    if nn != 4 or abs(tend - 0.4) > 1e-12:
        return f"time {tend} iteration {nn} after a step from iteration 3 with dt=0.1"
    s = len(A)
    off = 0
    exp_stage = []
    for g in range(2):
        y = [0.2 + 0.3 * i - 0.4 * g for i in range(n[g])]
        k = []
        ins = []
        for st in range(s):
            Y = [y[i] + 0.1 * sum(float(A[st][j]) * k[j][i] for j in range(st)) for i in range(n[g])]
            if st > 0:
                Y[0] = 0.125 + g
            t = 0.3 + float(c[st]) * 0.1
            ins.append((t, list(Y)))
            k.append([math.sin(3 * Y[i]) + 0.5 * Y[(i + 1) % n[g]] + math.cos(2 * t) + 0.1 * i for i in range(n[g])])
        ynew = [y[i] + 0.1 * sum(float(b[j]) * k[j][i] for j in range(s)) for i in range(n[g])]
        ynew[0] = 0.125 + g
        exp_stage.append((ins, ynew))
    pos = 0
    seen = []
    for st in range(s):
        for g in range(2):
            if pos + 1 + n[g] > len(log):
                return f"only {pos} values were passed to the right-hand side"
            t, Y = log[pos], log[pos + 1 : pos + 1 + n[g]]
            pos += 1 + n[g]
            et, eY = exp_stage[g][0][st]
            if abs(t - et) > 1e-12 or far(Y, eY):
                return f"grid {g} stage {st}: time {t} (expected {et}), input {Y} (expected {eY})"
    if pos != len(log):
        return "extra right-hand-side evaluations"
    o = 0
    for g in range(2):
        got = ys[o : o + n[g]]
        o += n[g]
        if far(got, exp_stage[g][1]):
            return f"grid {g}: new state {got}, expected {exp_stage[g][1]}"
    return None


def main():
    from nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary import generate_Butcher_tables

    ck = Check(
        "P11",
        "translation_validation",
        assumptions=["real-number semantics (no rounding)", "the right-hand side is an arbitrary function (each evaluation returns fresh symbols); the post-RHS step fills the ghost point and leaves other points unchanged"],
        bounds="every non-adaptive Butcher table; 2 grids of 8 and 6 values; one full step from arbitrary state, time, dt and iteration",
        explanation="generated allocation, step and free functions are executed symbolically; z3 proves each stage input, stage time and the new state equal to the Runge-Kutta formula for all states, RHS values, dt",
    )
    names = [n for n, (t, _) in generate_Butcher_tables().items() if t[-1][0] == ""]
    cases = []
    for n in names:
        cases.append((f"{n}", case, (n, False, False)))
        if not QUICK or n in ("RK4", "Euler", "RK3 Heun", "SSPRK3", "DP5"):
            cases.append((f"{n}_rfm_pp", case, (n, True, True)))
    ck.run(cases)
    ck.finish()


if __name__ == "__main__":
    main()
