"""P12: the superB (Charm++) split MoL step, driven as timestepping.ci drives it, is the Runge-Kutta step."""
import math
import os
import re
import subprocess

import sympy as sp

from vlib import bhah, cexec, dag
from vlib.core import REPO, STATS, Check, Inconclusive, encoded, nrpy_call, report, rmtree, sample, unlimit
from vlib.dag import C, V

DIMS = (2, 2, 2)
NEV = 2
N = NEV * 8
# gridfunction 0: point 0 outer BC, point 1 nonlocal inner BC, points 2-4 chare ghosts per axis, point 5 post-RHS
DIRS = {"EAST_WEST": 2, "NORTH_SOUTH": 3, "TOP_BOTTOM": 4}
POST = 5


def tables(method):
    from nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary import generate_Butcher_tables

    tab = generate_Butcher_tables()[method][0]
    rows = [r for r in tab if r[0] != ""]
    return [[sp.sympify(x) for x in r[1:]] for r in rows], [sp.sympify(r[0]) for r in rows], [sp.sympify(x) for x in tab[-1][1:]]


EV = re.compile(r"MoL_step_forward_in_time\s*\(([^;]*)\)\s*;|send_nonlocalinnerbc_data\s*\(([^;]*)\)\s*;|send_neighbor_data\s*\(([^;]*)\)\s*;|when\s+(east|west|north|south|top|bottom)_ghost\s*\(")


def events(text):
    """Ordered MoL / communication events between the first and the last MoL call (and the syncs that follow it)."""
    text = re.sub(r"//[^\n]*", "", text)
    evs = []
    for m in EV.finditer(text):
        if m.group(1) is not None:
            a = [x.strip() for x in m.group(1).split(",")]
            evs.append(("mol", a[-2], a[-1]))
        elif m.group(2) is not None:
            evs.append(("inner", m.group(2).split(",")[0].strip()))
        elif m.group(3) is not None:
            a = [x.strip() for x in m.group(3).split(",")]
            evs.append(("neigh", a[0], a[1]))
        else:
            evs.append(("recv", m.group(4)))
    first = next((i for i, e in enumerate(evs) if e[0] == "mol"), None)
    if first is None:
        raise Inconclusive("no MoL call in timestepping.ci")
    return evs[first:]


def case(arg):
    method, rad = arg
    key = f"superB_mol:{method}:{'rad' if rad else 'extrap'}"
    encoded("superB MoL_step_forward_in_time", "MoL_malloc_y_n_gfs", "MoL_malloc_non_y_n_gfs", "timestepping.ci time-step sequence", "generate_rhs_output_exprs", "generate_post_rhs_output_list")
    import nrpy.grid as gri
    import nrpy.params as par

    par.set_parval_from_str("Infrastructure", "BHaH")
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep  # noqa
    from nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary import generate_Butcher_tables
    from nrpy.infrastructures.superB import MoL, timestepping_chare

    gri.register_gridfunctions(["uu", "vv"], group="EVOL")
    gri.register_gridfunctions(["aa"], group="AUXEVOL")
    nrpy_call(
        key, bhah.quiet, MoL.register_CFunctions, MoL_method=method,
        rhs_string="rhs_eval(commondata, params, RK_INPUT_GFS, RK_OUTPUT_GFS);",
        post_rhs_bcs_str="" if rad else "apply_bcs(commondata, params, RK_OUTPUT_GFS);",
        post_rhs_string="post_rhs(commondata, params, RK_OUTPUT_GFS);",
    )
    from nrpy.infrastructures.BHaH.BHaH_defines_h import register_BHaH_defines

    register_BHaH_defines("after_general", "typedef struct __rfmstruct__ { int dummy; } rfm_struct;\n")
    unit = bhah.Unit(key=key, header_kw=dict(additional_includes=["superB/superB.h"]))
    os.makedirs(unit.dir + "/superB")
    for h in ("ckio.h", "pup.h"):
        open(unit.dir + "/" + h, "w", encoding="utf-8").close()
    os.symlink(REPO + "/nrpy/infrastructures/superB/superB/superB.h", unit.dir + "/superB/superB.h")
    nrpy_call(key + ":ci", bhah.quiet, timestepping_chare.output_timestepping_ci, project_dir=unit.dir + "/ci", Butcher_dict=generate_Butcher_tables(), MoL_method=method, post_non_y_n_auxevol_mallocs="", outer_bcs_type="radiation" if rad else "extrapolation")
    evs = events(open(unit.dir + "/ci/timestepping.ci", encoding="utf-8").read())
    pre = """
void rhs_eval(const commondata_struct *commondata, const params_struct *params, const REAL *in, REAL *out);
void apply_bcs(const commondata_struct *commondata, const params_struct *params, REAL *gfs);
void post_rhs(const commondata_struct *commondata, const params_struct *params, REAL *gfs);
"""
    toks = sorted({e[1] for e in evs if e[0] in ("inner", "neigh", "mol")} | {e[2] for e in evs if e[0] == "mol"})
    post = "\n" + "".join(f"int tok_{t}(void) {{ return {t}; }}\n" for t in toks)
    names = ["MoL_malloc_y_n_gfs", "MoL_malloc_non_y_n_gfs", "MoL_step_forward_in_time", "MoL_free_memory_y_n_gfs", "MoL_free_memory_non_y_n_gfs"]
    src = unit.source(names, pre, post)
    err = cexec.syntax_check(src, (), unit.incdirs)
    if err:
        report(key + ":compile", f"superB MoL code for {method} does not compile: {[l for l in err.splitlines() if 'error' in l][:1]}", {"gcc": err})
        return
    A, c, b = tables(method)
    s = len(A)
    ex = cexec.Exec(src, incdirs=unit.incdirs)
    S, INT, DBL = cexec.S, cexec.INT, cexec.DBL
    val = {t: int(ex.call("tok_" + t, []).n.a[0]) for t in toks}
    cd = ex.newobj(ex.typedefs["commondata_struct"], "commondata")
    gd = cexec.Arr(ex, ex.typedefs["griddata_struct"], "griddata", 1)
    t0, dt = V("t0"), V("dt")
    for f in cd.t.fields:
        o = cd.field(f)
        if isinstance(o, cexec.Cell) and o.t.k in ("int", "flt"):
            o.v = S(o.t, V("cd." + f))
    cd.field("dt").v = S(DBL, dt)
    cd.field("NUMGRIDS").v = S(INT, C(1))
    pcd = cexec.P(cd)
    st = ex.elem_obj(gd, C(0))
    pars = st.field("params")
    for f in pars.t.fields:
        o = pars.field(f)
        if isinstance(o, cexec.Cell) and o.t.k in ("int", "flt"):
            o.v = S(o.t, V(f"par.{f}"))
    for d in range(3):
        pars.field(f"Nxx_plus_2NGHOSTS{d}").v = S(INT, C(DIMS[d]))
        st.field("xx").conc[d] = cexec.Cell(cexec.T("ptr", elem=DBL), cexec.P(cexec.Arr(ex, DBL, f"xx{d}", None)), "")
    gf = st.field("gridfuncs")
    for f in gf.t.fields:
        o = gf.field(f)
        if isinstance(o, cexec.Cell) and o.v is None and o.t.k == "ptr":
            o.v = cexec.P(None, dag.ZERO, o.t)
    ex.call("MoL_malloc_y_n_gfs", [pcd, cexec.P(pars), cexec.P(gf)])
    ex.call("MoL_malloc_non_y_n_gfs", [pcd, cexec.P(pars), cexec.P(gf)])
    y = gf.field("y_n_gfs").v.obj
    y0 = [V(f"y_{i}") for i in range(N)]
    for i in range(N):
        y.conc[i] = S(DBL, y0[i])
    # names of the gridfunction-type constants -> arrays (Charm++ messages carry the constant)
    arrays = {f.upper(): f for f in gf.t.fields if isinstance(gf.field(f), cexec.Cell) and gf.field(f).t.k == "ptr" and not f.startswith("diagnostic")}
    used = sorted({e[1] for e in evs if e[0] in ("inner", "neigh")})
    STATS.obligations += 1
    if len({val[t] for t in used}) != len(used):
        report(key + ":consts", f"{method}: two gridfunction types share a constant: {[(t, val[t]) for t in used]}", {})
        return
    bad = []
    calls, ks, last_out = [], [], [None]
    tags = {k: set() for k in ("bc", "inner", "post", "EAST_WEST", "NORTH_SOUTH", "TOP_BOTTOM")}
    cnt = [0]

    def fresh(tag):
        cnt[0] += 1
        v = V(f"{tag}_{cnt[0]}")
        tags[tag].add(v.id)
        return S(DBL, v)

    def rhs(_e, _n, args):
        inp, out = args[-2], args[-1]
        stage = len(calls)
        calls.append(([ex.read(ex.elem_obj(inp.obj, dag.add(inp.off, C(i)))).n for i in range(N)], cd.field("time").v.n))
        if inp.obj is out.obj:
            raise cexec.ExecError("RHS input and output are the same array")
        kv = [V(f"k{stage}_{i}") for i in range(N)]
        for i in range(N):
            ex.write(ex.elem_obj(out.obj, dag.add(out.off, C(i))), S(DBL, V(f"unsynced{stage}") if rad and i == 1 else kv[i]))
        ks.append(kv)
        last_out[0] = out.obj

    def bcs(_e, _n, args):
        ex.write(ex.elem_obj(args[2].obj, args[2].off), fresh("bc"))

    def post_rhs(_e, _n, args):
        ex.write(ex.elem_obj(args[2].obj, dag.add(args[2].off, C(POST))), fresh("post"))

    ex.stubs.update(rhs_eval=rhs, apply_bcs=bcs, post_rhs=post_rhs)
    try:
        for e in evs:
            if e[0] == "mol":
                ex.call("MoL_step_forward_in_time", [pcd, cexec.P(gd), S(DBL, t0), S(INT, C(val[e[1]])), S(INT, C(val[e[2]]))])
                continue
            if e[0] == "recv":
                continue
            if e[1] not in arrays:
                raise cexec.ExecError(f"message for unknown gridfunction array {e[1]}")
            if e[1] == "AUXEVOL_GFS":
                continue
            obj = gf.field(arrays[e[1]]).v.obj
            if e[0] == "inner":
                if obj is last_out[0] and rad:
                    v = S(DBL, ks[-1][1])
                else:
                    v = fresh("inner")
                obj.conc[1] = v
            else:
                obj.conc[DIRS[e[2]]] = fresh(e[2])
    except cexec.ExecError as e:
        rep = concrete(unit, names, pre, evs, arrays, A, c, b, rad)
        if rep is None:
            raise Inconclusive(f"{key}: {e}") from e
        report(key + ":exec", f"{method}: {e}; compiled: {rep}", {})
        return
    pr = dag.Prover()

    def check(tag, got, want, what):
        try:
            same = pr.equal(got, want)
        except Inconclusive:
            same = pr.within(got, want, dag.mul(C(dag.Fraction(1, 10**14)), dag.fn("fabs", dt)))
        if not same:
            bad.append((tag, what))

    special = {POST: "post"}
    special.update({i: d for d, i in DIRS.items()})
    if not rad:
        special.update({0: "bc", 1: "inner"})
    txt = dict(post="post-RHS step", bc="outer boundary condition", inner="nonlocal inner boundary condition", EAST_WEST="ghost exchange along axis 0", NORTH_SOUTH="ghost exchange along axis 1", TOP_BOTTOM="ghost exchange along axis 2")

    def state(vals, coeffs, what, tag, first=False):
        for i in range(N):
            if i in special and not first:
                STATS.obligations += 1
                if vals[i].id not in tags[special[i]]:
                    bad.append((f"{tag}:{special[i]}", f"{what} lacks the {txt[special[i]]}"))
                continue
            want = y0[i]
            for j, a in enumerate(coeffs):
                if a != 0:
                    want = dag.add(want, dag.mul(dag.mul(dt, dag.from_sympy(a, {})), ks[j][i]))
            check(tag, vals[i], want, what)

    STATS.obligations += 1
    if len(calls) != s:
        bad.append(("stages", f"{len(calls)} right-hand-side evaluations in a step of a {s}-stage method"))
    else:
        for j, (vals, t) in enumerate(calls):
            check(f"time{j}", t, dag.add(t0, dag.mul(dag.from_sympy(c[j], {}), dt)), f"time of right-hand-side evaluation {j}")
            state(vals, A[j][:j], f"input of right-hand-side evaluation {j}", f"in{j}", first=j == 0)
        state([ex.read(ex.elem_obj(y, C(i))).n for i in range(N)], b, "new state", "end")
    if bad:
        rep = concrete(unit, names, pre, evs, arrays, A, c, b, rad)
        if rep is None:
            raise Inconclusive(f"{key}: not reproduced: {bad[0]}")
        for tag, what in bad[:3]:
            report(f"{key}:{tag}", f"{method}: {what} is wrong or missing; compiled: {rep}", {"compiled": rep})
    elif method in ("RK4", "Euler", "DP5", "SSPRK3"):
        rep = concrete(unit, names, pre, evs, arrays, A, c, b, rad)
        STATS.twins += 1
        if rep is not None:
            raise Inconclusive(f"{key}: proved equal but the compiled step differs: {rep}")
    sample({"method": method, "events": len(evs), "rhs_calls": len(calls)})
    rmtree(unit.dir)


def far(a, b):
    return not all(abs(x - y) <= 1e-10 for x, y in zip(a, b))


def concrete(unit, names, pre, evs, arrays, A, c, b, rad):
    consts = {"bc": 0.125, "inner": 0.25, "EAST_WEST": 0.3, "NORTH_SOUTH": 0.4, "TOP_BOTTOM": 0.5, "post": 0.6}
    body = ""
    for e in evs:
        if e[0] == "mol":
            body += f"  MoL_step_forward_in_time(&cd, gd, 0.3, {e[1]}, {e[2]});\n"
        elif e[0] == "recv" or e[1] == "AUXEVOL_GFS":
            continue
        elif e[1] not in arrays:
            return f"message for unknown gridfunction array {e[1]}"
        elif e[0] == "inner":
            body += f"  if ({int(rad)} && gd[0].gridfuncs.{arrays[e[1]]} == last_out) last_out[1] = 0.5; else gd[0].gridfuncs.{arrays[e[1]]}[1] = {consts['inner']};\n"
        else:
            body += f"  gd[0].gridfuncs.{arrays[e[1]]}[{DIRS[e[2]]}] = {consts[e[2]]};\n"
    main = f"""
static double LOG[100000]; static int nlog = 0; static REAL *last_out;
void rhs_eval(const commondata_struct *commondata, const params_struct *params, const REAL *in, REAL *out) {{
  LOG[nlog++] = commondata->time;
  for (int i = 0; i < {N}; i++) LOG[nlog++] = in[i];
  for (int i = 0; i < {N}; i++) out[i] = sin(3*LOG[nlog-{N}+i]) + cos(2*commondata->time) + 0.1*i;
  if ({int(rad)}) out[1] = 1e6;
  last_out = out;
}}
void apply_bcs(const commondata_struct *commondata, const params_struct *params, REAL *gfs) {{ gfs[0] = {consts['bc']}; }}
void post_rhs(const commondata_struct *commondata, const params_struct *params, REAL *gfs) {{ gfs[{POST}] = {consts['post']}; }}
int main() {{
  commondata_struct cd; memset(&cd, 0, sizeof cd); griddata_struct gd[1]; memset(gd, 0, sizeof gd);
  cd.time = 0.3; cd.dt = 0.1; cd.NUMGRIDS = 1;
  gd[0].params.Nxx_plus_2NGHOSTS0 = {DIMS[0]}; gd[0].params.Nxx_plus_2NGHOSTS1 = {DIMS[1]}; gd[0].params.Nxx_plus_2NGHOSTS2 = {DIMS[2]};
  MoL_malloc_y_n_gfs(&cd, &gd[0].params, &gd[0].gridfuncs); MoL_malloc_non_y_n_gfs(&cd, &gd[0].params, &gd[0].gridfuncs);
  for (int i = 0; i < {N}; i++) gd[0].gridfuncs.y_n_gfs[i] = 0.2 + 0.3*i;
{body}
  printf("%d\\n", nlog);
  for (int i = 0; i < nlog; i++) printf("%.17g\\n", LOG[i]);
  for (int i = 0; i < {N}; i++) printf("%.17g\\n", gd[0].gridfuncs.y_n_gfs[i]);
}}
"""
    p = unit.dir + "/mol_main.c"
    with open(p, "w", encoding="utf-8") as f:
        f.write(unit.source(names, pre, main))
    r = subprocess.run(["gcc", "-std=gnu99", "-w", "-O1", "-g", "-fsanitize=address"] + ["-I" + d for d in unit.incdirs] + [p, "-lm", "-o", unit.dir + "/mol"], capture_output=True, text=True, check=False)
    if r.returncode:
        return "does not compile: " + r.stderr[:300]
    r = subprocess.run([unit.dir + "/mol"], capture_output=True, text=True, check=False, timeout=60, preexec_fn=unlimit, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    if r.returncode:
        return f"crashes with status {r.returncode}"
    w = r.stdout.split()
    nlog = int(w[0])
    log = [float(x) for x in w[1 : 1 + nlog]]
    ys = [float(x) for x in w[1 + nlog :]]
    s = len(A)
    if nlog != s * (1 + N):
        return f"{nlog // (1 + N)} right-hand-side evaluations, expected {s}"

    def fix(Y):
        Y[POST] = consts["post"]
        for d, i in DIRS.items():
            Y[i] = consts[d]
        if not rad:
            Y[0], Y[1] = consts["bc"], consts["inner"]
        return Y

    yv = [0.2 + 0.3 * i for i in range(N)]
    k = []
    for st in range(s):
        Y = [yv[i] + 0.1 * sum(float(A[st][j]) * k[j][i] for j in range(st)) for i in range(N)]
        if st:
            fix(Y)
        t = 0.3 + float(c[st]) * 0.1
        got = log[st * (1 + N) + 1 : (st + 1) * (1 + N)]
        if abs(log[st * (1 + N)] - t) > 1e-12 or far(got, Y):
            return f"stage {st}: time {log[st * (1 + N)]} (expected {t}), input {got} (expected {Y})"
        kk = [math.sin(3 * Y[i]) + math.cos(2 * t) + 0.1 * i for i in range(N)]
        if rad:
            kk[1] = 0.5
        k.append(kk)
    want = fix([yv[i] + 0.1 * sum(float(b[j]) * k[j][i] for j in range(s)) for i in range(N)])
    if far(ys, want):
        return f"new state {ys}, expected {want}"
    return None


def main():
    from nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary import generate_Butcher_tables

    ck = Check(
        "P12",
        "translation_validation",
        assumptions=["real-number semantics", "right-hand side, boundary conditions, post-RHS step and messages are arbitrary (fresh symbols)", "order of events within one chare as in timestepping.ci; message contents are checked separately"],
        bounds="every non-adaptive Butcher table x {radiation, extrapolation}; 1 grid of 8 points and 2 gridfunctions; one step from arbitrary state, time and dt",
        explanation="the split MoL step is executed symbolically in the order given by the generated timestepping.ci; z3 proves stage inputs, times and new state equal to the Runge-Kutta formula and that every boundary/ghost step reaches every stage input",
    )
    names = [n for n, (t, _) in generate_Butcher_tables().items() if t[-1][0] == ""]
    ck.run([(f"{n}_{'rad' if r else 'extrap'}", case, (n, r)) for n in names for r in (True, False)])
    ck.finish()


if __name__ == "__main__":
    main()
