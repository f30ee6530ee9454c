"""P25: main() runs the simulation's phases in order on every grid, as long as needed, and releases everything."""
from vlib import bhah, cexec, dag
from vlib.core import STATS, Check, Inconclusive, encoded, nrpy_call, report, rmtree, sample
from vlib.dag import C, V

INT, DBL, S, P, T = cexec.INT, cexec.DBL, cexec.S, cexec.P, cexec.T
z3 = dag.z3
MARKS = ["post_non_y_n_auxevol_mallocs", "pre_diagnostics", "pre_MoL_step_forward_in_time", "post_MoL_step_forward_in_time"]
STEPS = 3
SPLIT = "\n/*VERIF_MAIN*/\n"
PRE = "".join(f"void mark_{m}(commondata_struct *commondata, griddata_struct *griddata);\n" for m in MARKS) + """
void commondata_struct_set_to_default(commondata_struct *restrict commondata);
void cmdline_input_and_parfile_parser(commondata_struct *restrict commondata, int argc, const char *argv[]);
void params_struct_set_to_default(commondata_struct *restrict commondata, griddata_struct *restrict griddata);
void numerical_grids_and_timestep(commondata_struct *restrict commondata, griddata_struct *restrict griddata, bool calling_for_first_time);
void initial_data(commondata_struct *restrict commondata, griddata_struct *restrict griddata);
void diagnostics(commondata_struct *restrict commondata, griddata_struct *restrict griddata);
void MoL_step_forward_in_time(commondata_struct *restrict commondata, griddata_struct *restrict griddata);
"""
PHASES = ["commondata_struct_set_to_default", "cmdline_input_and_parfile_parser", "params_struct_set_to_default", "numerical_grids_and_timestep", "initial_data", "diagnostics", "MoL_step_forward_in_time"]


def setup(key, method, rfm, bcs, after, marks):
    import nrpy.c_function as cfc
    import nrpy.grid as gri
    import nrpy.params as par

    par.set_parval_from_str("Infrastructure", "BHaH")
    import nrpy.finite_difference  # noqa
    from nrpy.infrastructures.BHaH import griddata_commondata, main_c, rfm_precompute
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep  # noqa
    from nrpy.infrastructures.BHaH.CurviBoundaryConditions import CurviBoundaryConditions as cbc
    from nrpy.infrastructures.BHaH.MoLtimestepping import MoL

    gri.register_gridfunctions(["uu", "vv"], group="EVOL")
    gri.register_gridfunctions(["aa"], group="AUXEVOL")
    for t, n in (("int", "nn"), ("int", "nn_0"), ("REAL", "time"), ("REAL", "t_0"), ("REAL", "dt"), ("REAL", "t_final")):
        if n not in par.glb_code_params_dict:
            par.register_CodeParameter(t, "verif", n, 1, commondata=True)
    if rfm:
        nrpy_call(key, bhah.quiet, rfm_precompute.register_CFunctions_rfm_precompute, ["Spherical", "SinhCylindrical"])
    else:
        bhah.rfm_typedef()
    if bcs:
        nrpy_call(key, cbc.register_griddata_commondata)
        nrpy_call(key, bhah.quiet, cbc.register_BHaH_defines_h)
    nrpy_call(key, bhah.quiet, MoL.register_CFunctions, MoL_method=method, rhs_string="", post_rhs_string="", enable_rfm_precompute=rfm, enable_curviBCs=False)
    nrpy_call(key, griddata_commondata.register_CFunction_griddata_free, enable_rfm_precompute=rfm, enable_CurviBCs=bcs)
    for n in PHASES:
        if n not in cfc.CFunction_dict:
            cfc.register_CFunction(includes=["BHaH_defines.h"], desc="d", name=n, params=PRE.split(" " + n + "(")[1].split(");")[0], body="  return;\n")
    kw = {m: f"mark_{m}(&commondata, griddata);\n" for m in MARKS} if marks else {}
    nrpy_call(key, main_c.register_CFunction_main_c, method, set_initial_data_after_auxevol_malloc=after, **kw)
    if rfm:
        bhah.wrappers(key)
    unit = bhah.Unit(key=key, header_kw={"enable_rfm_precompute": rfm})
    names = [n for n in cfc.CFunction_dict if n not in PHASES and n != "main" and not n.startswith("rfm_precompute_defines")]
    src = unit.source(names, pre="#include <stdlib.h>\n#include <stdio.h>\n" + PRE, post=SPLIT + cfc.CFunction_dict["main"].full_function)
    err = cexec.syntax_check(src, (), unit.incdirs)
    STATS.obligations += 1
    if err:
        report(key + ":compile", f"{key}: main() does not compile: {[l for l in err.splitlines() if 'error' in l][:2]}", {"gcc": err})
        rmtree(unit.dir)
        return None
    return unit, src


class Bad(Exception):
    pass


class Stop(Exception):
    pass


SIZES = [(2, 3, 2), (3, 1, 4)]
SYS = ["SPHERICAL", "SINHCYLINDRICAL"]


def judge(ev, ngrids, after, marks, steps, over):
    """Order constraints on the recorded events; over: the run returned (otherwise it was cut after the last step)."""
    names = [e[0] for e in ev]
    for a, b in zip(PHASES[:3], PHASES[1:4]):
        if names.count(a) != 1 or names.count(b) != 1 or names.index(a) > names.index(b):
            return f"{a} and {b} are not each called once in this order: {names[:8]}"
    grids = names.index("numerical_grids_and_timestep")
    if names.count("initial_data") != 1:
        return f"initial_data is called {names.count('initial_data')} times"
    idat = names.index("initial_data")
    loop = [n for n in names if n in ("diagnostics", "MoL_step_forward_in_time") or n.startswith("mark_")]
    first = min([i for i, n in enumerate(names) if n in loop] + [len(names) if not over else names.index("griddata_free") if "griddata_free" in names else len(names)])
    for g in range(ngrids):
        for f, lo, hi in (("MoL_malloc_y_n_gfs", grids, idat), ("MoL_malloc_non_y_n_gfs", grids if after else idat, idat if after else first)):
            at = [i for i, e in enumerate(ev) if e[:2] == (f, g)]
            if len(at) != 1 or not lo < at[0] < hi:
                return f"{f} is not called once for grid {g} at its place"
    for f in ("MoL_malloc_y_n_gfs", "MoL_malloc_non_y_n_gfs"):
        if names.count(f) != ngrids:
            return f"{f} is called {names.count(f)} times for {ngrids} grids"
    if idat > first:
        return "the initial data are set after the main loop's first event"
    want = ["mark_post_non_y_n_auxevol_mallocs"] if marks else []
    for _ in range(steps):
        want += ["mark_pre_diagnostics", "diagnostics", "mark_pre_MoL_step_forward_in_time", "MoL_step_forward_in_time", "mark_post_MoL_step_forward_in_time"] if marks else ["diagnostics", "MoL_step_forward_in_time"]
    if not over and loop == want[: len(loop)] and loop.count("MoL_step_forward_in_time") == steps:
        return None
    if loop != want:
        return f"after the set-up main() runs {loop}, expected {want}"
    return None


def execute(ex, ngrids, rfm, bcs, decide):
    """One path of main(). -> events, returned value or None."""
    ev = []
    ex.reset() if hasattr(ex, "reset") else None
    ex.decide = decide
    ex.heap = []
    me = {}
    obj = lambda a: a.obj if isinstance(a, P) else a

    def same(nm, a, gd=True):
        cd = obj(a[0])
        if me.setdefault("cd", cd) is not cd:
            raise Bad(f"{nm} is given another commondata")
        if gd:
            if not (isinstance(a[1], P) and isinstance(a[1].obj, cexec.Arr) and a[1].off is dag.ZERO) or me.setdefault("gd", a[1].obj) is not a[1].obj:
                raise Bad(f"{nm} is not given the grid array")

    def phase(nm):
        def go(e, _n, a):
            same(nm, a, nm not in PHASES[:2])
            cd = me["cd"]
            if nm == PHASES[0]:
                for f in cd.t.fields:
                    o = cd.field(f)
                    if isinstance(o, cexec.Cell) and o.t.k in ("int", "flt"):
                        o.v = S(o.t, V("default." + f))
            elif nm == PHASES[1]:
                if a[1].n is not V("argc") or obj(a[2]) is not me["argv"]:
                    raise Bad("the parameter parser is not given main's arguments")
                cd.field("NUMGRIDS").v = S(INT, C(ngrids))
                cd.field("t_final").v = S(DBL, V("t_final"))
            elif nm == "numerical_grids_and_timestep":
                if not (dag.isc(a[2].n) and a[2].n.a[0] == 1):
                    raise Bad("numerical_grids_and_timestep is not told that this is the first call")
                cd.field("time").v = S(DBL, V("t0"))
                grids(e)
            elif nm == "MoL_step_forward_in_time":
                me["k"] = me.get("k", 0) + 1
                cd.field("time").v = S(DBL, V(f"t{me['k']}"))
            ev.append((nm, None))
            if me.get("k", 0) == STEPS and nm == "MoL_step_forward_in_time":
                raise Stop()

        return go

    def grids(e):
        for g in range(ngrids):
            st = e.elem_obj(me["gd"], C(g))
            pr = st.field("params")
            bhah.symbolic_struct(pr, f"par{g}.")
            for d in range(3):
                pr.field(f"Nxx_plus_2NGHOSTS{d}").v = S(INT, C(SIZES[g % 2][d]))
            # pointers of the not yet allocated arrays are copied (harmlessly: P11 decides where they point later)
            gf = st.field("gridfuncs")
            for f in gf.t.fields:
                if gf.t.fields[f].k == "ptr":
                    gf.field(f).v = P(None, dag.ZERO, gf.t.fields[f])
            if rfm:
                pr.field("CoordSystem_hash").v = S(INT, bhah.hashof(e, {"SPHERICAL": "Spherical", "SINHCYLINDRICAL": "SinhCylindrical"}[SYS[g % 2]]))
                rs = st.field("rfmstruct")
                e.call("rfm_precompute_malloc", [P(me["cd"]), P(pr), P(rs)])
            for d in range(3):
                st.field("xx").conc[d] = cexec.Cell(T("ptr", elem=DBL), cexec.BUILTINS["malloc"](e, "malloc", [S(INT, C(8 * SIZES[g % 2][d]))]), "")
            if bcs:
                bc = st.field("bcstruct")
                for f in bc.t.fields:
                    t = bc.t.fields[f]
                    if t.k == "ptr":
                        bc.field(f).v = cexec.BUILTINS["malloc"](e, "malloc", [S(INT, C(8))])
                    elif t.k == "arr" and t.elem.k == "ptr":
                        a = bc.field(f)
                        for k in range(a.n):
                            a.conc[k] = cexec.Cell(t.elem, cexec.BUILTINS["malloc"](e, "malloc", [S(INT, C(8))]), "")

    def wrapped(nm):
        def go(e, _n, a):
            if nm == "griddata_free":
                same(nm, a)
                ev.append((nm, None))
            elif nm.startswith("MoL_malloc"):
                same(nm, a, False)
                g = next((k for k in range(ngrids) if obj(a[1]) is e.elem_obj(me["gd"], C(k)).field("params") and obj(a[2]) is e.elem_obj(me["gd"], C(k)).field("gridfuncs")), None)
                if g is None:
                    raise Bad(f"{nm} is not given the parameters and arrays of one grid")
                ev.append((nm, g))
            return e.call(nm, a)

        return go

    for n in PHASES:
        ex.stubs[n] = phase(n)
    for m in MARKS:
        ex.stubs["mark_" + m] = lambda e, n, a: ev.append((n, None))
    for n in ("MoL_malloc_y_n_gfs", "MoL_malloc_non_y_n_gfs", "griddata_free"):
        ex.stubs[n] = wrapped(n)
    me["argv"] = cexec.Arr(ex, T("ptr", elem=cexec.CHAR), "argv", 2)
    try:
        r = ex.call("main", [S(INT, V("argc")), P(me["argv"])])
    except Stop:
        return ev, None, [], me.get("k", 0)
    left = [h.name for h in ex.heap if not h.freed]
    return ev, r, left, me.get("k", 0)


def zc(n, vs):
    if n is dag.TRUE:
        return z3.BoolVal(True)
    if n.op == "not":
        return z3.Not(zc(n.a[0], vs))
    if n.op in ("<", "<=", "=="):
        a, b = [vs.setdefault(x.a[0], z3.Real(x.a[0])) if x.op == "v" else z3.RealVal(str(x.a[0])) if x.op == "c" else None for x in n.a]
        if a is not None and b is not None:
            return a < b if n.op == "<" else a <= b if n.op == "<=" else a == b
    raise Inconclusive("condition " + dag.show(n))


def zcheck(cs):
    import time

    s = z3.Solver()
    s.add(cs)
    t = time.time()
    r = s.check()
    STATS.queries += 1
    STATS.solver_s += time.time() - t
    STATS.unsat += r == z3.unsat
    STATS.sat += r == z3.sat
    if r == z3.unknown:
        raise Inconclusive("solver returned unknown")
    return s.model() if r == z3.sat else None


def case(arg):
    method, rfm, bcs, after, marks, ngrids = arg
    key = f"main:{method}:{int(rfm)}{int(bcs)}{int(after)}{int(marks)}:{ngrids}"
    encoded("main", "griddata_free", "MoL_malloc_y_n_gfs", "MoL_malloc_non_y_n_gfs", "MoL_free_memory_y_n_gfs", "MoL_free_memory_non_y_n_gfs", "rfm_precompute_malloc", "rfm_precompute_free")
    st = setup(key, method, rfm, bcs, after, marks)
    if st is None:
        return
    unit, src = st
    try:
        ex = cexec.Exec(src, incdirs=unit.incdirs)
        vs = {}

        def run(decide):
            try:
                return execute(ex, ngrids, rfm, bcs, decide)
            except (Bad, cexec.ExecError) as e:
                return str(e)

        npaths = 0
        for pc, res in cexec.explore(run, lambda c: zcheck([zc(x, vs) for x in c]) is not None, max_paths=64):
            npaths += 1
            conds = [zc(x, vs) for x in pc]
            tf = z3.Real("t_final")
            T_ = [z3.Real(f"t{k}") for k in range(STEPS + 1)]
            STATS.obligations += 4
            extra = []
            if isinstance(res, str):
                bad = res
            else:
                ev, ret, left, steps = res
                over = ret is not None
                bad = judge(ev, ngrids, after, marks, steps, over)
                if not bad and over and left:
                    bad = f"{len(left)} allocations are not released"
                if not bad and over and not (dag.isc(ret.n) and ret.n.a[0] == 0):
                    bad = "main() does not return 0"
                if not bad:
                    # it stepped exactly while time < t_final
                    right = z3.And([T_[k] < tf for k in range(steps)] + ([z3.Not(T_[steps] < tf)] if over else []))
                    if zcheck(conds + [z3.Not(right)]) is not None:
                        bad = f"main() takes {steps} steps{'' if over else ' or more'} for times where it should not"
                        extra = [z3.Not(right)]
            if bad:
                m = zcheck(conds + extra)
                val = lambda v: float(m.eval(v, model_completion=True).as_fraction())
                r = replay(ex, unit, src, rfm, bcs, after, marks, ngrids, [val(t) for t in T_], val(tf))
                if not r:
                    raise Inconclusive(f"{key}: {bad}: the compiled program does not show it")
                report(key, f"{key}: {bad}; compiled, times {[val(t) for t in T_]}, t_final {val(tf)}: {r}", {})
                return
        free_only(key, ex, unit, src, rfm, bcs, ngrids)
        sample({"case": key, "paths": npaths})
    finally:
        rmtree(unit.dir)


def free_only(key, ex, unit, src, rfm, bcs, ngrids):
    """griddata_free(..., false) releases all but the non-y_n arrays and the grid array."""
    me = {}
    keepers = []

    def stop(e, n, a):
        gd = a[1].obj
        for g in range(ngrids):
            gf = e.elem_obj(gd, C(g)).field("gridfuncs")
            for f in gf.t.fields:
                v = gf.field(f).v
                if f != "y_n_gfs" and isinstance(v, P) and v.obj is not None and not f.startswith("diagnostic"):
                    keepers.append(v.obj)
        keepers.append(gd)
        e.stubs.pop("griddata_free")
        e.call("griddata_free", [a[0], a[1], S(cexec.BOOL, C(0))])
        raise Stop()

    def decide(c):
        return False

    old = dict(ex.stubs)
    try:
        me["x"] = 1
        setup_free(ex, ngrids, rfm, bcs, decide, stop)
    except (Bad, cexec.ExecError) as e:
        raise Inconclusive(f"{key}: {e}") from e
    finally:
        ex.stubs = old
    STATS.obligations += len(ex.heap)
    wrong = [h.name for h in ex.heap if h.freed == (h in keepers)]
    if wrong:
        r = replay(ex, unit, src, rfm, bcs, False, False, ngrids, [0.0] * (STEPS + 1), 0.0, partial=len(keepers))
        if not r:
            raise Inconclusive(f"{key}: griddata_free without the flag: {wrong}: the compiled program does not show it")
        report(key + ":partial", f"{key}: griddata_free without the flag releases the wrong arrays ({len(wrong)}); compiled: {r}", {})


def setup_free(ex, ngrids, rfm, bcs, decide, stop):
    hold = {}

    class D(dict):
        def __setitem__(self, k, v):
            super().__setitem__(k, hold.get(k, v))

    hold["griddata_free"] = stop
    ex.stubs = D(ex.stubs)
    execute(ex, ngrids, rfm, bcs, decide)


REPLAY = """
#include <string.h>
#undef malloc
#undef free
static double verif_t[] = {%(times)s};
static int nstep = 0;
#undef MoL_malloc_y_n_gfs
#undef MoL_malloc_non_y_n_gfs
#define CHECK(n) do { if (thecd != commondata) { printf("BAD %%s other commondata\\n", n); } if (!thegd) thegd = griddata; if (thegd != griddata) printf("BAD %%s other griddata\\n", n); printf("%%s\\n", n); } while (0)
void commondata_struct_set_to_default(commondata_struct *restrict commondata) { thecd = commondata; memset(commondata, 0, sizeof(*commondata)); printf("commondata_struct_set_to_default\\n"); }
void cmdline_input_and_parfile_parser(commondata_struct *restrict commondata, int argc, const char *argv[]) { commondata->NUMGRIDS = %(ngrids)d; commondata->t_final = %(tf)s; printf("cmdline_input_and_parfile_parser\\n"); }
void params_struct_set_to_default(commondata_struct *restrict commondata, griddata_struct *restrict griddata) { CHECK("params_struct_set_to_default"); }
void numerical_grids_and_timestep(commondata_struct *restrict commondata, griddata_struct *restrict griddata, bool first) {
  CHECK("numerical_grids_and_timestep");
  if (!first) printf("BAD not the first call\\n");
  commondata->time = verif_t[0];
  for (int g = 0; g < %(ngrids)d; g++) {
    params_struct *p = &griddata[g].params;
    p->Nxx_plus_2NGHOSTS0 = g %% 2 ? 3 : 2; p->Nxx_plus_2NGHOSTS1 = g %% 2 ? 1 : 3; p->Nxx_plus_2NGHOSTS2 = g %% 2 ? 4 : 2;
%(alloc)s
    for (int d = 0; d < 3; d++) griddata[g].xx[d] = verif_malloc(8);
  }
}
void initial_data(commondata_struct *restrict commondata, griddata_struct *restrict griddata) { CHECK("initial_data"); }
void diagnostics(commondata_struct *restrict commondata, griddata_struct *restrict griddata) { CHECK("diagnostics"); }
void MoL_step_forward_in_time(commondata_struct *restrict commondata, griddata_struct *restrict griddata) { CHECK("MoL_step_forward_in_time"); commondata->time = verif_t[++nstep]; if (nstep == %(steps)d) { printf("CUT\\n"); fflush(stdout); _exit(0); } }
%(marks)s
int main(void) {
  const char *av[2] = {"x", 0};
%(body)s
  return 0;
}
"""


def replay(ex, unit, src, rfm, bcs, after, marks, ngrids, times, tf, partial=None):
    pre = """
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <stdbool.h>
static void *blk[10000]; static int nblk = 0, bad = 0;
static void *verif_malloc(size_t n) { void *p = malloc(n + 1); blk[nblk++] = p; return p; }
static void verif_free(void *p) { if (!p) return; for (int i = nblk - 1; i >= 0; i--) if (blk[i] == p) { blk[i] = 0; return; } bad++; }
#define malloc verif_malloc
#define free verif_free
#define main verif_main
"""
    alloc = ""
    if rfm:
        alloc += f"    p->CoordSystem_hash = g % 2 ? {SYS[1]} : {SYS[0]}; rfm_precompute_malloc(commondata, p, &griddata[g].rfmstruct);\n"
    if bcs:
        alloc += "    griddata[g].bcstruct.inner_bc_array = verif_malloc(8); for (int k = 0; k < NGHOSTS * 3; k++) griddata[g].bcstruct.pure_outer_bc_array[k] = verif_malloc(8);\n"
    log = "".join(f'#define {f}(c, p, g) (verif_log("{f}", c, p, g), {f}(c, p, g))\n' for f in ("MoL_malloc_y_n_gfs", "MoL_malloc_non_y_n_gfs"))
    body = '  int rc = verif_main(1, av);\n  int left = 0; for (int i = 0; i < nblk; i++) left += blk[i] != 0;\n  printf("END %d %d %d\\n", rc, left, bad);'
    if partial is not None:
        body = f"""  static commondata_struct cd; thecd = &cd; cd.NUMGRIDS = {ngrids};
  griddata_struct *gd = verif_malloc(sizeof(griddata_struct) * MAXNUMGRIDS); thegd = gd;
  numerical_grids_and_timestep(&cd, gd, true);
  for (int g = 0; g < {ngrids}; g++) {{ MoL_malloc_y_n_gfs(&cd, &gd[g].params, &gd[g].gridfuncs); MoL_malloc_non_y_n_gfs(&cd, &gd[g].params, &gd[g].gridfuncs); }}
  griddata_free(&cd, gd, false);
  int left = 0; for (int i = 0; i < nblk; i++) left += blk[i] != 0;
  printf("PARTIAL %d %d\\n", left, bad);"""
    mk = "".join(f'void mark_{m}(commondata_struct *commondata, griddata_struct *griddata) {{ CHECK("mark_{m}"); }}\n' for m in MARKS)
    # main is renamed and logs the per-grid allocations
    head, tail = src.split(SPLIT)
    tail = "\n".join(x for x in tail.splitlines() if "BHaH_function_prototypes.h" not in x)
    logger = """static commondata_struct *thecd; static griddata_struct *thegd;
static void verif_log(const char *n, const void *c, const void *p, const void *g) {
  const int i = (int)(((const char *)p - (const char *)thegd) / sizeof(griddata_struct));
  if (c != thecd || p != (const void *)&thegd[i].params || g != (const void *)&thegd[i].gridfuncs) printf("BAD %s arguments\\n", n);
  printf("%s %d\\n", n, i);
}
"""
    text = pre + head + "\n" + logger + log + tail
    d = {"times": ", ".join(repr(t) for t in times), "tf": repr(tf), "ngrids": ngrids, "alloc": alloc, "steps": STEPS, "marks": mk, "body": body}
    text += "\n#undef main\n" + REPLAY % d
    r = bhah.crun(unit, text)
    if r is None or "does not compile" in r:
        raise Inconclusive("replay: " + str(r)[:400])
    l = r.splitlines()
    if partial is not None:
        w = [x for x in l if x.startswith("PARTIAL")]
        return None if w == [f"PARTIAL {partial} 0"] else f"{w}, expected {partial} blocks left"
    b = [x for x in l if x.startswith("BAD")]
    if b:
        return b[0]
    if r.startswith("exits with"):
        return r[:150]
    over = l[-1].startswith("END")
    ev = [(x.split()[0], int(x.split()[1]) if " " in x else None) for x in l if not x.startswith(("END", "CUT"))]
    names = [e[0] for e in ev]
    steps = names.count("MoL_step_forward_in_time")
    want = 0
    while want < STEPS and times[want] < tf:
        want += 1
    if steps != want:
        return f"{steps} steps, expected {want}"
    j = judge(ev, ngrids, after, marks, steps, over)
    if j:
        return j
    if over:
        w = l[-1].split()[1:]
        if w != ["0", "0", "0"]:
            return f"status {w[0]}, {w[1]} blocks left, {w[2]} invalid frees"
    return None


def main():
    ck = Check(
        "P25",
        "other",
        assumptions=["the phase functions themselves are other properties' subject; malloc succeeds"],
        bounds=f"every sequence of times and final time, up to {STEPS} steps; one to three grids; methods RK4, Euler and SSPRK3; all set-up options",
        explanation="main() and the allocation and release functions are executed symbolically with symbolic times; z3 decides on each path that the number of steps is the one the times require; the recorded calls, their arguments and the released blocks are judged on every path",
    )
    cases = []
    A = lambda *a: cases.append(("_".join(str(int(x)) if isinstance(x, bool) else str(x) for x in a), case, a))
    A("RK4", True, True, False, True, 2)
    A("RK4", True, True, True, True, 1)
    A("RK4", False, False, False, False, 3)
    A("Euler", False, True, True, False, 2)
    A("SSPRK3", True, False, False, True, 3)
    ck.run(cases, timeout=300)
    ck.finish()


if __name__ == "__main__":
    main()
