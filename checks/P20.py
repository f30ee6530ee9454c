"""P20: checkpoints: write/read round trip, untouched state, when they are written, and crashes or faults at any point."""
from vlib import bhah, cexec, dag, loops, strx
from vlib.core import QUICK, STATS, Check, Inconclusive, encoded, nrpy_call, report, rmtree, sample
from vlib.dag import C, V, add, eq, mul

INT, DBL, S, P = cexec.INT, cexec.DBL, cexec.S, cexec.P
z3 = dag.z3
NEV = 2
BH = "typedef struct { REAL *restrict prev_horizon_m1; REAL *restrict prev_horizon_m2; REAL *restrict prev_horizon_m3; int which; REAL mass; } bhahaha_params_and_data_struct;\n"


class Crash(Exception):
    pass


# ------------------------------------------------------------------ file system model
class Disk:
    """name -> list of records; records of an unfinished file may be on disk only in part."""

    def __init__(self):
        self.files = {}

    def clone(self):
        d = Disk()
        d.files = {k: list(v) for k, v in self.files.items()}
        return d


def name_of(ex, p):
    o = p.obj if isinstance(p, P) else p
    s = getattr(o, "strval", None)
    if s is not None:
        return s
    t = []
    k = 0
    while True:
        c = o.conc[k].n
        if c is C(0):
            break
        t.append(chr(int(c.a[0])))
        k += 1
    return "".join(t)


def attach(ex, disk, decide, crash):
    """crash: None, or the symbolic index of the operation before which the process dies / which fails."""
    st = {"op": 0}

    def step(kind):
        """A file operation that may be the point of a crash; returns False if this one fails."""
        st["op"] += 1
        if crash is None:
            return True
        if decide(eq(V("crash"), C(st["op"]))):
            raise Crash()
        return not decide(eq(V("fault"), C(st["op"])))

    def snprintf(e, _n, a):
        f = name_of(e, a[2])
        d = a[0].obj if isinstance(a[0], P) else a[0]
        args = tuple(name_of(e, x) if isinstance(x, (P, cexec.Arr)) else x.n for x in a[3:])
        if f.endswith("%s") and len(args) == 1 or f.startswith("%s") and "%" not in f[2:] and len(args) == 1:
            d.strval = ("cat", args[0], f.replace("%s", ""), f.startswith("%s"))
        else:
            d.strval = ("fmt", f, tuple(x.id if isinstance(x, dag.N) else x for x in args)) if args else f
        return S(INT, C(1))

    def access(e, _n, a):
        return S(INT, C(0 if name_of(e, a[0]) in disk.files else -1))

    def fopen(e, _n, a):
        nm, mode = name_of(e, a[0]), name_of(e, a[1])
        if mode[0] == "r":
            if nm not in disk.files:
                return P(None)
            o = cexec.Arr(e, cexec.CHAR, "FILE", 1)
            o.name_, o.recs, o.pos, o.mode, o.err = nm, list(disk.files[nm]), 0, "r", False
            return P(o)
        if mode[0] != "w":
            raise Inconclusive(f"fopen mode {mode}")
        if not step("open"):
            return P(None)
        o = cexec.Arr(e, cexec.CHAR, "FILE", 1)
        o.name_, o.recs, o.mode, o.err = nm, [], "w", False
        disk.files[nm] = [("end",)]
        e.open_ = getattr(e, "open_", []) + [o]
        return P(o)

    def items(e, a):
        """(element type name, number of elements)"""
        p = a[0]
        if isinstance(p, cexec.Arr):
            p = P(p)
        total = mul(a[1].n, a[2].n)
        o = p.obj
        t = o.elem if isinstance(o, cexec.Arr) else o.t
        sz = V("sizeof:" + e.sizename(t))
        n = dag.subst(total, {"sizeof:" + e.sizename(t): C(1)})
        if not dag.isc(n) or not dag.Prover()._poly(total, mul(sz, n), "full"):
            raise cexec.ExecError(f"transfer of {dag.show(total)} bytes to or from {e.sizename(t)} data")
        return p, t, int(n.a[0])

    def fwrite(e, _n, a):
        f = a[3].obj
        if f is None or getattr(f, "closed", False):
            raise cexec.ExecError("fwrite to a file that is not open")
        p, t, n = items(e, a)
        ok = step("write")
        if not ok:
            f.err = True
            return S(cexec.LONG, C(0))
        for k in range(n):
            o = p.obj if not isinstance(p.obj, cexec.Arr) else e.elem_obj(p.obj, add(p.off, C(k)))
            f.recs.append((e.sizename(t), grab(e, o)))
        # until it is closed any part of the file may be what is on disk
        disk.files[f.name_] = [("partial", i) + r for i, r in enumerate(f.recs)]
        return S(cexec.LONG, a[2].n)

    def fread(e, _n, a):
        f = a[3].obj
        if f is None or getattr(f, "closed", False):
            raise cexec.ExecError("fread from a file that is not open")
        p, t, n = items(e, a)
        if n and f.pos + n <= len(f.recs) and f.recs[f.pos + n - 1][0] == "partial":
            # complete only if the last byte of the block had reached the disk; nothing of an incomplete block is looked at
            if not decide(dag.lt(C(f.recs[f.pos + n - 1][1]), V("ondisk"))):
                return S(cexec.LONG, C(0))
        for k in range(n):
            if f.pos >= len(f.recs):
                return S(cexec.LONG, C(0))
            r = f.recs[f.pos]
            if r[0] == "end":
                return S(cexec.LONG, C(0))
            if r[0] == "partial":
                r = r[2:]
            if r[0] != e.sizename(t):
                raise cexec.ExecError(f"reads {e.sizename(t)} where {r[0]} was written")
            f.pos += 1
            o = p.obj if not isinstance(p.obj, cexec.Arr) else e.elem_obj(p.obj, add(p.off, C(k)))
            put(e, o, r[1])
        return S(cexec.LONG, a[2].n)

    def fclose(e, _n, a):
        f = a[0].obj
        if f is None or getattr(f, "closed", False):
            raise cexec.ExecError("fclose of a file that is not open")
        ok = step("close") if f.mode == "w" else True
        f.closed = True
        if not ok:
            return S(INT, C(-1))
        if f.mode == "w" and not f.err:
            disk.files[f.name_] = list(f.recs)
        return S(INT, C(0))

    def rename(e, _n, a):
        if not step("rename"):
            return S(INT, C(-1))
        s, d = name_of(e, a[0]), name_of(e, a[1])
        if s not in disk.files:
            return S(INT, C(-1))
        disk.files[d] = disk.files.pop(s)
        return S(INT, C(0))

    def remove(e, _n, a):
        nm = name_of(e, a[0])
        if not step("remove") or nm not in disk.files:
            return S(INT, C(-1))
        del disk.files[nm]
        return S(INT, C(0))

    for k, f in dict(snprintf=snprintf, access=access, fopen=fopen, fwrite=fwrite, fread=fread, fclose=fclose, rename=rename, remove=remove, unlink=remove).items():
        ex.stubs[k] = f
    ex.stubs["ferror"] = lambda e, n, a: S(INT, C(1 if a[0].obj.err else 0))
    for n in ("fprintf", "printf", "perror", "fflush", "fsync", "fileno"):
        ex.stubs[n] = lambda e, n, a: S(INT, C(0))
    ex.stubs["exit"] = lambda e, n, a: (_ for _ in ()).throw(strx.Exit(a[0].n))
    for n in ROUND:
        ex.stubs[n] = lambda e, n, a: S(DBL, dag.fn(n, a[0].n))
    ex.stubs["fabs"] = lambda e, n, a: S(DBL, dag.ite(dag.lt(a[0].n, dag.ZERO), dag.neg(a[0].n), a[0].n))
    ex.globals["stderr"] = cexec.Cell(cexec.T("ptr", elem=cexec.VOID), P(cexec.Arr(ex, cexec.CHAR, "stderr", 1)), "stderr")


def grab(ex, o):
    """Deep value of an object."""
    if isinstance(o, cexec.St):
        return ("st", {f: grab(ex, o.field(f)) for f in o.t.fields})
    if isinstance(o, cexec.Arr):
        return ("ar", [grab(ex, ex.elem_obj(o, C(k))) for k in range(o.n)])
    if isinstance(o, cexec.ElemRef) and o.arr.elem.k == "struct":
        return grab(ex, o.sub())
    try:
        v = ex.read(o)
    except cexec.ExecError:
        return ("junk", None)
    return ("pt", None) if isinstance(v, P) else ("v", v.n) if v is not None else ("junk", None)


def put(ex, o, v):
    if v[0] == "st":
        if isinstance(o, cexec.ElemRef):
            o = o.sub()
        for f, x in v[1].items():
            put(ex, o.field(f), x)
    elif v[0] == "ar":
        for k, x in enumerate(v[1]):
            put(ex, ex.elem_obj(o, C(k)), x)
    elif v[0] == "v":
        t = o.arr.elem if isinstance(o, cexec.ElemRef) else o.t
        if isinstance(o, cexec.Cell):
            o.v = S(t, v[1])
        else:
            ex.write(o, S(t, v[1]))
    elif v[0] == "pt":
        # a pointer of another process
        ex.write(o, P(cexec.Arr(ex, DBL, "stale", 0)))


# ------------------------------------------------------------------ set-up
def setup(key, bah):
    import nrpy.c_function as cfc
    import nrpy.finite_difference  # noqa
    import nrpy.grid as gri
    import nrpy.params as par
    from nrpy.infrastructures.BHaH import checkpointing, griddata_commondata
    from nrpy.infrastructures.BHaH.BHaH_defines_h import register_BHaH_defines
    from nrpy.infrastructures.BHaH.MoLtimestepping import MoL

    par.set_parval_from_str("Infrastructure", "BHaH")
    nrpy_call(key, gri.register_gridfunctions, ["uu", "vv"], group="EVOL")
    nrpy_call(key, gri.register_gridfunctions, ["ww"], group="AUXEVOL")
    for t, n in (("int", "nn"), ("int", "nn_0"), ("REAL", "time"), ("REAL", "t_0"), ("REAL", "dt"), ("REAL", "convergence_factor"), ("REAL[3]", "some_array"), ("int", "NUMGRIDS"), ("char[8]", "label"), ("bool", "flag")):
        if n not in par.glb_code_params_dict:
            par.register_CodeParameter(t, "verif", n, "text" if "char" in t else True if t == "bool" else 1, commondata=True, add_to_set_CodeParameters_h="[" not in t)
    for n in ("Nxx_plus_2NGHOSTS0", "Nxx_plus_2NGHOSTS1", "Nxx_plus_2NGHOSTS2"):
        if n not in par.glb_code_params_dict:
            par.register_CodeParameter("int", "verif", n, 1)
    par.register_CodeParameter("REAL", "verif", "own_parameter", 1.0)
    par.register_CodeParameter("char[6]", "verif", "gridlabel", "g")
    nrpy_call(key, bhah.quiet, MoL.register_CFunctions, MoL_method="RK4", rhs_string="rhs_eval(commondata, params, rfmstruct, RK_INPUT_GFS, RK_OUTPUT_GFS);", post_rhs_string="", enable_rfm_precompute=False, enable_curviBCs=False)
    if bah:
        register_BHaH_defines("after_general", BH)
        par.register_CodeParameter("int", "verif", "bah_num_horizons", 2, commondata=True)
        griddata_commondata.register_griddata_commondata("verif", "bhahaha_params_and_data_struct bhahaha_params_and_data[2]", is_commondata=True)
    nrpy_call(key, bhah.quiet, checkpointing.register_CFunctions, enable_bhahaha=bah)
    unit = bhah.Unit(key=key, header_kw={"enable_rfm_precompute": False})
    names = ["MoL_malloc_y_n_gfs", "MoL_free_memory_y_n_gfs", "read_checkpoint", "write_checkpoint"]
    src = unit.source([n for n in names if n in cfc.CFunction_dict])
    err = cexec.syntax_check(src, ("-fopenmp",), unit.incdirs)
    STATS.obligations += 1
    if err:
        report(key + ":compile", f"{key}: checkpointing code does not compile: {[l for l in err.splitlines() if 'error' in l][:2]}", {"gcc": err})
        return None
    return unit, src


def fillstruct(ex, st, tag):
    for f in st.t.fields:
        o = st.field(f)
        if isinstance(o, cexec.Arr) and o.elem.k in ("int", "flt"):
            for k in range(o.n):
                o.conc[k] = S(o.elem, V(f"{tag}{f}[{k}]"))
        elif isinstance(o, cexec.Cell) and o.t.k in ("int", "flt"):
            o.v = S(o.t, V(f"{tag}{f}"))


def world(ex, tag, grids, bah, running, ngr=2, conv=None):
    """commondata and griddata of a process; a running one has its gridfunctions allocated and set."""
    cd = ex.newobj(ex.typedefs["commondata_struct"], "cd")
    fillstruct(ex, cd, tag + "c:")
    gd = cexec.Arr(ex, ex.typedefs["griddata_struct"], "gd", ngr)
    cd.field("NUMGRIDS").v = S(INT, C(len(grids)) if running else C(1))
    cd.field("convergence_factor").v = S(DBL, conv or V("conv"))
    if bah:
        cd.field("bah_num_horizons").v = S(INT, C(2 if running else 1))
        for h in range(2):
            b = ex.elem_obj(cd.field("bhahaha_params_and_data"), C(h))
            b = b.sub() if isinstance(b, cexec.ElemRef) else b
            fillstruct(ex, b, f"{tag}h{h}:")
            for m in ("m1", "m2", "m3"):
                a = cexec.Arr(ex, DBL, f"prev{h}{m}", 64 * 32)
                if running:
                    for k in range(64 * 32):
                        a.conc[k] = S(DBL, V(f"{tag}h{h}{m}_{k}"))
                b.field("prev_horizon_" + m).v = P(a if running else None)
    for g in range(ngr):
        st = ex.newobj(ex.typedefs["griddata_struct"], f"gd{g}")
        gd.conc[g] = st
        fillstruct(ex, st.field("params"), f"{tag}p{g}:")
        if running and g < len(grids):
            n = grids[g]
            for d in range(3):
                st.field("params").field(f"Nxx_plus_2NGHOSTS{d}").v = S(INT, C(n[d]))
            tot = n[0] * n[1] * n[2]
            gf = st.field("gridfuncs")
            for f in gf.t.fields:
                a = cexec.Arr(ex, DBL, f, NEV * tot)
                for k in range(NEV * tot):
                    a.conc[k] = S(DBL, V(f"{tag}{f}{g}_{k}"))
                gf.field(f).v = P(a)
            ex.call("MoL_malloc_y_n_gfs", [P(cd), P(st.field("params")), P(gf)])
            y = gf.field("y_n_gfs").v.obj
            for k in range(NEV * tot):
                y.conc[k] = S(DBL, V(f"{tag}y{g}_{k}"))
        else:
            for f in st.field("gridfuncs").t.fields:
                st.field("gridfuncs").field(f).v = P(None)
    return cd, gd


def state(ex, cd, gd, grids, bah):
    """Everything a restart has to restore."""
    out = {}
    c = grab(ex, cd)[1]
    for f, v in c.items():
        if f != "bhahaha_params_and_data":
            out["commondata." + f] = v
    if bah:
        for h in range(2):
            b = ex.elem_obj(cd.field("bhahaha_params_and_data"), C(h))
            b = b.sub() if isinstance(b, cexec.ElemRef) else b
            for f in ("which", "mass"):
                out[f"horizon{h}.{f}"] = grab(ex, b.field(f))
            for m in ("m1", "m2", "m3"):
                a = b.field("prev_horizon_" + m).v
                ok = isinstance(a, P) and isinstance(a.obj, cexec.Arr)
                out[f"horizon{h}.prev_{m}"] = tuple(grab(ex, ex.elem_obj(a.obj, add(a.off, C(k)))) for k in range(64 * 32)) if ok else None
    for g, n in enumerate(grids):
        st = gd.conc[g]
        for f, v in grab(ex, st.field("params"))[1].items():
            out[f"params[{g}].{f}"] = v
        a = st.field("gridfuncs").field("y_n_gfs").v
        ok = isinstance(a, P) and isinstance(a.obj, cexec.Arr) and not a.obj.freed
        out[f"y_n_gfs[{g}]"] = tuple(grab(ex, ex.elem_obj(a.obj, add(a.off, C(k)))) for k in range(NEV * n[0] * n[1] * n[2])) if ok else None
    return out


def differ(a, b, skip=()):
    """First difference; the values are compared by the solver only if they are not the same term."""
    for k in b:
        if k in skip:
            continue
        STATS.obligations += 1
        if a.get(k) != b[k]:
            return k, a.get(k), b[k]
    return None


# ------------------------------------------------------------------ scenarios
def case(arg):
    kind, grids, bah = arg
    key = f"checkpoint:{kind}:{'+'.join('x'.join(map(str, n)) for n in grids)}{':bah' if bah else ''}"
    encoded("write_checkpoint", "read_checkpoint", "MoL_malloc_y_n_gfs", "MoL_free_memory_y_n_gfs")
    st = setup(key, bah)
    if st is None:
        return
    unit, src = st
    try:
        bad = {"roundtrip": roundtrip, "crash": crashes, "when": when}[kind](src, unit, grids, bah)
        sample({"case": key})
        if bad:
            r = replay(unit, src, grids, bah)
            if not r:
                raise Inconclusive(f"{key}: {bad} (compiled code agrees)")
            report(key, f"{key}: {bad}; compiled: {r}")
    finally:
        rmtree(unit.dir)


def always(c):
    """Decisions of a run in which the checkpoint is due and nothing goes wrong."""
    return True


def mk(src, unit, disk, decide, crash=None):
    ex = cexec.Exec(src, ("F_OK=0", "R_OK=4"), unit.incdirs)
    ex.decide = decide
    attach(ex, disk, decide, crash)
    return ex


def roundtrip(src, unit, grids, bah):
    disk = Disk()
    ex = mk(src, unit, disk, always)
    try:
        cd, gd = world(ex, "w:", grids, bah, True)
        before = state(ex, cd, gd, grids, bah)
        keep = {}
        for g in range(len(grids)):
            gf = gd.conc[g].field("gridfuncs")
            for f in gf.t.fields:
                if f != "y_n_gfs" and gf.field(f).v.obj is not gf.field("diagnostic_output_gfs").v.obj:
                    keep[(g, f)] = grab(ex, gf.field(f).v.obj)
        live = [a for a in ex.heap if not a.freed]
        ex.call("write_checkpoint", [P(cd), P(gd)])
        d = differ(state(ex, cd, gd, grids, bah), before)
        if d:
            return f"write_checkpoint changes {d[0]}"
        for (g, f), v in keep.items():
            STATS.obligations += 1
            if grab(ex, gd.conc[g].field("gridfuncs").field(f).v.obj) != v:
                return f"write_checkpoint changes {f} of grid {g}"
        now = [a for a in ex.heap if not a.freed]
        if len(now) != len(live):
            return f"write_checkpoint leaves {len(now)} allocations, there were {len(live)}"
        if len(disk.files) != 1:
            return f"{len(disk.files)} files after writing a checkpoint"
    except cexec.ExecError as e:
        return f"write_checkpoint: {e}"
    ex = mk(src, unit, disk, always)
    try:
        # a file of another name must not be read
        cd, gd = world(ex, "o:", grids, bah, False, conv=V("other_conv"))
        b0 = state(ex, cd, gd, [], bah)
        r = ex.call("read_checkpoint", [P(cd), P(gd)])
        if r.n is not C(0) or differ(state(ex, cd, gd, [], bah), b0):
            return "without a checkpoint of this name read_checkpoint returns nonzero or changes the state"
        ex = mk(src, unit, disk, always)
        cd, gd = world(ex, "r:", grids, bah, False)
        r = ex.call("read_checkpoint", [P(cd), P(gd)])
        if r.n is C(0):
            return "read_checkpoint reports no checkpoint"
        want = dict(before)
        want["commondata.t_0"] = want["commondata.time"]
        want["commondata.nn_0"] = want["commondata.nn"]
        d = differ(state(ex, cd, gd, grids, bah), want)
        if d:
            return f"{d[0]} is not restored"
        used = {id(gd.conc[g].field("gridfuncs").field("y_n_gfs").v.obj) for g in range(len(grids))}
        extra = [a for a in ex.heap if not a.freed and id(a) not in used]
        if len(extra) != (6 if bah else 0):
            return f"read_checkpoint leaks {len(extra)} allocations"
    except cexec.ExecError as e:
        return f"read_checkpoint: {e}"
    except strx.Exit:
        return "read_checkpoint gives up on a complete checkpoint"
    return None


def crashes(src, unit, grids, bah):
    """A crash or failure at any file operation of a later write leaves the earlier or the new checkpoint."""
    base = Disk()
    ex = mk(src, unit, base, always)
    try:
        cd, gd = world(ex, "old:", grids, bah, True)
        old = state(ex, cd, gd, grids, bah)
        ex.call("write_checkpoint", [P(cd), P(gd)])
    except cexec.ExecError as e:
        return str(e)
    dom = {"crash": (0, 200), "fault": (0, 200), "ondisk": (0, 10**6)}
    for first in (False, True):
        fe = strx.Feasible(lambda n: dom.get(n, (None, None)))

        def run(decide, first=first):
            disk = Disk() if first else base.clone()
            dec = lambda c: decide(c) if set(dag.variables([c])) <= set(dom) else True
            ex = mk(src, unit, disk, dec, crash=True)
            try:
                cd, gd = world(ex, "new:", grids, bah, True)
                new = state(ex, cd, gd, grids, bah)
                try:
                    ex.call("write_checkpoint", [P(cd), P(gd)])
                    ended = "returned"
                    d = differ(state(ex, cd, gd, grids, bah), new)
                    if d:
                        return f"a failed write changes {d[0]}"
                    left = [f for f in getattr(ex, "open_", []) if not getattr(f, "closed", False)]
                    if left:
                        return "the checkpoint file is not closed"
                except Crash:
                    ended = "crashed"
                except strx.Exit:
                    ended = "exited"
                ex = mk(src, unit, disk, dec)
                cd, gd = world(ex, "r:", grids, bah, False)
                b0 = state(ex, cd, gd, [], bah)
                try:
                    r = ex.call("read_checkpoint", [P(cd), P(gd)])
                except strx.Exit:
                    return None if first else f"after a write that {ended} the checkpoint is rejected, although an earlier one had been complete"
                if r.n is C(0):
                    if differ(state(ex, cd, gd, [], bah), b0):
                        return "read_checkpoint returns 0 but changes the state"
                    return None if first else f"after a write that {ended} no checkpoint is found, although an earlier one had been complete"
                got = state(ex, cd, gd, grids, bah)
                for w in [new] + ([] if first else [old]):
                    w = dict(w)
                    w["commondata.t_0"], w["commondata.nn_0"] = w["commondata.time"], w["commondata.nn"]
                    if not differ(got, w):
                        return None
                return f"after a write that {ended} a state is restored that is neither the earlier nor the new one"
            except cexec.ExecError as e:
                return str(e)

        n = 0
        for _pc, r in cexec.explore(run, fe, max_paths=3000):
            n += 1
            STATS.obligations += 1
            if r:
                return r
        sample({"crash points and faults explored as paths": n, "first checkpoint": first})
    return None


H = z3.RealVal("1/2")
ROUND = {
    "round": lambda x, q: [z3.If(x >= 0, z3.And(q <= x + H, x + H < q + 1), z3.And(q - 1 < x - H, x - H <= q))],
    "rint": lambda x, q: [q - x <= H, x - q <= H],
    "nearbyint": lambda x, q: [q - x <= H, x - q <= H],
    "floor": lambda x, q: [q <= x, x < q + 1],
    "ceil": lambda x, q: [q - 1 < x, x <= q],
    "trunc": lambda x, q: [z3.If(x >= 0, z3.And(q <= x, x < q + 1), z3.And(q - 1 < x, x <= q))],
}


def when(src, unit, grids, bah):
    """Written exactly when the time is within half a step of a multiple of checkpoint_every."""
    u, d, e = V("u"), V("d"), V("e")

    def run(decide):
        disk = Disk()
        ex = mk(src, unit, disk, decide)
        try:
            cd, gd = world(ex, "w:", grids, bah, True)
            cd.field("time").v = S(DBL, mul(u, e))
            cd.field("dt").v = S(DBL, mul(d, e))
            cd.field("checkpoint_every").v = S(DBL, e)
            ex.call("write_checkpoint", [P(cd), P(gd)])
        except cexec.ExecError as x:
            return str(x)
        return bool(disk.files)

    cond = dag.FALSE
    for pc, w in cexec.explore(run, lambda c: True, max_paths=40):
        if isinstance(w, str):
            return w
        if w:
            t = dag.TRUE
            for c in pc:
                t = dag.and_(t, c)
            cond = dag.or_(cond, t)
    # u and d are time and step in units of the interval e: scale e out where the condition is homogeneous in it
    if degree(cond, e, {}) == 0:
        cond = dag.subst(cond, {"e": C(1)})
    pr = dag.Prover()
    zc = pr.z([cond])[0]
    zu, zd, ze = (pr.z([x])[0] for x in (u, d, e))
    near, k = z3.Ints("near k")
    ax = [ze > 0, zd > 0, z3.ToReal(near) - zu <= z3.RealVal("1/2"), zu - z3.ToReal(near) <= z3.RealVal("1/2")]
    zr = z3.ToReal(near)
    for i, t in enumerate(subterms(cond)):
        if t.op != "fn" or t.a[0] not in ROUND:
            continue
        ar = t.a[1][0] if isinstance(t.a[1], (tuple, list)) else t.a[1]
        q = near + z3.Int(f"q{i}")
        za, zq = pr.z([ar])[0], z3.ToReal(q)
        ax.append(pr.z([t])[0] == zq)
        ax += ROUND[t.a[0]](za, zq)
    ab = lambda x: z3.If(x < 0, -x, x)
    p = z3.Real("p")
    for txt, f in (
        ("written although no multiple of checkpoint_every lies within half a step", [zc, z3.Not(ab(zr - zu) < zd / 2)]),
        ("not written although a multiple of checkpoint_every lies within half a step", [z3.Not(zc), ab(z3.ToReal(near + k) - zu) < zd / 2]),
    ):
        STATS.obligations += 1
        shift = [(zu, z3.ToReal(near) + z3.Real("f"))]
        res, m = pr._check([z3.simplify(z3.substitute(x, shift)) for x in ax + f])
        if res == z3.sat:
            return f"{txt}: {m}"[:200]
        if res != z3.unsat:
            raise Inconclusive("checkpoint condition undecided")
    return None


def degree(n, e, memo):
    """Degree in e if n is homogeneous in e (0 for a condition invariant under scaling); None if it is not, "any" for zero."""
    if n.id in memo:
        return memo[n.id]
    kids = [x for x in n.a if isinstance(x, dag.N)]
    for y in n.a:
        if isinstance(y, (tuple, list)):
            kids += [z for z in y if isinstance(z, dag.N)]
    ds = [degree(x, e, memo) for x in kids]
    if n is e:
        r = 1
    elif n is dag.ZERO:
        r = "any"
    elif not kids:
        r = 0
    elif None in ds:
        r = None
    elif n.op == "*":
        r = "any" if "any" in ds else sum(ds)
    elif n.op == "inv":
        r = None if ds[0] == "any" else -ds[0]
    elif n.op == "pow":
        r = ds[0] if ds[0] == "any" else ds[0] * n.a[1]
    else:
        body = ds[1:] if n.op == "ite" else ds
        real = {x for x in body if x != "any"}
        same = len(real) <= 1 and (n.op != "ite" or ds[0] == 0)
        top = real.pop() if real else "any"
        if not same:
            r = None
        elif n.op in ("+", "ite"):
            r = top
        elif n.op in ("<", "<=", "=="):
            r = 0
        else:
            r = 0 if top in (0, "any") else None
    memo[n.id] = r
    return r


def subterms(n):
    seen, st = {}, [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        for y in x.a:
            if isinstance(y, dag.N):
                st.append(y)
            elif isinstance(y, (tuple, list)):
                st += [z for z in y if isinstance(z, dag.N)]
    return list(seen.values())


# ------------------------------------------------------------------ compiled
def replay(unit, src, grids, bah):
    """Byte-level: round trip, truncation at every operation, and the schedule."""
    ng = len(grids)
    t = cexec.Exec(src, (), unit.incdirs).typedefs
    m = """
#include <unistd.h>
#include <sys/wait.h>
static int op, crash_at = -1;
static size_t v_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (++op == crash_at) { fwrite(p, 1, s * n / 2, f); fflush(f); _exit(9); } return fwrite(p, s, n, f); }
static FILE *v_fopen(const char *n, const char *m) { if (m[0] == 'w' && ++op == crash_at) _exit(9); return fopen(n, m); }
static int v_fclose(FILE *f) { if (++op == crash_at) { fflush(f); _exit(9); } return fclose(f); }
static int v_rename(const char *a, const char *b) { if (++op == crash_at) _exit(9); return rename(a, b); }
#define fwrite v_fwrite
#define fopen v_fopen
#define fclose v_fclose
#define rename v_rename
"""
    src = src.replace('#include "BHaH_function_prototypes.h"', '#include "BHaH_function_prototypes.h"\n' + m, 1)
    bools = " ".join(f"cd.{f} = 1;" for f, x in t["commondata_struct"].fields.items() if isbool(x))
    pbools = " ".join(f"gd[g].params.{f} = 1;" for f, x in t["params_struct"].fields.items() if isbool(x))
    scratch = pbools + " ".join(f"gd[g].gridfuncs.{f} = malloc(sizeof(double) * tot * NUM_EVOL_GFS);" for f in t["griddata_struct"].fields["gridfuncs"].fields if f != "y_n_gfs")
    dims = ", ".join("{" + ", ".join(map(str, n)) + "}" for n in grids)
    t = f"""
static const int dims[][3] = {{{dims}}};
static commondata_struct cd; static griddata_struct gd[2];
static double val(int s, int g, int k) {{ return s * 1000.0 + g * 100 + k; }}
static void init(int s) {{
  memset(&cd, s, sizeof cd); memset(gd, 0, sizeof gd); cd.NUMGRIDS = {ng}; cd.convergence_factor = 1.0; cd.time = 4.0; cd.dt = 0.5; cd.checkpoint_every = 2.0; cd.nn = 70 + s; {bools} strcpy(cd.label, "abc");
  {"cd.bah_num_horizons = 2; for (int h = 0; h < 2; h++) { double **q[3] = {(double**)&cd.bhahaha_params_and_data[h].prev_horizon_m1, (double**)&cd.bhahaha_params_and_data[h].prev_horizon_m2, (double**)&cd.bhahaha_params_and_data[h].prev_horizon_m3}; for (int j = 0; j < 3; j++) { *q[j] = malloc(sizeof(double) * 64 * 32); for (int k = 0; k < 64 * 32; k++) (*q[j])[k] = val(s, h * 3 + j, k); } }" if bah else ""}
  for (int g = 0; g < {ng}; g++) {{
    memset(&gd[g].params, s + g, sizeof(params_struct)); gd[g].params.Nxx_plus_2NGHOSTS0 = dims[g][0]; gd[g].params.Nxx_plus_2NGHOSTS1 = dims[g][1]; gd[g].params.Nxx_plus_2NGHOSTS2 = dims[g][2];
    int tot = dims[g][0] * dims[g][1] * dims[g][2];
    {scratch}
    MoL_malloc_y_n_gfs(&cd, &gd[g].params, &gd[g].gridfuncs);
    for (int k = 0; k < tot * NUM_EVOL_GFS; k++) gd[g].gridfuncs.y_n_gfs[k] = val(s, g, k);
  }}
}}
/* 0 equal, otherwise where */
static int check(int s, int restored) {{
  static commondata_struct c2; static griddata_struct g2[2]; c2 = cd; memcpy(g2, gd, sizeof gd);
  init(s);
  if (restored) {{ cd.t_0 = cd.time; cd.nn_0 = cd.nn; }}
  if (c2.time != cd.time || c2.nn != cd.nn || c2.t_0 != cd.t_0 || c2.nn_0 != cd.nn_0 || c2.NUMGRIDS != cd.NUMGRIDS || memcmp(c2.some_array, cd.some_array, sizeof cd.some_array) || memcmp(c2.label, cd.label, 8) || c2.dt != cd.dt || c2.convergence_factor != cd.convergence_factor || c2.checkpoint_every != cd.checkpoint_every) return 1;
  {"for (int h = 0; h < 2; h++) { double *q[3] = {c2.bhahaha_params_and_data[h].prev_horizon_m1, c2.bhahaha_params_and_data[h].prev_horizon_m2, c2.bhahaha_params_and_data[h].prev_horizon_m3}; for (int j = 0; j < 3; j++) for (int k = 0; k < 64 * 32; k++) if (q[j][k] != val(s, h * 3 + j, k)) return 4; }" if bah else ""}
  for (int g = 0; g < {ng}; g++) {{
    if (memcmp(&g2[g].params, &gd[g].params, sizeof(params_struct))) return 2;
    int tot = dims[g][0] * dims[g][1] * dims[g][2];
    for (int k = 0; k < tot * NUM_EVOL_GFS; k++) if (g2[g].gridfuncs.y_n_gfs[k] != val(s, g, k)) return 3;
  }}
  return 0;
}}
static void zero(void) {{ memset(&cd, 7, sizeof cd); memset(gd, 0, sizeof gd); {bools} cd.convergence_factor = 1.0; }}
static void fail(const char *s, int k) {{ printf("%s (%d)", s, k); fflush(stdout); _exit(0); }}
static void clean(void) {{ if (system("rm -f ./checkpoint*")) fail("cannot clean", 0); }}
int main() {{
  clean(); init(3); write_checkpoint(&cd, gd);
  int r = check(3, 0); if (r) fail("the write changes the state", r);
  zero(); r = read_checkpoint(&cd, gd); if (!r) fail("no checkpoint found", 0);
  r = check(3, 1); if (r) fail("state not restored", r);
  zero(); cd.convergence_factor = 2.5; if (read_checkpoint(&cd, gd)) fail("read a checkpoint of another name", 0);
  for (int k = 1; k < 200; k++) {{
    clean(); init(3); write_checkpoint(&cd, gd);
    pid_t p = fork(); if (!p) {{ init(5); op = 0; crash_at = k; write_checkpoint(&cd, gd); _exit(0); }}
    int st; waitpid(p, &st, 0);
    p = fork(); if (!p) {{ zero(); int q = read_checkpoint(&cd, gd); if (!q) _exit(50); commondata_struct c3 = cd; griddata_struct g3[2]; memcpy(g3, gd, sizeof gd); int a = check(3, 1); cd = c3; memcpy(gd, g3, sizeof gd); int b = check(5, 1); _exit(a && b ? 51 : 0); }}
    int s2; waitpid(p, &s2, 0); if (s2) fail("after a crash the checkpoint cannot be restored, crash point", k);
    if (WEXITSTATUS(st) != 9) break;
  }}
  double ts[] = {{0, 0.2, 0.24, 0.26, 1, 1.7, 1.76, 2, 2.24, 2.26, 3, 5.9, -1.9, 100.1}};
  for (int i = 0; i < 14; i++) {{
    clean(); init(3); cd.time = ts[i]; write_checkpoint(&cd, gd); int w = access("checkpoint-conv_factor1.00.dat", F_OK) == 0;
    double q = ts[i] / 2; q = q - floor(q); if (q > 0.5) q = 1 - q;
    if (w != (2 * q < 0.25)) fail("schedule is wrong at sample time", i);
  }}
  clean(); return 0;
}}
"""
    return bhah.crun(unit, src + t, ("-O0",), asan=True)


def isbool(t):
    return t.k == "int" and "bool" in (t.name or "").lower()


def main():
    ck = Check(
        "P20",
        "other",
        assumptions=["rename replaces a file atomically; a file that was closed without error is complete on disk; an unfinished one may hold any prefix", "stdio and POSIX calls behave as documented"],
        bounds="one and two grids of a few points with two evolved gridfunctions, with and without horizon data; all values symbolic; a crash or failure at every file operation of the write; all times, steps and intervals",
        explanation="The generated write and read functions are executed symbolically over a file-system model; crash point, failing operation and the amount of data on disk are symbolic and z3 decides which paths are feasible; the restored state must be the written one, term by term",
    )
    g1, g2 = ((3, 2, 2),), ((2, 3, 2), (4, 2, 1))
    cases = []
    for kind in ("roundtrip", "crash", "when"):
        for bah in (False, True):
            for g in (g1, g2):
                if (kind == "when" and (bah or g is g2)) or (QUICK and bah and kind == "crash"):
                    continue
                cases.append((f"{kind}_{len(g)}_{int(bah)}", case, (kind, g, bah)))
    ck.run(cases, timeout=600)
    ck.finish()


if __name__ == "__main__":
    main()
