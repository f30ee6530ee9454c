"""P22: diagnostic slices output exactly the interior grid points nearest to the centre, axis or plane; the progress line's schedule."""
import re

from vlib import bhah, cexec, dag
from vlib.core import QUICK, STATS, Check, Inconclusive, encoded, nrpy_call, report, rmtree, sample
from vlib.dag import C, Fraction, V

INT, DBL, S, P, T = cexec.INT, cexec.DBL, cexec.S, cexec.P, cexec.T
z3 = dag.z3
R3 = range(3)
# bits of index arithmetic: enough for 3 gridfunctions of (NMAX + 6)^3 points
NMAX, W = (10, 15) if QUICK else (14, 17)
H, Q1, Q3, LO, HI, ALL, ANY = Fraction(1, 2), Fraction(1, 4), Fraction(3, 4), Fraction(0), Fraction(1), "all", "any"
SPH = ("Spherical", "SinhSpherical", "SinhSphericalv2n2", "HoleySinhSpherical", "RingHoleySinhSpherical")
CYL = ("Cylindrical", "SinhCylindrical", "SinhCylindricalv2n2")
CART = ("Cartesian", "SinhCartesian")
TP = ("SymTP", "SinhSymTP")
WEDGE = ("LWedgeHSinhSph", "UWedgeHSinhSph")
# the slice in each coordinate direction: positions as fractions of the coordinate range, every point, or any one point
SLICES = {
    "center": {CART: [[H], [H], [H]], SPH: [[LO], ANY, ANY], CYL: [[LO], ANY, [H]], TP: [[LO], [H], ANY]},
    "y": {CART: [[H], ALL, [H]], SPH: [ALL, [H], [Q1, Q3]], CYL: [ALL, [Q1, Q3], [H]], TP: [ALL, [H], [Q1, Q3]], WEDGE: None},
    "z": {CART: [[H], [H], ALL], SPH: [ALL, [LO, HI], ANY], CYL: [[LO], ANY, ALL], TP: [ALL, [LO, HI], ANY], WEDGE: [ALL, [H], [H]]},
    "xy": {CART: [ALL, ALL, [H]], CYL: [ALL, ALL, [H]], SPH: [ALL, [H], ALL], TP: [ALL, [H], ALL], WEDGE: [ALL, ALL, [Q1, Q3]]},
    "yz": {CART: [[H], ALL, ALL], CYL: [ALL, [Q1, Q3], ALL], SPH: [ALL, ALL, [Q1, Q3]], TP: [ALL, ALL, [Q1, Q3]], WEDGE: [ALL, [H], ALL]},
}
COLS = {"center": [], "y": [1], "z": [2], "xy": [0, 1], "yz": [1, 2]}
OUT = {("REAL", "vval"): "y_n_gfs[IDX4pt(VVGF, idx3)]", ("int", "pt"): "idx3", ("REAL", "dval"): "diagnostic_output_gfs[IDX4pt(UUGF, idx3)]", ("REAL", "aval"): "auxevol_gfs[IDX4pt(AAGF, idx3)]"}
KIND = {"center": "grid_center", "y": "1d_y_axis", "z": "1d_z_axis", "xy": "2d_xy_plane", "yz": "2d_yz_plane"}


def spec(cs, sl):
    if cs == "RingHoleySinhSpherical" and sl == "z":
        return None
    for fam, v in SLICES[sl].items():
        if cs in fam:
            return v
    raise KeyError(cs)


def setup(key, cs, sl, NG):
    import nrpy.c_function as cfc
    import nrpy.grid as gri
    import nrpy.params as par

    par.set_parval_from_str("Infrastructure", "BHaH")
    import nrpy.finite_difference  # noqa
    from nrpy.infrastructures.BHaH import CodeParameters, numerical_grids_and_timestep as ng, xx_tofrom_Cart
    from nrpy.infrastructures.BHaH.diagnostics import output_0d_1d_2d_nearest_gridpoint_slices as sli
    from nrpy.infrastructures.BHaH.MoLtimestepping import MoL

    par.set_parval_from_str("fd_order", 2 * NG)
    gri.register_gridfunctions(["uu", "vv"], group="EVOL")
    gri.register_gridfunctions(["ab", "aa"], group="AUXEVOL")
    for t, n in (("int", "nn"), ("int", "nn_0"), ("REAL", "time"), ("REAL", "t_0"), ("REAL", "dt"), ("REAL", "t_final"), ("REAL", "CFL_FACTOR")):
        if n not in par.glb_code_params_dict:
            par.register_CodeParameter(t, "verif", n, 1, commondata=True)
    bhah.rfm_typedef()
    nrpy_call(key, bhah.quiet, ng.register_CFunctions, list_of_CoordSystems=[cs], list_of_grid_physical_sizes=[10.0], Nxx_dict={cs: [4, 4, 4]})
    nrpy_call(key, bhah.quiet, MoL.register_CFunctions, MoL_method="RK4", rhs_string="", post_rhs_string="", enable_rfm_precompute=False, enable_curviBCs=False)
    nrpy_call(key, bhah.quiet, xx_tofrom_Cart.register_CFunction_xx_to_Cart, CoordSystem=cs)
    fmt = ("out-%s-cf%.2f-t%08.2f.txt", "CoordSystemName, convergence_factor, time")
    if sl == "center":
        nrpy_call(key, bhah.quiet, sli.register_CFunction_diagnostics_nearest_grid_center, CoordSystem=cs, out_quantities_dict=dict(OUT), filename_tuple=fmt)
    elif sl in ("y", "z"):
        nrpy_call(key, bhah.quiet, sli.register_CFunction_diagnostics_nearest_1d_axis, CoordSystem=cs, out_quantities_dict=dict(OUT), axis=sl, filename_tuple=("AXIS" + fmt[0], fmt[1]))
    else:
        nrpy_call(key, bhah.quiet, sli.register_CFunction_diagnostics_nearest_2d_plane, CoordSystem=cs, out_quantities_dict=dict(OUT), plane=sl, filename_tuple=("PLANE" + fmt[0], fmt[1]))
    nrpy_call(key, bhah.quiet, CodeParameters.register_CFunctions_params_commondata_struct_set_to_default)
    bhah.wrappers(key)
    unit = bhah.Unit(key=key)
    names = list(cfc.CFunction_dict)
    src = unit.source(names, pre="#include <stdlib.h>\n#include <stdio.h>\n", post="\nint verif_NGHOSTS(void) { return NGHOSTS; }\nint verif_gf(int k) { switch (k) { case 0: return UUGF; case 1: return VVGF; case 2: return AAGF; } return -1; }\n")
    err = cexec.syntax_check(src, (), unit.incdirs)
    STATS.obligations += 1
    if err:
        report(key + ":compile", f"{key}: generated code does not compile: {[l for l in err.splitlines() if 'error' in l][:2]}", {"gcc": err})
        rmtree(unit.dir)
        return None
    return unit, src, f"diagnostics_nearest_{KIND[sl]}", ("" if sl == "center" else sl) + fmt[0]


# ------------------------------------------------------------------ solver terms
class Enc:
    """dag -> z3: index arithmetic as bit vectors (exact within the bounds), coordinates as reals."""

    def __init__(self):
        self.vs = {}
        self.memo = {}
        self.proved = {}

    def var(self, nm, real):
        return self.vs.setdefault((nm, real), z3.Real(nm) if real else z3.BitVec(nm, W))

    @staticmethod
    def is_real(n):
        return any(v.startswith("X") for v in dag.variables([n]))

    def term(self, n, real):
        """-> (numerator, denominator)"""
        k = (n.id, real)
        if k not in self.memo:
            self.memo[k] = self._term(n, real)
        return self.memo[k]

    def _term(self, n, real):
        c = lambda x: z3.RealVal(str(x)) if real else z3.BitVecVal(int(x), W)
        o = n.op
        if o == "c":
            q = Fraction(n.a[0])
            return c(q.numerator), q.denominator
        if o == "v":
            return self.var(n.a[0], real), 1
        if o in ("+", "*"):
            (a, p), (b, q) = self.term(n.a[0], real), self.term(n.a[1], real)
            if o == "*":
                return a * b, p * q
            return a * c(q) + b * c(p), p * q
        if o == "ite":
            (a, p), (b, q) = self.term(n.a[1], real), self.term(n.a[2], real)
            return z3.If(self.boolean(n.a[0]), a * c(q), b * c(p)), p * q
        if not real and (o == "idiv" or o == "fn" and n.a[0] in ("trunc", "floor")):
            if o == "idiv":
                (a, p), (b, q) = self.term(n.a[0], real), self.term(n.a[1], real)
                return (a * c(q)) / (b * c(p)), 1  # bvsdiv truncates
            a, p = self.term(n.a[1], real)
            r = a / c(p)
            if n.a[0] == "floor":
                r = z3.If(z3.And(a < 0, r * c(p) != a), r - 1, r)
            return r, 1
        raise Inconclusive("index term " + dag.show(n))

    def boolean(self, n):
        if n is dag.TRUE or n is dag.FALSE:
            return z3.BoolVal(n is dag.TRUE)
        if n.op == "not":
            return z3.Not(self.boolean(n.a[0]))
        if n.op in ("and", "or"):
            return (z3.And if n.op == "and" else z3.Or)([self.boolean(x) for x in n.a])
        if n.op in ("<", "<=", "=="):
            real = self.is_real(n)
            c = lambda x: z3.RealVal(x) if real else z3.BitVecVal(x, W)
            (a, p), (b, q) = [self.term(x, real) for x in n.a]
            a, b = a * c(q), b * c(p)
            return a < b if n.op == "<" else a <= b if n.op == "<=" else a == b
        raise Inconclusive("condition " + dag.show(n))

    def index(self, n):
        a, p = self.term(n, False)
        if p != 1:
            raise cexec.ExecError("the index is not an integer: " + dag.show(n))
        return a


KIND_MEMO = {}


def has_real(e):
    k = e.get_id()
    if k not in KIND_MEMO:
        KIND_MEMO[k] = (z3.is_real(e) or any([has_real(c) for c in e.children()]), e)
    return KIND_MEMO[k][0]


def sat(enc, cs):
    """Satisfiable, asking the solver once per set of constraints; index and coordinate constraints are independent."""
    for part in ([c for c in cs if has_real(c)], [c for c in cs if not has_real(c)]):
        k = frozenset(c.get_id() for c in part)
        if k not in enc.proved:
            enc.proved[k] = (zcheck(part) is not None, part)
        if not enc.proved[k][0]:
            return False
    return True


def zcheck(cs):
    import time

    s = z3.Solver()
    s.set("timeout", 120000)
    s.add(cs)
    t = time.time()
    r = s.check()
    STATS.queries += 1
    STATS.solver_s += time.time() - t
    STATS.unsat += r == z3.unsat
    STATS.sat += r == z3.sat
    if r == z3.unknown:
        raise Inconclusive("solver returned unknown")
    return s.model() if r == z3.sat else None


class Stop(Exception):
    def __init__(self, code):
        self.code = code


def strof(e, p):
    o = p.obj if isinstance(p, P) else p
    if getattr(o, "string", None) is not None:
        return o.string
    if getattr(o, "strval", None) is not None:
        v = o.strval
        return v if isinstance(v, tuple) else strof(e, v)
    return ("array", o.name)


def execute(ex, fn, sl, N, NG, decide):
    """One path with N[d] an int or a symbol. -> dict of what was opened, written and closed."""
    ex.decide = decide
    ex.heap = []
    c, p = bhah.structs(ex)
    M = [dag.add(C(n) if isinstance(n, int) else n, C(2 * NG)) for n in N]
    for d in R3:
        p.field(f"Nxx{d}").v = S(INT, C(N[d]) if isinstance(N[d], int) else N[d])
        p.field(f"Nxx_plus_2NGHOSTS{d}").v = S(INT, M[d])
    c.field("nn").v = S(INT, V("nn"))
    p.field("CoordSystem_hash").v = S(INT, ex.hash)
    p.field("CoordSystemName").strval = ("name",)
    st = dict(opens=[], lines=[], closed=0, calls=[], reads={}, exit=None, sprintf=[])

    def gf(nm):
        def init(idx):
            v = V(f"{nm}#{idx.id}")
            st["reads"][v.a[0]] = (nm, idx)
            return S(DBL, v)

        return P(cexec.Arr(ex, DBL, nm, None, init))

    g = ex.newobj(ex.typedefs["MoL_gridfunctions_struct"], "gridfuncs")
    for f in g.t.fields:
        if g.t.fields[f].k == "ptr":
            g.field(f).v = gf(f)
    xx = cexec.Arr(ex, T("ptr", elem=DBL), "xx", 3)
    for d in R3:
        xx.conc[d] = P(cexec.Arr(ex, DBL, f"x{d}", None, lambda i, d=d: S(DBL, V(f"x{d}#{i.id}"))), dag.ZERO, T("ptr", elem=DBL))

    def xx_to_Cart(e, _n, a):
        o = a[2].obj if isinstance(a[2], P) else a[2]
        if a[1].obj is not p or o is not xx:
            raise cexec.ExecError("xx_to_Cart is not given the grid's parameters and coordinates")
        k = len(st["calls"])
        st["calls"].append([x.n for x in a[3:6]])
        out = a[6] if isinstance(a[6], P) else P(a[6])
        for d in R3:
            e.write(e.elem_obj(out.obj, dag.add(out.off, C(d))), S(DBL, V(f"X{k}_{d}")))

    def sprintf(e, n, a):
        d = a[0].obj if isinstance(a[0], P) else a[0]
        f = a[1:] if n == "sprintf" else a[2:]
        d.strval = ("fmt", strof(e, f[0]), tuple(strof(e, x) if isinstance(x, (P, cexec.Arr)) else x.n for x in f[1:]))
        return S(INT, C(1))

    def fopen(e, _n, a):
        st["opens"].append((strof(e, a[0]), strof(e, a[1])))
        if decide(dag.eq(V("fails"), C(1))):
            return P(None)
        o = cexec.Arr(e, cexec.CHAR, "FILE", 1)
        o.isopen = True
        return P(o)

    def fclose(e, _n, a):
        if a[0].obj is None or not getattr(a[0].obj, "isopen", False):
            raise cexec.ExecError("fclose of a file that is not open")
        a[0].obj.isopen = False
        st["closed"] += 1
        return S(INT, C(0))

    def fprintf(e, _n, a):
        o = a[0].obj
        if o is not None and o.name == "stderr":
            return S(INT, C(0))
        if o is None or not getattr(o, "isopen", False):
            raise cexec.ExecError("fprintf to a file that is not open")
        st["lines"].append((strof(e, a[1]), a[2:]))
        return S(INT, C(0))

    def qsort(e, _n, a):
        base = a[0] if isinstance(a[0], P) else P(a[0])
        arr, n = base.obj, a[1].n
        if not dag.isc(n) or not dag.isc(base.off):
            raise Inconclusive("qsort of a symbolic number of elements")
        if a[2].n is not V("sizeof:" + e.sizename(arr.elem)):
            raise cexec.ExecError(f"qsort is given elements of {dag.show(a[2].n)} bytes for {e.sizename(arr.elem)} data")
        lo, n = int(base.off.a[0]), int(n.a[0])
        items = [e.elem_obj(arr, C(lo + k)) for k in range(n)]
        out = []
        for o in items:
            k = 0
            while k < len(out) and not decide(dag.lt(e.call(a[3].t.name, [P(o), P(out[k])]).n, dag.ZERO)):
                k += 1
            out.insert(k, o)
        for k in range(n):
            arr.conc[lo + k] = out[k]

    def exit_(e, _n, a):
        raise Stop(a[0].n)

    for k, f in dict(xx_to_Cart=xx_to_Cart, sprintf=sprintf, snprintf=sprintf, fopen=fopen, fclose=fclose, fprintf=fprintf, qsort=qsort, exit=exit_).items():
        ex.stubs[k] = f
    ex.globals["stderr"] = cexec.Cell(T("ptr", elem=cexec.VOID), P(cexec.Arr(ex, cexec.CHAR, "stderr", 1)), "stderr")
    args = [P(c), P(p)] + ([] if sl == "center" else [P(xx)]) + [P(g)]
    try:
        ex.call(fn, args)
    except Stop as e:
        st["exit"] = e.code
    return st


def columns(fmt, args):
    """Split one fprintf into typed columns; raises if format and arguments do not match."""
    if not fmt.endswith("\n") or fmt.count("\n") != 1:
        raise cexec.ExecError(f"the line {fmt!r} does not end once")
    conv = re.findall(r"%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|z)?[a-zA-Z]", fmt)
    if len(conv) != len(args) or len(fmt.split()) != len(conv):
        raise cexec.ExecError(f"{len(args)} values for the format {fmt!r}")
    coarse = []
    for q, a in zip(conv, args):
        if not isinstance(a, S) or (a.t.k == "flt") != (q[-1] in "eEfFgGa"):
            raise cexec.ExecError(f"format {q} for a value of another type")
        if a.t.k == "flt" and a.t.name == "double" and not re.search(r"\.(1[5-9])[eEgG]$", q):
            coarse.append(a)
    return list(args), coarse


def nearest(i, f, N, NG):
    """i (bit vector) is an interior index nearest to the fraction f of N cells (bit vector)."""
    b = lambda x: z3.BitVecVal(int(x), W)
    den = f.denominator
    # 2*den*position - 2*num*N, in units of dx/(2 den)
    dist = lambda j: b(den) * (2 * (j - b(NG)) + 1) - b(2 * f.numerator) * N
    ab = lambda x: z3.If(x < 0, -x, x)
    inside = z3.And(i >= b(NG), i < b(NG) + N)
    # the distance to the nearest of all cell centres inside is at most that to each neighbour (the distance is convex in j)
    return z3.And(inside, z3.Or(i == b(NG), ab(dist(i)) <= ab(dist(i - 1))), z3.Or(i == b(NG) + N - 1, ab(dist(i)) <= ab(dist(i + 1))))


def judge(st, enc, conds, cs, sl, N, NG, gfn, fname):
    """-> (message, extra solver constraints) or None"""
    b = lambda x: z3.BitVecVal(int(x), W)
    zN = [b(n) if isinstance(n, int) else enc.index(n) for n in N]
    M = [n + b(2 * NG) for n in zN]

    def never(bad, what):
        STATS.obligations += 1
        # grid sizes and coordinates share no condition: each obligation needs only its own kind
        rel = [c for c in conds if has_real(c) == has_real(bad)]
        return (what, [bad]) if sat(enc, rel + [bad]) else None

    if len(st["opens"]) != 1:
        return f"{len(st['opens'])} files are opened", []
    name, mode = st["opens"][0]
    if not (isinstance(name, tuple) and name[0] == "fmt" and name[1] == fname and len(name[2]) == 3 and name[2][0] == ("name",) and dag.show(name[2][1]).endswith("convergence_factor") and name[2][2] is V("cd.time")):
        return f"the file is named {name}, not {fname} of the given arguments", []
    nn0 = enc.var("nn", False) == 0
    if mode not in ("w", "a"):
        return f"the file is opened in mode {mode}", []
    r = never(nn0 if mode == "a" else z3.Not(nn0), f"the file is opened with {mode!r} {'at' if mode == 'a' else 'after'} iteration 0")
    if r:
        return r
    fails = enc.var("fails", False) == 1
    if st["exit"] is not None:
        if dag.isc(st["exit"]) and st["exit"].a[0] == 0:
            return "a failure exits with status 0", []
        return never(z3.Not(fails), "the program stops although the file can be written")
    r = never(fails, "nothing stops although the file cannot be opened")
    if r:
        return r
    if st["closed"] != 1:
        return f"the file is closed {st['closed']} times", []
    dirs = spec(cs, sl)
    lines = []
    for fmt, args in st["lines"]:
        a, coarse = columns(fmt, args)
        nc = 1 if sl == "center" else len(COLS[sl])
        if len(a) != nc + len(OUT):
            return f"{len(a)} columns instead of {nc + len(OUT)}", []
        if any(x is y for x in (a[1:] if sl == "center" else a) for y in coarse):
            return f"values are written with fewer than 16 digits: {fmt!r}", []
        lines.append((a[:nc], a[nc:]))
    want = 1
    for d in R3 if dirs is not None else ():
        want *= N[d] if dirs[d] == ALL else 1 if dirs[d] == ANY else len(dirs[d])
    if dirs is None:
        want = 0
    if len(lines) != want:
        return f"{len(lines)} points are written, expected {want}", []
    pts = []
    for co, va in lines:
        idx = enc.index(va[1].n)
        vol = M[0] * M[1] * M[2]
        for col, arr, g in ((0, "y_n_gfs", gfn[1]), (2, "diagnostic_output_gfs", gfn[0]), (3, "auxevol_gfs", gfn[2])):
            got = st["reads"].get(va[col].n.a[0]) if va[col].n.op == "v" else None
            if got is None or got[0] != arr:
                return f"column of {arr} is {dag.show(va[col].n)}", []
            r = never(enc.index(got[1]) != idx + b(g) * vol, f"the value of {arr} belongs to another point or gridfunction than the line's")
            if r:
                return r
        i = [z3.SRem(idx, M[0]), z3.SRem(idx / M[0], M[1]), idx / (M[0] * M[1])]
        if sl == "center":
            if co[0].n is not V("cd.time"):
                return f"the first column is {dag.show(co[0].n)}, not the time", []
        else:
            ks = set()
            for d, x in zip(COLS[sl], co):
                m = re.fullmatch(r"X(\d+)_(\d)", str(x.n.a[0])) if x.n.op == "v" else None
                if not m or int(m[2]) != d:
                    return f"the coordinate column holds {dag.show(x.n)}, not x{d}", []
                ks.add(int(m[1]))
            if len(ks) != 1:
                return "the coordinates of one line are of different points", []
            trip = [enc.index(q) for q in st["calls"][ks.pop()]]
            r = never(trip[0] + M[0] * (trip[1] + M[1] * trip[2]) != idx, "coordinates and values of a line are of different points")
            if r:
                return r
            i = trip
        for d in R3:
            q = dirs[d]
            ok = z3.And(i[d] >= b(NG), i[d] < b(NG) + zN[d])
            if q not in (ALL, ANY):
                ok = z3.Or([nearest(i[d], f, zN[d], NG) for f in q])
            r = never(z3.Not(ok), f"a point's index in direction {d} is {'not nearest to the slice' if q not in (ALL, ANY) else 'not in the interior'}")
            if r:
                return r
        pts.append((i, idx))
    for k in range(len(pts)):
        for l in range(k):
            a, c = sorted((pts[k][1], pts[l][1]), key=lambda x: x.get_id())
            r = never(a == c, "a point is written twice")
            if r:
                return r
    if dirs is not None:
        import itertools

        opts = [[("i", NG + k) for k in range(N[d])] if dirs[d] == ALL else [("any", None)] if dirs[d] == ANY else [("f", f) for f in dirs[d]] for d in R3]
        for combo in itertools.product(*opts):
            hit = z3.Or([z3.And([p[0][d] == b(v) if k == "i" else z3.BoolVal(True) if k == "any" else nearest(p[0][d], v, zN[d], NG) for d, (k, v) in enumerate(combo)]) for p in sorted(pts, key=lambda q: q[1].get_id())])
            r = never(z3.Not(hit), f"no point is written for {[str(v) for _, v in combo]}")
            if r:
                return r
    if sl in ("y", "z"):
        for (a, _), (c, _) in zip(lines, lines[1:]):
            bad = enc.boolean(dag.lt(c[0].n, a[0].n))
            r = never(bad, "the lines are not in the order of the axis coordinate")
            if r:
                return r
    return None


def sizes(cs, sl, free):
    """Symbols in the directions the slice fixes, `free` points in the others; and their bounds."""
    dirs = spec(cs, sl)
    N, cons, enc = [], [], Enc()
    for d in R3:
        q = ALL if dirs is None else dirs[d]
        if q == ALL:
            N.append(free[d])
            continue
        N.append(V(f"N{d}"))
        z = enc.var(f"N{d}", False)
        cons += [z >= (2 if q != [H] else 1), z <= NMAX]
        if q != ANY and Q1 in q:
            cons.append(z3.SRem(z, z3.BitVecVal(2, W)) == 0)
    return N, cons, enc


def replay(unit, src, fn, cs, sl, N, NG, nn, gfn, fname):
    """Compiled function on one concrete grid; the written file is read back."""
    M = [n + 2 * NG for n in N]
    n = M[0] * M[1] * M[2]
    lo, hi = XR.get(cs, ((0.0, 0.0, -PI), (1.0, PI, PI))) if cs not in CYL else ((0.0, -PI, -1.0), (1.0, PI, 1.0))
    t = "\n#include <unistd.h>\nint main() {\n  commondata_struct cd; memset(&cd, 0, sizeof cd); commondata_struct_set_to_default(&cd); griddata_struct gd[1]; memset(gd, 0, sizeof gd); cd.NUMGRIDS = 1; params_struct_set_to_default(&cd, gd); params_struct p = gd[0].params;\n"
    t += f"  p.CoordSystem_hash = {cs.upper()}; snprintf(p.CoordSystemName, 50, \"{cs}\"); cd.nn = {nn}; cd.time = 0.5; cd.convergence_factor = 1.0;\n"
    for d in R3:
        t += f"  p.Nxx{d} = {N[d]}; p.Nxx_plus_2NGHOSTS{d} = {M[d]}; double x{d}[{M[d]}]; for (int i = 0; i < {M[d]}; i++) x{d}[i] = {lo[d]!r} + (i - {NG} + 0.5) * {(hi[d] - lo[d]) / N[d]!r};\n"
    t += f"""  double *xx[3] = {{x0, x1, x2}}; MoL_gridfunctions_struct g; memset(&g, 0, sizeof g); static double y[2*{n}], a[2*{n}], dg[2*{n}];
  for (int k = 0; k < 2*{n}; k++) {{ y[k] = 1.0 / 3 + 1000000 + k; a[k] = 1.0 / 3 + 2000000 + k; dg[k] = 1.0 / 3 + 3000000 + k; }}
  g.y_n_gfs = y; g.auxevol_gfs = a; g.diagnostic_output_gfs = dg;
  char fnm[300]; sprintf(fnm, "{fname}", "{cs}", 1.0, 0.5); FILE *o = fopen(fnm, "w"); fprintf(o, "OLD\\n"); fclose(o);
  {fn}(&cd, &p, {"" if sl == "center" else "xx, "}&g);
  FILE *f = fopen(fnm, "r"); char line[1000]; while (fgets(line, 1000, f)) printf("L %s", line); fclose(f);
  for (int i2 = 0; i2 < {M[2]}; i2++) for (int i1 = 0; i1 < {M[1]}; i1++) for (int i0 = 0; i0 < {M[0]}; i0++) {{ double X[3]; xx_to_Cart(&cd, &p, xx, i0, i1, i2, X); printf("X %.15e %.15e %.15e\\n", X[0], X[1], X[2]); }}
  printf("END\\n"); return 0; }}
"""
    r = bhah.crun(unit, src + t, asan=True)
    if r is None or not r.endswith("END"):
        return r or "prints nothing"
    L = [l[2:].split() for l in r.splitlines() if l.startswith("L ")]
    X = [[float(v) for v in l[2:].split()] for l in r.splitlines() if l.startswith("X ")]
    if (["OLD"] in L) != (nn != 0):
        return f"at iteration {nn} the file's earlier content is {'kept' if ['OLD'] in L else 'gone'}"
    L = [l for l in L if l != ["OLD"]]
    dirs = spec(cs, sl)
    nc = 1 if sl == "center" else len(COLS[sl])
    pts = []
    for l in L:
        if len(l) != nc + 4:
            return f"a line has {len(l)} columns"
        pt = int(l[nc + 1])
        if not 0 <= pt < n:
            return f"point {pt} is outside the grid"
        for c, base, g in ((0, 1000000, gfn[1]), (2, 3000000, gfn[0]), (3, 2000000, gfn[2])):
            if abs(float(l[nc + c]) - (base + g * n + pt + 1 / 3)) > 2e-15 * base:
                return f"column {nc + c} of the line of point {pt} is {l[nc + c]}, expected {base + g * n + pt}"
        for c, d in enumerate(COLS[sl]):
            if abs(float(l[c]) - X[pt][d]) > 1e-14 * (1 + abs(X[pt][d])):
                return f"coordinate column {c} of point {pt} is {l[c]}, the point's is {X[pt][d]}"
        if sl == "center" and float(l[0]) != 0.5:
            return f"the time column is {l[0]} at time 0.5"
        pts.append((pt % M[0], pt // M[0] % M[1], pt // M[0] // M[1]))
    if sl in ("y", "z") and any(float(a[0]) > float(c[0]) for a, c in zip(L, L[1:])):
        return f"the axis coordinates {[l[0] for l in L]} are not in order"
    if len(set(pts)) != len(pts):
        return f"a point is written twice: {pts}"
    near = lambda i, f, d: NG <= i < NG + N[d] and all(abs(i - NG + H - f * N[d]) <= abs(j + H - f * N[d]) for j in range(N[d]))
    import itertools

    opts = [] if dirs is None else [[("i", NG + k) for k in range(N[d])] if dirs[d] == ALL else [("any", None)] if dirs[d] == ANY else [("f", f) for f in dirs[d]] for d in R3]
    combos = [] if dirs is None else list(itertools.product(*opts))
    fits = lambda p, c: all(p[d] == v if k == "i" else NG <= p[d] < NG + N[d] if k == "any" else near(p[d], v, d) for d, (k, v) in enumerate(c))
    for p in pts:
        if not any(fits(p, c) for c in combos):
            return f"point {p} of the grid {N} with {NG} ghost zones is not a nearest interior point of the slice"
    for c in combos:
        if not any(fits(p, c) for p in pts):
            return f"no point is written for {[str(v) for _, v in c]} (grid {N}, {NG} ghost zones; written: {pts})"
    if len(pts) != len(combos):
        return f"{len(pts)} points are written, expected {len(combos)}"
    return None


PI = 3.141592653589793
XR = {cs: ((-1.0,) * 3, (1.0,) * 3) for cs in CART}
XR["RingHoleySinhSpherical"] = ((0.2, PI / 4, -PI), (1.0, 3 * PI / 4, PI))
XR["HoleySinhSpherical"] = ((0.2, 0.0, -PI), (1.0, PI, PI))
for _w in WEDGE:
    XR[_w] = ((0.2, PI / 4, -PI / 4), (1.0, 3 * PI / 4, PI / 4))


def slice_case(arg):
    cs, sl, NG, free = arg
    key = f"slice:{cs}:{sl}:NG{NG}"
    encoded("diagnostics_nearest_grid_center, _1d_y_axis, _1d_z_axis, _2d_xy_plane, _2d_yz_plane (generated)", "the qsort comparison (generated)")
    st = setup(key, cs, sl, NG)
    if st is None:
        return
    unit, src, fn, fname = st
    try:
        ex = cexec.Exec(src, incdirs=unit.incdirs)
        lazy(ex)
        ex.hash = bhah.hashof(ex, cs)
        if ex.call("verif_NGHOSTS", []).n is not C(NG):
            raise Inconclusive("NGHOSTS")
        gfn = [int(ex.call("verif_gf", [S(INT, C(k))]).n.a[0]) for k in R3]
        N, cons, enc = sizes(cs, sl, free)
        cons += [enc.var("nn", False) >= 0, enc.var("fails", False) >= 0, enc.var("fails", False) <= 1]

        def run(decide):
            try:
                return execute(ex, fn, sl, N, NG, decide)
            except cexec.ExecError as e:
                return str(e)

        def concrete(m):
            def g(n):
                if isinstance(n, int):
                    return n
                return m.eval(enc.index(n), model_completion=True).as_signed_long()

            return [g(n) for n in N], m.eval(enc.var("nn", False), model_completion=True).as_signed_long()

        npaths = 0
        try:
            for pc, res in cexec.explore(run, lambda c: sat(enc, cons + [enc.boolean(x) for x in c]), max_paths=4000):
                npaths += 1
                conds = cons + [enc.boolean(x) for x in pc]
                bad, extra = (res, []) if isinstance(res, str) else (None, [])
                if bad is None:
                    try:
                        r = judge(res, enc, conds, cs, sl, N, NG, gfn, fname)
                    except cexec.ExecError as e:
                        r = str(e), []
                    if r:
                        bad, extra = r
                if bad:
                    m = zcheck(conds + extra)
                    if m is None:
                        raise Inconclusive("no model")
                    cN, nn = concrete(m)
                    r = replay(unit, src, fn, cs, sl, cN, NG, nn, gfn, fname)
                    if not r and m.eval(enc.var("fails", False), model_completion=True).as_signed_long() == 1:
                        r = unopened(unit, src, fn, cs, sl)
                    if not r:
                        raise Inconclusive(f"{key}: {bad} (grid {cN}, iteration {nn}): the compiled function does not show it")
                    report(key, f"{key}: {bad}; compiled, grid {cN}, iteration {nn}: {r}", {"N": cN, "NGHOSTS": NG})
                    return
        except Inconclusive as e:
            # the encoding does not reach this code: the compiled function may still show a violation
            if "compiled function does not show" not in str(e):
                for cN in ([4 if isinstance(n, int) else 6 for n in N], [n if isinstance(n, int) else 4 for n in N]):
                    r = replay(unit, src, fn, cs, sl, cN, NG, 0, gfn, fname)
                    if r:
                        report(key, f"{key}: {e}; compiled, grid {cN}: {r}", {"N": cN, "NGHOSTS": NG})
                        return
            raise
        sample({"case": key, "paths": npaths, "grid": [str(n) if isinstance(n, int) else n.a[0] for n in N]})
    finally:
        rmtree(unit.dir)


def unopened(unit, src, fn, cs, sl):
    t = f"\nint main() {{\n  commondata_struct cd; memset(&cd, 0, sizeof cd); commondata_struct_set_to_default(&cd); griddata_struct gd[1]; memset(gd, 0, sizeof gd); cd.NUMGRIDS = 1; params_struct_set_to_default(&cd, gd); params_struct p = gd[0].params;\n  p.CoordSystem_hash = {cs.upper()}; snprintf(p.CoordSystemName, 50, \"no/such/dir\"); MoL_gridfunctions_struct g; memset(&g, 0, sizeof g); double *xx[3];\n  {fn}(&cd, &p, {'' if sl == 'center' else 'xx, '}&g); return 0; }}\n"
    r = bhah.crun(unit, src + t)
    if r and r.startswith("exits with status 1:"):
        return None
    return f"with a file that cannot be opened: {r or 'the function returns'}"


def progress(arg):
    """progress_indicator prints exactly every output_progress_every iterations, never if that is not positive."""
    eta, = arg
    key = f"progress:{'eta' if eta else 'plain'}"
    encoded("progress_indicator (generated)")
    import nrpy.c_function as cfc
    import nrpy.params as par

    par.set_parval_from_str("Infrastructure", "BHaH")
    from nrpy.infrastructures.BHaH.diagnostics import progress_indicator as pi

    for t, n in (("int", "nn"), ("int", "nn_0"), ("REAL", "time"), ("REAL", "t_0"), ("REAL", "dt"), ("REAL", "t_final")):
        if n not in par.glb_code_params_dict:
            par.register_CodeParameter(t, "verif", n, 1, commondata=True)
    bhah.rfm_typedef()
    nrpy_call(key, pi.register_CFunction_progress_indicator, progress_str="  VERIF_PRINT(commondata->nn);\n", compute_ETA=eta)
    unit = bhah.Unit(key=key)
    src = unit.source(list(cfc.CFunction_dict), pre="#include <time.h>\nvoid VERIF_PRINT(int);\n")
    try:
        ex = cexec.Exec(src, incdirs=unit.incdirs)
        enc = Enc()
        nn, every = enc.var("nn", False), enc.var("every", False)
        cons = [nn >= 0, every > -(2 ** (W - 1))]

        def clock(e, _n, a):
            o = a[1].obj
            if isinstance(a[1].obj, cexec.Arr):
                o = e.elem_obj(a[1].obj, a[1].off)
            bhah.symbolic_struct(o, f"clock{len(enc.vs)}.")
            return S(INT, C(0))

        def run(decide):
            st = []
            ex.decide = decide
            c = ex.newobj(ex.typedefs["commondata_struct"], "cd", symbolic=True)
            c.field("nn").v = S(INT, V("nn"))
            c.field("output_progress_every").v = S(INT, V("every"))
            ex.stubs["VERIF_PRINT"] = lambda e, n, a: st.append(a[0].n)
            ex.stubs["clock_gettime"] = clock
            old = ex.binop

            def binop(op, a, b):
                if op in ("%", "/") and isinstance(a, S) and isinstance(b, S) and a.t.k == b.t.k == "int" and not dag.isc(b.n):
                    if decide(dag.eq(b.n, dag.ZERO)):
                        raise cexec.ExecError("integer division by zero")
                return old(op, a, b)

            ex.binop = binop
            ex.enums.setdefault("CLOCK_REALTIME", 0)
            gd = cexec.Arr(ex, ex.typedefs["griddata_struct"], "griddata", 1)
            try:
                ex.call("progress_indicator", [P(c), P(gd)])
            except cexec.ExecError as e:
                return str(e)
            finally:
                del ex.binop
            return st

        lazy(ex)
        pos = every > 0
        rem = z3.SRem(nn, every) == 0
        for pc, res in cexec.explore(run, lambda c: zcheck(cons + [pb(enc, x) for x in c]) is not None, max_paths=200):
            conds = cons + [pb(enc, x) for x in pc]
            STATS.obligations += 1
            if isinstance(res, str):
                bad, m = res, zcheck(conds)
            else:
                want = z3.And(pos, rem)
                m = zcheck(conds + [z3.Not(want) if res else want])
                bad = f"{'prints' if res else 'does not print'} the progress line"
                if m is not None and len(res) > 1:
                    bad = "prints more than once"
            if m is None and len(res) <= 1:
                continue
            m = m or zcheck(conds)
            v = lambda x: m.eval(x, model_completion=True).as_signed_long()
            n_, e_ = v(nn), v(every)
            t = f"\nstatic int printed; void VERIF_PRINT(int k) {{ printed++; }}\nint main() {{ commondata_struct cd; memset(&cd, 0, sizeof cd); cd.nn = {n_}; cd.output_progress_every = {e_}; cd.nn_0 = 0; cd.time = 1; cd.t_0 = 0.5; cd.t_final = 2;\n  progress_indicator(&cd, 0); printf(\"%d\", printed); return 0; }}\n"
            r = bhah.crun(unit, src + t)
            if r == str(int(e_ > 0 and n_ % e_ == 0 if e_ else 0)):
                raise Inconclusive(f"{key}: {bad}: iteration {n_}, output_progress_every {e_}: the compiled function does not show it")
            report(key, f"{key}: {bad} at iteration {n_} with output_progress_every {e_}; compiled: {r}", {"nn": n_, "every": e_})
            return
    finally:
        rmtree(unit.dir)


def pb(enc, n):
    """Conditions on anything but the two schedule variables are free."""
    vs = dag.variables([n])
    if any(v not in ("nn", "every") for v in vs):
        return enc.vs.setdefault(("cond", n.id if n.op != "not" else n.a[0].id), z3.Bool(f"c{n.id if n.op != 'not' else n.a[0].id}")) if n.op != "not" else z3.Not(pb(enc, n.a[0]))
    return sched(enc, n)


def sched(enc, n):
    if n.op == "not":
        return z3.Not(sched(enc, n.a[0]))
    if n.op in ("and", "or"):
        return (z3.And if n.op == "and" else z3.Or)([sched(enc, x) for x in n.a])
    if n is dag.TRUE or n is dag.FALSE:
        return z3.BoolVal(n is dag.TRUE)
    t = lambda x: enc.var(x.a[0], False) if x.op == "v" else z3.BitVecVal(int(x.a[0]), W) if x.op == "c" else t(x.a[0]) + t(x.a[1]) if x.op == "+" else t(x.a[0]) * t(x.a[1]) if x.op == "*" else t(x.a[0]) / t(x.a[1]) if x.op == "idiv" else z3.SRem(t(x.a[0]), t(x.a[1])) if x.op == "imod" else z3.If(sched(enc, x.a[0]), t(x.a[1]), t(x.a[2])) if x.op == "ite" else None
    a, b = t(n.a[0]), t(n.a[1])
    return a < b if n.op == "<" else a <= b if n.op == "<=" else a == b


def lazy(ex):
    """&& and || as branches, so that the right side is evaluated only where C evaluates it."""
    old = ex.ex_BinaryOp

    def go(e):
        if e.op in ("&&", "||"):
            a = ex.truth(ex.eval(e.left))
            if a == (e.op == "||"):
                return S(INT, C(int(a)))
            return S(INT, C(int(ex.truth(ex.eval(e.right)))))
        return old(e)

    ex.ex_BinaryOp = go
    ex.ex_TernaryOp = lambda e: ex.eval(e.iftrue if ex.truth(ex.eval(e.cond)) else e.iffalse)


def main():
    ck = Check(
        "P22",
        "other",
        assumptions=["xx_to_Cart is an arbitrary function of the point (P15 decides it)", "an even number of points around a full circle where a slice cuts it at a quarter; at least 2 points in such directions", "qsort sorts by the given comparison; fprintf, fopen and fclose as in C", "SymTP: the z axis is the part outside the foci"],
        bounds=f"directions the slice fixes: 2 to {NMAX} points, symbolic; the other directions 2 (quick) or 2 and 3 points; NGHOSTS 1 to 3; all coordinate orders symbolic",
        explanation="The generated output functions are executed with symbolic grid sizes, iteration number, coordinates and fopen outcome; sorting explores every outcome of the real comparison. For every path z3 shows that the written points are interior, distinct, nearest to the slice and complete, and that columns and values belong to the point",
    )
    cases = []
    systems = SPH + CYL + CART + TP + WEDGE
    for k, cs in enumerate(systems):
        for j, sl in enumerate(SLICES):
            if sl == "center" and cs in WEDGE:
                continue
            for NG in ((1, 2, 3) if not QUICK else ((k + j) % 3 + 1,)):
                cases.append((f"{cs}_{sl}_{NG}", slice_case, (cs, sl, NG, (2, 2, 2))))
            if not QUICK and spec(cs, sl) and not (sl in ("y", "z") and any(q not in (ALL, ANY) and len(q) == 2 for q in spec(cs, sl))):
                cases.append((f"{cs}_{sl}_free3", slice_case, (cs, sl, 2, (3, 3, 3))))
    cases += [("progress_eta", progress, (True,)), ("progress_plain", progress, (False,))]
    ck.run(cases, timeout=600 if QUICK else 3600)
    ck.finish()


if __name__ == "__main__":
    main()
