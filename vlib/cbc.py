"""Set-up shared by the boundary-condition checks: real generated code on small cell-centred grids."""
import sympy as sp

from vlib import bhah, cexec, dag, geo
from vlib.bhah import darr, structs
from vlib.core import STATS, nrpy_call, report, rmtree
from vlib.dag import C, Fraction, V, add, mul

R3 = range(3)
INT, DBL, S = cexec.INT, cexec.DBL, cexec.S
SPH = ("Spherical", "SinhSpherical", "SinhSphericalv2n2")
HOLEY = ("HoleySinhSpherical", "RingHoleySinhSpherical")
CYL = ("Cylindrical", "SinhCylindrical", "SinhCylindricalv2n2")
TP = ("SymTP", "SinhSymTP")
CART = ("Cartesian", "SinhCartesian", "LWedgeHSinhSph", "UWedgeHSinhSph")
SYSTEMS = SPH + HOLEY + CYL + TP + CART
PTYPE = {"00": 4, "01": 5, "02": 6, "11": 7, "12": 8, "22": 9}


def register(key, systems, NG, rad_order=2, few=False):
    import nrpy.grid as gri
    import nrpy.params as par

    par.set_parval_from_str("Infrastructure", "BHaH")
    import nrpy.finite_difference  # noqa  pylint: disable=unused-import
    from nrpy.infrastructures.BHaH import CodeParameters, numerical_grids_and_timestep as ng
    from nrpy.infrastructures.BHaH.CurviBoundaryConditions import CurviBoundaryConditions as cbc

    par.set_parval_from_str("fd_order", 2 * NG)
    gri.register_gridfunctions(["uu"], group="EVOL", f_infinity=2.5, wavespeed=1.5)
    gri.register_gridfunctions_for_single_rank1("vetU", group="EVOL")
    if not few:
        gri.register_gridfunctions_for_single_rank2("hDD", group="EVOL", symmetry="sym01")
    gri.register_gridfunctions(["aux"], group="AUX")
    nrpy_call(key, bhah.quiet, ng.register_CFunctions, list_of_CoordSystems=list(systems), list_of_grid_physical_sizes=[10.0] * len(systems), Nxx_dict={s: [4, 4, 4] for s in systems})
    nrpy_call(key, bhah.quiet, cbc.CurviBoundaryConditions_register_C_functions, list_of_CoordSystems=list(systems), radiation_BC_fd_order=rad_order)
    for nm, t in (("nn", "int"), ("nn_0", "int"), ("t_0", "REAL"), ("time", "REAL"), ("dt", "REAL"), ("CFL_FACTOR", "REAL")):
        if nm not in par.glb_code_params_dict:
            par.register_CodeParameter(t, "verif", nm, **({"defaultvalue": 0.5} if nm == "CFL_FACTOR" else {}), add_to_parfile=False, add_to_set_CodeParameters_h=False, commondata=True)
    nrpy_call(key, bhah.quiet, CodeParameters.register_CFunctions_params_commondata_struct_set_to_default)
    bhah.wrappers(key)
    bhah.rfm_typedef()
    unit = bhah.Unit(key=key)
    import nrpy.c_function as cfc

    names = list(cfc.CFunction_dict)
    gfs = list(cfc_gfs(few))
    post = "\nint verif_NGHOSTS(void) { return NGHOSTS; }\nint verif_NGF(void) { return NUM_EVOL_GFS; }\n"
    post += "int verif_gf(int k) { switch (k) { " + " ".join(f"case {i}: return {g.upper()}GF;" for i, g in enumerate(gfs)) + " } return -1; }\n"
    src = unit.source(names, "", post)
    err = cexec.syntax_check(src, (), unit.incdirs)
    STATS.obligations += 1
    if err:
        report(key + ":compile", f"{key}: generated code does not compile: {[l for l in err.splitlines() if 'error' in l][:2]}", {"gcc": err})
        rmtree(unit.dir)
        return None, None, None
    return unit, src, cexec.Exec(src, incdirs=unit.incdirs, max_steps=20000000)


def cfc_gfs(few=False):
    return ["uu"] + [f"vetU{i}" for i in R3] + [] if few else ["uu"] + [f"vetU{i}" for i in R3] + [f"hDD{i}{j}" for i in R3 for j in R3 if j >= i]


def parity_type(gf):
    if gf == "uu":
        return 0
    return int(gf[-1]) + 1 if gf.startswith("vetU") else PTYPE[gf[-2:]]


def coords(cs, N, NG):
    """Coordinate nodes per direction and spacings (angles are rational multiples of pi)."""
    def cell(lo, dx, n):
        return [add(lo, mul(C(Fraction(2 * (i - NG) + 1, 2)), dx)) for i in range(n + 2 * NG)]

    def ang(lo, hi, n):
        d = Fraction(hi - lo) / n
        return [mul(C(lo + d * Fraction(2 * (i - NG) + 1, 2)), geo.PI) for i in range(n + 2 * NG)], mul(C(d), geo.PI), mul(C(lo), geo.PI)

    if cs in CART:
        dx = [V(f"h{d}") for d in R3]
        lo = [V(f"lo{d}") for d in R3]
        return [cell(lo[d], dx[d], N[d]) for d in R3], dx, lo
    if cs in CYL:
        a, da, la = ang(Fraction(-1), Fraction(1), N[1])
        return [[mul(C(Fraction(2 * (i - NG) + 1, 2)), V("h0")) for i in range(N[0] + 2 * NG)], a, cell(V("lo2"), V("h2"), N[2])], [V("h0"), da, V("h2")], [dag.ZERO, la, V("lo2")]
    q = Fraction(1, 4) if cs == "RingHoleySinhSpherical" else Fraction(0)
    t, dt, lt = ang(q, 1 - q, N[1])
    p, dp, lp = ang(Fraction(-1), Fraction(1), N[2])
    if cs in HOLEY:
        # the hole is wider than the ghost zone
        x0 = [add(V("lo0"), mul(C(Fraction(2 * i + 1, 2)), V("h0"))) for i in range(N[0] + 2 * NG)]
        l0 = add(V("lo0"), mul(C(NG), V("h0")))
    else:
        x0 = [mul(C(Fraction(2 * (i - NG) + 1, 2)), V("h0")) for i in range(N[0] + 2 * NG)]
        l0 = dag.ZERO
    return [x0, t, p], [V("h0"), dt, dp], [l0, lt, lp]


def canonical(cs, N, NG, i):
    """Fundamental-domain point at the same Cartesian position as point i."""
    j = [i[d] - NG for d in R3]
    if cs in CART:
        return tuple(i)
    if cs in CYL:
        if j[0] < 0:
            j[0] = -1 - j[0]
            j[1] += N[1] // 2
        j[1] %= N[1]
    else:
        if j[0] < 0 and cs not in HOLEY:
            j[0] = -1 - j[0]
            j[2] += N[2] // 2
            if cs in SPH:
                j[1] = N[1] - 1 - j[1]
        if cs != "RingHoleySinhSpherical":
            if j[1] < 0:
                j[1] = -1 - j[1]
                j[2] += N[2] // 2
            elif j[1] >= N[1]:
                j[1] = 2 * N[1] - 1 - j[1]
                j[2] += N[2] // 2
        j[2] %= N[2]
    return tuple(x + NG for x in j)


def parities(cs, xd, xs, ev):
    """Signs relating tensor components at coordinates xd and xs (same point): products of e_i(xd).e_i(xs)."""
    import nrpy.reference_metric as refmetric

    rfm = refmetric.reference_metric[cs]
    if not hasattr(parities, "cache"):
        parities.cache = {}
    if cs not in parities.cache:
        parities.cache[cs] = [[dag.from_sympy(sp.diff(rfm.xx_to_Cart[j], rfm.xx[i]) / rfm.scalefactor_orthog[i]) for j in R3] for i in R3]
    e = parities.cache[cs]

    def at(x):
        return [[ev(dag.subst(e[i][j], {f"xx{k}": x[k] for k in R3})) for j in R3] for i in R3]

    a, b = at(xd), at(xs)
    s = []
    for i in R3:
        v = sum(a[i][j] * b[i][j] for j in R3)
        assert abs(abs(v) - 1) < 1e-10, (cs, i, v)
        s.append(1 if v > 0 else -1)
    return [1] + s + [s[i] * s[j] for i in R3 for j in R3 if j >= i]


class Grid:
    """One grid: symbolic structs with concrete sizes, and the real bcstruct_set_up run on it."""

    def __init__(self, ex, cs, N, NG, exact=True):
        self.ex, self.cs, self.N, self.NG = ex, cs, N, NG
        self.c, self.p = structs(ex)
        self.M = [n + 2 * NG for n in N]
        self.x, self.dx, self.lo = coords(cs, N, NG)
        for d in R3:
            for f, v, t in ((f"Nxx{d}", C(N[d]), INT), (f"Nxx_plus_2NGHOSTS{d}", C(self.M[d]), INT), (f"dxx{d}", self.dx[d], DBL), (f"invdxx{d}", dag.inv(self.dx[d]), DBL), (f"xxmin{d}", self.lo[d], DBL), (f"xxmax{d}", add(self.lo[d], mul(C(N[d]), self.dx[d])), DBL)):
                if f in self.p.t.fields:
                    self.p.field(f).v = S(t, v)
        self.p.field("CoordSystem_hash").v = S(INT, bhah.hashof(ex, cs))
        self.xx = cexec.Arr(ex, cexec.T("ptr", elem=DBL), "xx", 3)
        for d in R3:
            self.xx.conc[d] = cexec.P(darr(ex, self.x[d]), dag.ZERO)
        self.bc = ex.newobj(ex.typedefs["bc_struct"], "bcstruct")
        if not exact:
            self.pr = dag.Prover()
            return
        pos = [x for x in self.x[0] if self._pos(x)]
        L = list(pos)
        if cs in TP:
            r2 = dag.root(C(2), 2)
            L += [mul(r2, a) for a in pos]
            qs = {geo.piq(t) for t in self.x[1]}
            b2 = dag.ipow(V("bScale"), 2)
            L += [add(dag.ipow(a, 2), mul(b2, dag.ipow(geo.trig("sin", q), 2))) for a in pos for q in qs]
            L += [mul(r2, geo.trig("cos", q)) for q in qs]
        self.geo = geo.Geo(ex, L, 2 * N[1] * N[2] * (2 if cs == "RingHoleySinhSpherical" else 1))
        self.pr = self.geo.pr

    @staticmethod
    def _pos(x):
        return min(dag.Prover().sig(x)) > 0

    def set_up(self):
        self.ex.call("bcstruct_set_up", [cexec.P(self.c), cexec.P(self.p), cexec.P(self.xx), cexec.P(self.bc)])

    def points(self):
        M = self.M
        return [(i, j, k) for k in range(M[2]) for j in range(M[1]) for i in range(M[0])]

    def ghost(self, i):
        return any(not self.NG <= i[d] < self.NG + self.N[d] for d in R3)

    def idx(self, i):
        return i[0] + self.M[0] * (i[1] + self.M[1] * i[2])

    def cint(self, o):
        v = self.ex.read(o).n
        if not dag.isc(v):
            raise cexec.ExecError(f"not a concrete integer: {dag.show(v)}")
        return int(v.a[0])

    def inner(self):
        """[(dst, src, parity[10])] as stored."""
        ex, bc = self.ex, self.bc
        n = self.cint(bc.field("bc_info").field("num_inner_boundary_points"))
        out = []
        if n == 0:
            return out
        arr = ex.read(bc.field("inner_bc_array"))
        for k in range(n):
            e = ex.elem_obj(arr.obj, add(arr.off, C(k)))
            out.append((self.cint(e.field("dstpt")), self.cint(e.field("srcpt")), [self.cint(ex.elem_obj(e.field("parity"), C(q))) for q in range(10)]))
        return out

    def outer(self):
        """[(layer, direction, (i0,i1,i2), (F0,F1,F2))] in processing order."""
        ex, bc = self.ex, self.bc
        out = []
        for g in range(self.NG):
            for d in R3:
                n = self.cint(ex.elem_obj(ex.elem_obj(bc.field("bc_info").field("num_pure_outer_boundary_points"), C(g)), C(d)))
                if n == 0:
                    continue
                arr = ex.read(ex.elem_obj(bc.field("pure_outer_bc_array"), C(d + 3 * g)))
                for k in range(n):
                    e = ex.elem_obj(arr.obj, add(arr.off, C(k)))
                    out.append((g, d, tuple(self.cint(e.field(f"i{q}")) for q in R3), tuple(self.cint(e.field(f"FACEX{q}")) for q in R3)))
        return out

    def expected_outer(self, i):
        """(layer, direction, inward step) of a pure outer point: its deepest ghost layer, last such direction."""
        dep = [max(self.NG - i[d], i[d] - (self.NG + self.N[d]) + 1, 0) for d in R3]
        g = max(dep)
        d = max(q for q in R3 if dep[q] == g)
        f = [0, 0, 0]
        f[d] = 1 if i[d] < self.NG else -1
        return g - 1, d, tuple(f)

    def oracle(self):
        """({dst: (src, parity)}, {outer point: (layer, direction, face)}) from the geometry."""
        pr = self.pr
        inn, out = {}, {}
        memo = {}
        for i in self.points():
            if not self.ghost(i):
                continue
            s = canonical(self.cs, self.N, self.NG, i)
            if s == i:
                out[i] = self.expected_outer(i)
                continue
            xd, xs = [self.x[d][i[d]] for d in R3], [self.x[d][s[d]] for d in R3]
            k = tuple(x.id for x in xd)
            if k not in memo:
                memo[k] = parities(self.cs, xd, xs, lambda n: pr.sig(n)[0])
            inn[self.idx(i)] = (self.idx(s), memo[k])
        return inn, out
