"""P23: the initial-data reader stores exactly the ADM data it was given, as BSSN variables on every point of the grid."""
import sympy as sp

from vlib import bhah, cexec, dag, fdtv
from vlib.core import QUICK, STATS, Check, Inconclusive, encoded, nrpy_call, report, rmtree, sample
from vlib.dag import C, ONE, V, ZERO, add, diff, div, inv, ipow, mul, neg, root, sub

INT, DBL, S, P = cexec.INT, cexec.DBL, cexec.S, cexec.P
R3 = range(3)
SYM = [(i, j) for i in R3 for j in range(i, 3)]
SYM4 = [(i, j) for i in range(4) for j in range(i, 4)]
EXTERN = """
void xx_to_Cart(const commondata_struct *restrict commondata, const params_struct *restrict params, REAL *restrict xx[3], const int i0, const int i1, const int i2, REAL xCart[3]);
void Cart_to_xx_and_nearest_i0i1i2(const commondata_struct *restrict commondata, const params_struct *restrict params, const REAL xCart[3], REAL xx[3], int Cart_to_i0i1i2[3]);
void apply_bcs_inner_only(const commondata_struct *restrict commondata, const params_struct *restrict params, const bc_struct *restrict bcstruct, REAL *restrict gfs);
"""

EXT_C = """
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static const REAL verif_xx[3] = {%s, %s, %s};
void Cart_to_xx_and_nearest_i0i1i2(const commondata_struct *restrict commondata, const params_struct *restrict params, const REAL xCart[3], REAL xx[3], int Cart_to_i0i1i2[3]) {
  for (int k = 0; k < 3; k++) { xx[k] = verif_xx[k]; Cart_to_i0i1i2[k] = 0; }
}
"""
OTHER_C = """
void xx_to_Cart(const commondata_struct *restrict commondata, const params_struct *restrict params, REAL *restrict xx[3], const int i0, const int i1, const int i2, REAL xCart[3]) {
  xCart[0] = 0.5 + 0.1 * xx[0][i0]; xCart[1] = 0.4 + 0.11 * xx[1][i1] + 0.01 * xx[0][i0]; xCart[2] = 0.3 + 0.12 * xx[2][i2];
}
void apply_bcs_inner_only(const commondata_struct *restrict commondata, const params_struct *restrict params, const bc_struct *restrict bcstruct, REAL *restrict gfs);
"""

NOBC = """
void apply_bcs_inner_only(const commondata_struct *restrict commondata, const params_struct *restrict params, const bc_struct *restrict bcstruct, REAL *restrict gfs) {}
"""

def sumn(it):
    t = ZERO
    for x in it:
        t = add(t, x)
    return t


def setup(key, cs, idcs, t4, cf, order=2, fdf=False, exact=None):
    import nrpy.c_function as cfc
    import nrpy.finite_difference  # noqa
    import nrpy.grid as gri
    import nrpy.params as par
    import nrpy.reference_metric as rm
    from nrpy.equations.general_relativity.BSSN_quantities import BSSN_quantities
    from nrpy.infrastructures.BHaH.BHaH_defines_h import register_BHaH_defines
    from nrpy.infrastructures.BHaH.general_relativity import ADM_Initial_Data_Reader__BSSN_Converter as adm
    from nrpy.infrastructures.BHaH.MoLtimestepping import MoL

    par.set_parval_from_str("Infrastructure", "BHaH")
    par.set_parval_from_str("fd_order", order)
    par.set_parval_from_str("EvolvedConformalFactor_cf", cf)
    nrpy_call(key, BSSN_quantities.__getitem__, cs)
    if t4:
        import nrpy.indexedexp as ixp

        gri.register_gridfunctions_for_single_rank2("T4UU", symmetry="sym01", dimension=4, group="AUXEVOL")
    rfm = rm.reference_metric[cs]
    for n in [f"Nxx{d}" for d in R3] + [f"Nxx_plus_2NGHOSTS{d}" for d in R3]:
        if n not in par.glb_code_params_dict:
            par.register_CodeParameter("int", "verif", n, 1)
    for n in ("invdxx0", "invdxx1", "invdxx2", "dxx0", "dxx1", "dxx2"):
        if n not in par.glb_code_params_dict:
            par.register_CodeParameter("REAL", "verif", n, 1.0)
    for t, n in (("int", "nn"), ("int", "nn_0"), ("REAL", "time"), ("REAL", "t_0"), ("REAL", "dt")):
        if n not in par.glb_code_params_dict:
            par.register_CodeParameter(t, "verif", n, 1, commondata=True)
    nrpy_call(key, bhah.quiet, MoL.register_CFunctions, MoL_method="RK4", rhs_string="", post_rhs_string="", enable_rfm_precompute=False, enable_curviBCs=False)
    register_BHaH_defines("after_general", "typedef struct { int dummy; } bc_struct;\n")
    if exact:
        nrpy_call(key, bhah.quiet, adm.register_CFunction_exact_ADM_ID_function, idcs, "IDx", *exact)
    nrpy_call(key, bhah.quiet, adm.register_CFunction_initial_data_reader__convert_ADM_Sph_or_Cart_to_BSSN, cs, IDCoordSystem=idcs, enable_T4munu=t4, enable_fd_functions=False, ID_persist_struct_str="int dummy;")
    unit = bhah.Unit(key=key, header_kw={"enable_rfm_precompute": False})
    names = [n for n in cfc.CFunction_dict if not n.startswith("MoL_")]
    src = unit.source(names, pre=EXTERN)
    err = cexec.syntax_check(src, ("-fopenmp",), unit.incdirs)
    STATS.obligations += 1
    if err:
        report(key + ":compile", f"{key}: initial data reader does not compile: {[l for l in err.splitlines() if 'error' in l][:2]}", {"gcc": err})
        return None
    reader = [n for n in names if n.startswith("initial_data_reader")][0]
    return unit, src, reader, rfm, cfc


def objs(ex):
    cd, p = bhah.structs(ex)
    return P(cd), P(p), p


def get(st, n):
    v = st.field(n).v
    return None if v is None else v.n


def num(pr, *ns):
    return [dag.mpmath.nstr(pr.sig(n)[0], 12) for n in ns]


class Bad(Exception):
    pass


def sci(x):
    return dag.mpmath.nstr(x, 17)


class Sym:
    """Runs the generated function symbolically."""

    def __init__(self, ex, pr):
        self.ex, self.pr = ex, pr

    def need(self, got, want, what):
        STATS.obligations += 1
        if got is None:
            raise Bad(f"{what} is not set")
        if not self.pr.equal(got, want):
            raise Bad(f"{what} is {num(self.pr, got)[0]} instead of {num(self.pr, want)[0]} at the sample point")

    def stage(self, fn, x, tin, tout, mid=None, stubs=None):
        """fn(commondata, params, xCart[, persist][, in], out) on symbolic inputs -> fields of out."""
        ex = self.ex
        cd, p, _ = objs(ex)
        for k, v in (stubs or {}).items():
            ex.stubs[k] = v
        args = [cd, p, P(bhah.darr(ex, x))]
        if mid:
            args.append(P(ex.newobj(ex.typedefs[mid], "mid")))
        if tin:
            i = ex.newobj(ex.typedefs[tin], "in")
            bhah.symbolic_struct(i, "d_")
            args.append(P(i))
        out = ex.newobj(ex.typedefs[tout], "out")
        ex.call(fn, args + [P(out)])
        return lambda n: get(out, n) if n in out.t.fields else None

    def lam(self, n, ng, nevol, var, xval):
        ex = self.ex
        cd, p, pst = objs(ex)
        for d in R3:
            pst.field(f"Nxx_plus_2NGHOSTS{d}").v = S(INT, C(n))
            if f"Nxx{d}" in pst.t.fields:
                pst.field(f"Nxx{d}").v = S(INT, C(1))
        gfs = cexec.Arr(ex, DBL, "gfs", nevol * n**3)
        for k in range(nevol * n**3):
            gfs.conc[k] = S(DBL, var(*divmod(k, n**3)))
        xx = cexec.Arr(ex, cexec.T("ptr", elem=DBL), "xx", 3)
        for d in R3:
            xx.conc[d] = P(bhah.darr(ex, xval[d]))
        ex.call("initial_data_lambdaU_grid_interior", [cd, p, P(xx), P(gfs)])
        return lambda k: gfs.conc[k].n

    def linear(self, got, want, what, vs):
        """Both sides are linear in vs: coefficient by coefficient."""
        zero = {v.a[0]: ZERO for v in vs}
        for v in vs:
            self.need(diff(got, v.a[0], {}), diff(want, v.a[0], {}), f"coefficient of {v.a[0]} in {what}")
        self.need(dag.subst(got, zero), dag.subst(want, zero), f"{what} without derivatives")


class Conc(Sym):
    """Runs the same function compiled, at the prover's first sample point."""

    def __init__(self, ex, pr, unit, src):
        super().__init__(ex, pr)
        self.unit, self.src = unit, src

    def need(self, got, want, what):
        if got is None:
            raise Bad(f"{what} is not set")
        a, b = self.pr.sig(got)[0], self.pr.sig(want)[0]
        if not dag.close(a, b, 1e-7):
            raise Bad(f"{what} is {dag.mpmath.nstr(a, 12)} instead of {dag.mpmath.nstr(b, 12)}")

    def val(self, n):
        return sci(self.pr.sig(n)[0])

    def scalars(self, t, pre, var):
        st = self.ex.newobj(self.ex.typedefs[t], "t")
        o = ""
        for f in st.t.fields:
            c = st.field(f)
            if isinstance(c, cexec.Cell) and c.t.k in ("int", "flt"):
                v = V(pre + f) if f not in ("PI", "SQRT1_2") else V("M_PI") if f == "PI" else root(C(dag.Fraction(1, 2)), 2)
                o += f"  {var}.{f} = {self.val(v)};\n"
        return o, st

    def stage(self, fn, x, tin, tout, mid=None, stubs=None):
        t = self.src + EXT_C % tuple(self.val(V(f"xx{k}")) for k in R3) + OTHER_C + NOBC
        a, _ = self.scalars("commondata_struct", "cd.", "cd")
        b, _ = self.scalars("params_struct", "", "pp")
        t += "int main(void) {\n  static commondata_struct cd; static params_struct pp;\n" + a + b
        t += f"  const REAL x[3] = {{{', '.join(self.val(q) for q in x)}}};\n"
        args = "&cd, &pp, x"
        if mid:
            t += f"  static {mid} mid;\n"
            args += ", &mid"
        if tin:
            c, _ = self.scalars(tin, "d_", "in")
            t += f"  static {tin} in;\n" + c
            args += ", &in"
        st = self.ex.newobj(self.ex.typedefs[tout], "t")
        fl = [f for f in st.t.fields if isinstance(st.field(f), cexec.Cell) and st.field(f).t.k == "flt"]
        t += f"  static {tout} out;\n  memset(&out, 255, sizeof(out));\n  {fn}({args}, &out);\n"
        t += "".join(f'  printf("{f} %.17g\\n", out.{f});\n' for f in fl) + "  return 0;\n}\n"
        r = bhah.crun(self.unit, t)
        vals = {}
        for l in (r or "").splitlines():
            w = l.split()
            if len(w) == 2 and w[0] in fl:
                vals[w[0]] = None if "nan" in w[1] or "inf" in w[1] else C(dag.Fraction(float(w[1])))
        if len(vals) != len(fl):
            raise Inconclusive("replay: " + str(r)[:300])
        return vals.get

    def lam(self, n, ng, nevol, var, xval):
        a, _ = self.scalars("commondata_struct", "cd.", "cd")
        b, _ = self.scalars("params_struct", "", "pp")
        tot = nevol * n**3
        t = self.src + EXT_C % ("0", "0", "0") + OTHER_C + NOBC + "int main(void) {\n  static commondata_struct cd; static params_struct pp;\n" + a + b
        t += "".join(f"  pp.Nxx_plus_2NGHOSTS{d} = {n}; pp.Nxx{d} = 1;\n" for d in R3)
        t += f"  static REAL g[{tot}] = {{{', '.join(self.val(var(*divmod(k, n**3))) for k in range(tot))}}};\n"
        for d in R3:
            t += f"  REAL x{d}[{n}] = {{{', '.join(self.val(q) for q in xval[d])}}};\n"
        t += f'  REAL *xx[3] = {{x0, x1, x2}};\n  initial_data_lambdaU_grid_interior(&cd, &pp, xx, g);\n  for (int k = 0; k < {tot}; k++) printf("%.17g\\n", g[k]);\n  return 0;\n}}\n'
        r = (bhah.crun(self.unit, "#include <stdio.h>\n" + t) or "").split()
        if len(r) != tot:
            raise Inconclusive("replay: " + " ".join(r)[:300])
        return lambda k: C(dag.Fraction(float(r[k])))

    def linear(self, got, want, what, vs):
        self.need(got, want, what)


def names2(pre, sym=SYM):
    return {(i, j): f"{pre}{min(i, j)}{max(i, j)}" for i in range(4) for j in range(4) if (min(i, j), max(i, j)) in sym}


# ------------------------------------------------------------------ the three conversions
def sphorcart(M, idcs, t4):
    """Contracting the Cartesian tensors with the Jacobian of the ID basis gives back the data."""
    pr = M.pr
    stubs = {}
    if idcs == "Cartesian":
        X = [V("X"), V("Y"), V("Z")]
        J = [[ONE if i == a else ZERO for a in R3] for i in R3]
    else:
        r, th, ph = V("r"), V("th"), V("ph")
        st, ct, sp_, cp = dag.fn("sin", th), dag.fn("cos", th), dag.fn("sin", ph), dag.fn("cos", ph)
        X = [mul(r, mul(st, cp)), mul(r, mul(st, sp_)), mul(r, ct)]
        J = [[mul(st, cp), mul(r, mul(ct, cp)), neg(X[1])], [mul(st, sp_), mul(r, mul(ct, sp_)), X[0]], [ct, neg(mul(r, st)), ZERO]]

        def match(name, table):
            def go(_e, _n, a):
                n = a[0].n
                for arg, val in table:
                    if pr.equal(n, arg):
                        return S(DBL, val)
                raise Inconclusive(f"unexpected argument of {name}")

            return go

        rs = mul(r, st)
        stubs["sqrt"] = match("sqrt", [(ipow(r, 2), r), (ipow(rs, 2), rs)])
        stubs["acos"] = match("acos", [(ct, th)])

        def at2(_e, _n, a):
            y, x = a[0].n, a[1].n
            if pr.equal(y, X[1]) and pr.equal(x, X[0]):
                return S(DBL, ph)
            if pr.equal(y, rs) and pr.equal(x, X[2]):
                return S(DBL, th)
            raise Inconclusive("unexpected arguments of atan2")

        stubs["atan2"] = at2
    get_ = M.stage("ADM_SphorCart_to_Cart", X, "initial_data_struct", "ADM_Cart_basis_struct", stubs=stubs)
    M.need(get_("alpha"), V("d_alpha"), "the lapse")
    for n, src in (("betaU", "betaSphorCartU"), ("BU", "BSphorCartU")):
        for i in R3:
            M.need(get_(f"{n}{i}"), sumn(mul(J[i][a], V(f"d_{src}{a}")) for a in R3), f"Cartesian {n}{i}")
    for n, src in (("gammaDD", "gammaSphorCartDD"), ("KDD", "KSphorCartDD")):
        g = names2(n)
        for ij in SYM:
            M.need(get_(g[ij]), get_(g[ij]), f"Cartesian {g[ij]}")
        for a, b in SYM:
            M.need(sumn(mul(mul(J[i][a], J[j][b]), get_(g[i, j])) for i in R3 for j in R3), V(f"d_{src}{a}{b}"), f"Cartesian {n}, contracted to the data basis [{a}{b}],")
    if t4:
        J4 = [[(ONE if mu == nu else ZERO) if 0 in (mu, nu) else J[mu - 1][nu - 1] for nu in range(4)] for mu in range(4)]
        s = names2("d_T4SphorCartUU", SYM4)
        for mu, nu in SYM4:
            M.need(get_(f"T4UU{mu}{nu}"), sumn(mul(mul(J4[mu][a], J4[nu][b]), V(s[a, b])) for a in range(4) for b in range(4) if J4[mu][a] is not ZERO and J4[nu][b] is not ZERO), f"Cartesian T4UU{mu}{nu}")


def det3(g):
    m = lambda a, b, c, d: sub(mul(a, d), mul(b, c))
    return add(sub(mul(g[0][0], m(g[1][1], g[1][2], g[2][1], g[2][2])), mul(g[0][1], m(g[1][0], g[1][2], g[2][0], g[2][2]))), mul(g[0][2], m(g[1][0], g[1][1], g[2][0], g[2][1])))


def cof3(g):
    """inverse times determinant of a symmetric matrix"""
    r = [[None] * 3 for _ in R3]
    for i in R3:
        for j in R3:
            a, b = [k for k in R3 if k != i]
            c, d = [k for k in R3 if k != j]
            t = sub(mul(g[a][c], g[b][d]), mul(g[a][d], g[b][c]))
            r[i][j] = t if (i + j) % 2 == 0 else neg(t)
    return r


def admbssn(M, t4, cf):
    """gamma = e^{4 phi} gammabar with det gammabar = 1; K = e^{4 phi} Abar + gamma trK / 3; trK the trace."""
    get_ = M.stage("ADM_Cart_to_BSSN_Cart", [V("X"), V("Y"), V("Z")], "ADM_Cart_basis_struct", "BSSN_Cart_basis_struct")
    for n in ["alpha"] + [f"{v}U{i}" for v in ("beta", "B") for i in R3] + ([f"T4UU{i}{j}" for i, j in SYM4] if t4 else []):
        M.need(get_(n), V("d_" + n), n)
    g, k = names2("d_gammaDD"), names2("d_KDD")
    gam = [[V(g[i, j]) for j in R3] for i in R3]
    D = det3(gam)
    co = cof3(gam)
    psi4 = root(D, 3)
    trK = div(sumn(mul(co[i][j], V(k[i, j])) for i in R3 for j in R3), D)
    M.need(get_("trK"), trK, "trK")
    W = inv(root(D, 6))
    want = W if cf == "W" else inv(root(D, 3)) if cf == "chi" else mul(C(dag.Fraction(1, 12)), dag.fn("log", D))
    M.need(get_("cf"), want, f"the conformal factor {cf}")
    for i, j in SYM:
        M.need(get_(f"gammabarDD{i}{j}"), div(gam[i][j], psi4), f"gammabarDD{i}{j}")
        M.need(get_(f"AbarDD{i}{j}"), div(sub(V(k[i, j]), mul(mul(C(dag.Fraction(1, 3)), gam[i][j]), trK)), psi4), f"AbarDD{i}{j}")


def rescale(M, rfm, t4, cs):
    """The rescaled reference-metric components, unrescaled and contracted, are the Cartesian ones."""
    memo = {}
    f = lambda e: dag.from_sympy(sp.sympify(e), memo)
    xc = [f(e) for e in rfm.xx_to_Cart]
    J = [[diff(xc[i], f"xx{a}", {}) for a in R3] for i in R3]
    # scale factors of the orthogonal coordinates
    gh = [[sumn(mul(J[i][a], J[i][b]) for i in R3) for b in R3] for a in R3]
    sf = [f(s) for s in rfm.scalefactor_orthog]
    for a in R3:
        M.need(ipow(sf[a], 2), gh[a][a], f"squared scale factor {a}")
    calls = []

    def c2x(e, _n, a):
        calls.append([e.read(e.elem_obj(a[2].obj, add(a[2].off, C(k)))).n for k in R3])
        for k in R3:
            e.write(e.elem_obj(a[3].obj if isinstance(a[3], P) else a[3], C(k)), S(DBL, V(f"xx{k}")))

    XC = [V("X"), V("Y"), V("Z")]
    get_ = M.stage("BSSN_Cart_to_rescaled_BSSN_rfm", XC, "BSSN_Cart_basis_struct", "rescaled_BSSN_rfm_basis_struct", stubs={"Cart_to_xx_and_nearest_i0i1i2": c2x})
    for q in calls:
        STATS.obligations += 1
        if q != XC:
            raise Bad("the reference-metric coordinates are not those of the point")
    for n in ("alpha", "cf", "trK"):
        M.need(get_(n), V("d_" + n), n)
    for n, s in (("vetU", "betaU"), ("betU", "BU")):
        for i in R3:
            M.need(get_(f"{n}{i}"), get_(f"{n}{i}"), f"{n}{i}")
        for i in R3:
            M.need(sumn(mul(J[i][a], div(get_(f"{n}{a}"), sf[a])) for a in R3), V(f"d_{s}{i}"), f"{n}, taken back to the Cartesian basis [{i}],")
    # gammabarDD = ghatDD + ReDD hDD and AbarDD = ReDD aDD, so h and a are the contracted Cartesian tensors per scale factors
    for n, s, hat in (("hDD", "gammabarDD", True), ("aDD", "AbarDD", False)):
        nm = names2("d_" + s)
        for a, c in SYM:
            full = sumn(mul(mul(J[i][a], J[j][c]), V(nm[i, j])) for i in R3 for j in R3)
            got = get_(f"{n}{a}{c}")
            M.need(got, got, f"{n}{a}{c}")
            lhs = mul(mul(sf[a], sf[c]), got)
            M.need(add(lhs, gh[a][c]) if hat else lhs, full, f"{n}{a}{c}, unrescaled,")
    if t4:
        nm = names2("d_T4UU", SYM4)
        o = names2("T4UU", SYM4)
        J4 = [[(ONE if mu == nu else ZERO) if 0 in (mu, nu) else J[mu - 1][nu - 1] for nu in range(4)] for mu in range(4)]
        for mn in SYM4:
            M.need(get_(o[mn]), get_(o[mn]), o[mn])
        for mu, nu in SYM4:
            M.need(sumn(mul(mul(J4[mu][a], J4[nu][c]), get_(o[a, c])) for a in range(4) for c in range(4)), V(nm[mu, nu]), f"T4UU, taken back to the Cartesian basis [{mu}{nu}],")


# ------------------------------------------------------------------ lambda^i
def lam(M, rfm, order, slots, nevol):
    """lambda^i = gammabar^jk (Gammabar^i_jk - Gammahat^i_jk) / ReU with centred differences of hDD, at the one interior point."""
    ng = order // 2
    n = 2 * ng + 1
    nm = {v: k for k, v in slots.items()}
    var = lambda g, q: V(f"{nm[g]}@{q % n - ng},{q // n % n - ng},{q // n // n - ng}")
    xval = [[V(f"xx{d}") if q == ng else V(f"xx{d}_{q}") for q in range(n)] for d in R3]
    mid = ng + n * (ng + n * ng)
    after = M.lam(n, ng, nevol, var, xval)
    for k in range(nevol * n**3):
        g, q = divmod(k, n**3)
        if not (q == mid and nm[g].startswith("lambdaU")):
            M.need(after(k), var(g, q), f"{nm[g]} at point {q}, which the lambda^i kernel must not change,")
    memo = {}
    f = lambda e: dag.from_sympy(sp.sympify(e), memo)
    dm = [{}, {}, {}]
    d_ = lambda e, k: diff(e, f"xx{k}", dm[k])
    xc = [f(e) for e in rfm.xx_to_Cart]
    J = [[d_(xc[i], a) for a in R3] for i in R3]
    sf = [f(s) for s in rfm.scalefactor_orthog]
    hn = names2("hDD")
    h = [[V(f"{hn[i, j]}@0,0,0") for j in R3] for i in R3]
    st = [fdtv.stencil("dD", [k], order) for k in R3]

    def dh(i, j, k):
        t = ZERO
        for off, c in st[k].items() if isinstance(st[k], dict) else st[k]:
            o = off if isinstance(off, tuple) else tuple(off if d == k else 0 for d in R3)
            t = add(t, mul(C(c), V(f"{hn[i, j]}@{o[0]},{o[1]},{o[2]}")))
        return mul(t, V(f"invdxx{k}"))

    s2 = [ipow(x, 2) for x in sf]
    gb = [[add(s2[i] if i == j else ZERO, mul(mul(sf[i], sf[j]), h[i][j])) for j in R3] for i in R3]
    dgb = lambda i, j, k: add(add(d_(s2[i], k) if i == j else ZERO, mul(d_(mul(sf[i], sf[j]), k), h[i][j])), mul(mul(sf[i], sf[j]), dh(i, j, k)))
    ds2 = lambda i, j, k: d_(s2[i], k) if i == j else ZERO
    D = det3(gb)
    co = cof3(gb)
    gU = [[div(co[i][j], D) for j in R3] for i in R3]
    half = C(dag.Fraction(1, 2))
    for i in R3:
        t = ZERO
        for j in R3:
            for k in R3:
                gam = mul(half, sumn(mul(gU[i][l], sub(add(dgb(l, j, k), dgb(l, k, j)), dgb(j, k, l))) for l in R3))
                hat = mul(half, div(sub(add(ds2(i, j, k), ds2(i, k, j)), ds2(j, k, i)), s2[i]))
                t = add(t, mul(gU[j][k], sub(gam, hat)))
        got = after(slots[f"lambdaU{i}"] * n**3 + mid)
        M.linear(got, mul(t, sf[i]), f"lambdaU{i}", [V(f"{hn[a, b]}@{','.join(str(s_ * q if d == k else 0) for d in R3)}") for a, b in SYM for k in R3 for q in range(1, ng + 1) for s_ in (1, -1)])


# ------------------------------------------------------------------ the loop around them
LOOP_C = """
static long nbc = 0, where = -1;
static REAL *snap;
static long total;
void apply_bcs_inner_only(const commondata_struct *restrict commondata, const params_struct *restrict params, const bc_struct *restrict bcstruct, REAL *restrict gfs) {
  nbc++;
  memcpy(snap, gfs, sizeof(REAL) * total);
  for (long q = 0; q < total; q++) gfs[q] *= 1.0 + 1e-3 * (q %% 7);
}
static void verif_ID(const commondata_struct *restrict commondata, const params_struct *restrict params, const REAL xCart[3], const ID_persist_struct *restrict ID_persist, initial_data_struct *restrict out) {
  REAL *o = (REAL *)out;
  for (int k = 0; k < (int)(sizeof(*out) / sizeof(REAL)); k++) o[k] = 0.1 * sin(k + xCart[0] + 2 * xCart[1] + 3 * xCart[2]);
  out->gammaSphorCartDD00 += 2; out->gammaSphorCartDD11 += 3; out->gammaSphorCartDD22 += 4;
}
int main(void) {
  static commondata_struct cd; static params_struct pp; static bc_struct bc; static ID_persist_struct ps; static MoL_gridfunctions_struct gf;
%(init)s
  const long tot = (long)%(n0)d * %(n1)d * %(n2)d;
  total = tot * NUM_EVOL_GFS;
  REAL *y = malloc(sizeof(REAL) * total), *aux = malloc(sizeof(REAL) * tot * %(naux)d), *ref = malloc(sizeof(REAL) * total);
  snap = malloc(sizeof(REAL) * total);
  memset(y, 255, sizeof(REAL) * total); memset(aux, 255, sizeof(REAL) * tot * %(naux)d);
  gf.y_n_gfs = y; %(setaux)s
  REAL *xx[3]; int nn[3] = {%(n0)d, %(n1)d, %(n2)d};
  for (int d = 0; d < 3; d++) { xx[d] = malloc(sizeof(REAL) * nn[d]); for (int q = 0; q < nn[d]; q++) xx[d][q] = 0.7 + 0.3 * q + d; }
  %(reader)s(&cd, &pp, xx, &bc, &gf, &ps, verif_ID);
  if (nbc != 1) { printf("inner boundary conditions are applied %%ld times\\n", nbc); return 0; }
  for (long q = 0; q < tot; q++) {
    REAL xC[3]; initial_data_struct id; ADM_Cart_basis_struct A; BSSN_Cart_basis_struct B; rescaled_BSSN_rfm_basis_struct Cc;
    const int i0 = q %% nn[0], i1 = q / nn[0] %% nn[1], i2 = q / nn[0] / nn[1];
    xx_to_Cart(&cd, &pp, xx, i0, i1, i2, xC);
    verif_ID(&cd, &pp, xC, &ps, &id); ADM_SphorCart_to_Cart(&cd, &pp, xC, &id, &A); ADM_Cart_to_BSSN_Cart(&cd, &pp, xC, &A, &B); BSSN_Cart_to_rescaled_BSSN_rfm(&cd, &pp, xC, &B, &Cc);
%(checks)s
  }
  for (long q = 0; q < total; q++) ref[q] = snap[q] * (1.0 + 1e-3 * (q %% 7));
  initial_data_lambdaU_grid_interior(&cd, &pp, xx, ref);
  for (long q = 0; q < total; q++) if (!(fabs(ref[q] - y[q]) <= 1e-9 * (1 + fabs(ref[q])))) { printf("value %%ld of y_n_gfs after lambda^i: %%g instead of %%g\\n", q, y[q], ref[q]); return 0; }
  return 0;
}
"""


def loop_replay(ex, unit, src, reader, slots, aux, n):
    ck = ""
    for which, names in (("snap", slots), ("aux", {g: s for g, s in aux.items() if g.startswith("T4UU")})):
        for g, slot in names.items():
            w = "0.0" if g.startswith("lambdaU") else f"Cc.{g}"
            ck += f'    if (!(fabs({which}[{slot} * tot + q] - ({w})) <= 1e-9 * (1 + fabs({w})))) {{ printf("{g} at point (%d,%d,%d) is %g instead of %g\\n", i0, i1, i2, {which}[{slot} * tot + q], (double)({w})); return 0; }}\n'
    has = "auxevol_gfs" in ex.newobj(ex.typedefs["MoL_gridfunctions_struct"], "g").t.fields
    init = "".join(f"  pp.Nxx_plus_2NGHOSTS{d} = {n[d]}; pp.Nxx{d} = {n[d]} - 2 * NGHOSTS; pp.invdxx{d} = 1.5 + {d};\n" for d in R3)
    st = ex.newobj(ex.typedefs["params_struct"], "p")
    init += "".join(f"  pp.{f} = 1.0;\n" for f in st.t.fields if isinstance(st.field(f), cexec.Cell) and st.field(f).t.k == "flt" and not f.startswith("invdxx"))
    main_ = LOOP_C % {"init": init, "n0": n[0], "n1": n[1], "n2": n[2], "naux": max(1, len(aux)), "setaux": "gf.auxevol_gfs = aux;" if has else "", "reader": reader, "checks": ck}
    return bhah.crun(unit, src + EXT_C % ("0.7", "0.8", "0.9") + OTHER_C + main_, asan=True)


def plumbing(ex, reader, t4, slots, aux, n):
    tot = n[0] * n[1] * n[2]
    cd, p, pst = objs(ex)
    for d in R3:
        pst.field(f"Nxx_plus_2NGHOSTS{d}").v = S(INT, C(n[d]))
    obj = lambda a: a.obj if isinstance(a, P) else a
    arr3 = lambda e, a: [e.read(e.elem_obj(obj(a), C(k))).n for k in R3]

    def x2c(e, _n, a):
        if obj(a[2]) is not xx:
            raise Bad("xx_to_Cart is given another coordinate array")
        i = [x.n for x in a[3:6]]
        for k in R3:
            e.write(e.elem_obj(obj(a[6]), C(k)), S(DBL, dag.fn(f"cart{k}", *i)))

    tags = {}

    def stage(name, src):
        def go(e, _n, a):
            o = [obj(q) for q in a]
            if o[0] is not cd.obj or o[1] is not p.obj:
                raise Bad(f"{name} is given other commondata or params")
            pt = arr3(e, a[2])
            if src is None and o[3] is not pers:
                raise Bad("the data function is given another ID_persist struct")
            if src is not None:
                STATS.obligations += 1
                if tags.get(id(o[3])) != (src, [x.id for x in pt]):
                    raise Bad(f"{name} is not given the result of the step before it for this point")
            out = o[-1]
            for f in out.t.fields:
                v = out.field(f)
                if isinstance(v, cexec.Cell) and v.t.k == "flt":
                    v.v = S(DBL, dag.fn(f"{name}:{f}", *pt))
            tags[id(out)] = (name, [x.id for x in pt])
            keep.append(out)

        return go

    keep = []
    bc = ex.newobj(ex.typedefs["bc_struct"], "bc")
    pers = ex.newobj(ex.typedefs["ID_persist_struct"], "pers")
    gf = ex.newobj(ex.typedefs["MoL_gridfunctions_struct"], "gf")
    y = cexec.Arr(ex, DBL, "y", len(slots) * tot)
    au = cexec.Arr(ex, DBL, "aux", max(1, len(aux)) * tot)
    for f in gf.t.fields:
        gf.field(f).v = P(cexec.Arr(ex, DBL, f, 0))
    gf.field("y_n_gfs").v = P(y)
    if "auxevol_gfs" in gf.t.fields:
        gf.field("auxevol_gfs").v = P(au)
    xx = cexec.Arr(ex, cexec.T("ptr", elem=DBL), "xx", 3)
    for d in R3:
        xx.conc[d] = P(bhah.darr(ex, [V(f"xx{d}_{q}") for q in range(n[d])]))
    ex.stubs["xx_to_Cart"] = x2c
    ex.stubs["verif_ID"] = stage("I", None)
    ex.stubs["ADM_SphorCart_to_Cart"] = stage("A", "I")
    ex.stubs["ADM_Cart_to_BSSN_Cart"] = stage("B", "A")
    ex.stubs["BSSN_Cart_to_rescaled_BSSN_rfm"] = stage("C", "B")
    order = []

    def after(nm, extra):
        def go(e, _n, a):
            if obj(a[-1]) is not y or obj(a[0]) is not cd.obj or obj(a[1]) is not p.obj or obj(a[2]) is not extra:
                raise Bad(f"{nm} is given other arguments than the grid's")
            order.append((nm, len(y.conc)))

        return go

    ex.stubs["apply_bcs_inner_only"] = after("apply_bcs_inner_only", bc)
    ex.stubs["initial_data_lambdaU_grid_interior"] = after("initial_data_lambdaU_grid_interior", xx)
    ex.call(reader, [cd, p, P(xx), P(bc), P(gf), P(pers), S(cexec.T("func", name="verif_ID"), V("&verif_ID"))])
    full = len(slots) * tot
    STATS.obligations += 1
    if order != [("apply_bcs_inner_only", full), ("initial_data_lambdaU_grid_interior", full)]:
        raise Bad(f"after the loop: {order}, expected inner boundary conditions on all {full} values and then lambda^i")
    for which, arr, names in (("y_n_gfs", y, slots), ("auxevol_gfs", au, aux)):
        for g, slot in names.items():
            if which == "auxevol_gfs" and not (t4 and g.startswith("T4UU")):
                continue
            for q in range(tot):
                STATS.obligations += 1
                i = (q % n[0], q // n[0] % n[1], q // n[0] // n[1])
                got = arr.conc.get(slot * tot + q)
                pt = [dag.fn(f"cart{k}", *[C(x) for x in i]) for k in R3]
                want = ZERO if g.startswith("lambdaU") else dag.fn(f"C:{g}", *pt)
                if got is None or got.n is not want:
                    raise Bad(f"{g} at point {i} holds {dag.show(got.n) if got is not None else 'nothing'}")


def exactid(M, idcs, exact):
    """The data function returns the given expressions at the point."""
    X = [V("X"), V("Y"), V("Z")]
    get_ = M.stage("IDx", X, None, "initial_data_struct", mid="ID_persist_struct")
    alpha, beta, B, g, K = exact
    x, y, z = X
    r = root(add(add(ipow(x, 2), ipow(y, 2)), ipow(z, 2)), 2)
    pos = {"x": x, "y": y, "z": z} if idcs == "Cartesian" else {"r": r, "th": dag.fn("acos", div(z, r)), "ph": dag.fn("atan2", y, x)}
    pos.update({"xx0": pos.get("r"), "xx1": pos.get("th"), "xx2": pos.get("ph")})
    f = lambda e: dag.from_sympy(sp.sympify(e), None, lambda s: pos[s.name] if pos.get(s.name) is not None else V(s.name))
    M.need(get_("alpha"), f(alpha), "lapse")
    for i in R3:
        M.need(get_(f"betaSphorCartU{i}"), f(beta[i]), f"shift {i}")
        M.need(get_(f"BSphorCartU{i}"), f(B[i]), f"B {i}")
    for i, j in SYM:
        M.need(get_(f"gammaSphorCartDD{i}{j}"), f(g[i][j]), f"metric {i}{j}")
        M.need(get_(f"KSphorCartDD{i}{j}"), f(K[i][j]), f"extrinsic curvature {i}{j}")


def gfslots(unit):
    import re

    with open(unit.dir + "/BHaH_defines.h", encoding="utf-8") as f:
        t = f.read()
    import nrpy.grid as gri

    low = {g.upper(): g for g in gri.glb_gridfcs_dict}
    ev, ax = {}, {}
    for m in re.finditer(r"#define (\w+)GF (\d+)", t):
        g = low.get(m.group(1))
        if g is None:
            continue
        grp = gri.glb_gridfcs_dict[g].group
        if grp == "EVOL":
            ev[g] = int(m.group(2))
        elif grp == "AUXEVOL":
            ax[g] = int(m.group(2))
    return ev, ax


def generic_exact(idcs):
    q = sp.symbols("x y z" if idcs == "Cartesian" else "r th ph", real=True)
    m = 0

    def nxt():
        nonlocal m
        m += 1
        return q[m % 3] ** 2 * m + q[(m + 1) % 3] * (m + 2) + sp.Integer(m)

    sym = lambda: (lambda e: [[e[min(i, j), max(i, j)] for j in R3] for i in R3])({ij: nxt() for ij in SYM})
    return [nxt(), [nxt() for _ in R3], [nxt() for _ in R3], sym(), sym()]


def case(arg):
    kind, cs, idcs, t4, cf, order = arg
    key = f"idreader:{kind}:{cs}:{idcs}:{'T4' if t4 else 'vac'}:{cf}:{order}"
    encoded("initial_data_reader", "ADM_SphorCart_to_Cart", "ADM_Cart_to_BSSN_Cart", "BSSN_Cart_to_rescaled_BSSN_rfm", "initial_data_lambdaU_grid_interior")
    exact = generic_exact(idcs) if kind == "exact" else None
    st = setup(key, cs, idcs, t4, cf, order, exact=exact)
    if st is None:
        return
    unit, src, reader, rfm, _ = st
    try:
        ex = cexec.Exec(src, (), unit.incdirs)
        gd = {f"d_gamma{m}DD{i}{j}": dag.mpmath.mpf(2 + i if i == j else 0.1 * (i + j)) for m in ("", "SphorCart", "bar") for i, j in SYM}
        for i, j in SYM:
            gd[f"hDD{i}{j}@0,0,0"] = dag.mpmath.mpf(0.05 * (1 + i + 2 * j))
        pr = dag.Prover(timeout_ms=60000, env_fn=lambda k: {n: v * (1 + dag.mpmath.mpf(k) / 16) for n, v in gd.items()})
        ev, ax = gfslots(unit)

        def check(M):
            if kind == "basis":
                sphorcart(M, idcs, t4)
            elif kind == "bssn":
                admbssn(M, t4, cf)
            elif kind == "rescale":
                rescale(M, rfm, t4, cs)
            elif kind == "lambda":
                lam(M, rfm, order, ev, len(ev))
            else:
                exactid(M, idcs, exact)

        n = (3, 4, 5)
        try:
            if kind == "loop":
                plumbing(ex, reader, t4, ev, ax, n)
            else:
                check(Sym(ex, pr))
        except (Bad, cexec.ExecError) as e:
            bad = str(e)
            if kind == "loop":
                seen = loop_replay(ex, unit, src, reader, ev, {k: v for k, v in ax.items() if t4}, n)
            else:
                try:
                    check(Conc(ex, pr, unit, src))
                    seen = None
                except Bad as e2:
                    seen = str(e2)
            if not seen:
                raise Inconclusive(f"{key}: {bad}: the compiled code does not show it") from e
            if "does not compile" in seen:
                raise Inconclusive(seen) from e
            report(key, f"{key}: {bad}; compiled: {seen}", {})
        sample({"case": key})
    finally:
        rmtree(unit.dir)


def main():
    ck = Check(
        "P23",
        "other",
        assumptions=["the three-metric is positive definite; xx_to_Cart and its inverse are right (P15); real arithmetic"],
        bounds="every value of the ADM data, position and parameters; one grid of 3x4x5 points for the loop, one interior point for lambda^i at orders 2 and 4",
        explanation="The reader's C functions are executed symbolically; the stored variables, taken back to ADM variables with an independent Jacobian, must be the given data: z3 proves each identity for all values",
    )
    cases = []
    A = lambda *a: cases.append(("_".join(map(str, a)), case, a))
    for t4 in (False, True):
        for idcs in ("Spherical", "Cartesian"):
            A("basis", "Cartesian", idcs, t4, "W", 2)
            A("loop", "Spherical", idcs, t4, "W", 2)
    for cf in ("W", "chi", "phi"):
        A("bssn", "Cartesian", "Cartesian", cf == "W", cf, 2)
    SYS = ["Cartesian", "SinhCartesian", "Spherical", "SinhSpherical", "Cylindrical", "SinhCylindrical", "SymTP"]
    for cs in SYS if QUICK else SYS + ["SinhSphericalv2n2", "SinhCylindricalv2n2", "HoleySinhSpherical"]:
        A("rescale", cs, "Cartesian", cs in ("Spherical", "Cylindrical"), "W", 2)
    for cs in ("Cartesian", "Spherical") if QUICK else ("Cartesian", "Spherical", "Cylindrical"):
        A("lambda", cs, "Cartesian", False, "W", 2)
    A("lambda", "Cartesian", "Cartesian", False, "W", 4)
    for idcs in ("Spherical", "Cartesian"):
        A("exact", "Spherical", idcs, False, "W", 2)
    ck.run(cases, timeout=600)
    ck.finish()


if __name__ == "__main__":
    main()
