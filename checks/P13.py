"""P13: reference-metric quantities are those of the flat metric in the given coordinates."""
import itertools

import sympy as sp

from vlib import dag
from vlib.core import QUICK, STATS, Check, Inconclusive, encoded, nrpy_call, report, sample
from vlib.dag import C, V, add, diff, mul

SYSTEMS = ["Spherical", "SinhSpherical", "SinhSphericalv2n2", "SinhSphericalv2n4", "HoleySinhSpherical", "RingHoleySinhSpherical", "Cartesian", "SinhCartesian", "Cylindrical", "SinhCylindrical", "SinhCylindricalv2n2", "SinhCylindricalv2n4", "SymTP", "SinhSymTP", "LWedgeHSinhSph", "UWedgeHSinhSph"]
R3 = range(3)


def flat(t):
    if isinstance(t, (list, tuple)):
        for i, x in enumerate(t):
            for idx, v in flat(x):
                yield (i,) + idx, v
    else:
        yield (), t


GENERIC = ("SinhSymTP", "SinhCylindricalv2n2", "SinhCylindricalv2n4")
FIRST = ("ghatDD", "scalefactor", "UnitVectors", "ReU", "ReD", "ReDD", "detgammahat", "xxSph", "Jac_dUCart_dDrfmUD", "freevars")


def generic_class():
    """ReferenceMetric with an arbitrary (undefined) radial function in place of the sinh profiles."""
    import nrpy.reference_metric as rm

    class G(rm.ReferenceMetric):
        def Sinhv1(self, x, AMPL, SINHW):
            return sp.Function(f"F{AMPL}")(x)

        def Sinhv2(self, x, AMPL, SINHW, slope):
            return sp.Function(f"F{AMPL}")(x)

    return G


class Ctx:
    def __init__(self, cs, key, generic=False):
        import nrpy.reference_metric as rm

        self.key = key
        self.cs = cs
        self.generic = generic
        # sinh profiles with many exponentials: direct form to first order, everything for a generic profile
        self.only = FIRST if cs in GENERIC and not generic else None
        if generic:
            G = generic_class()
            self.rfm = nrpy_call(key, G, cs, enable_rfm_precompute=False)
            self.pre = lambda: nrpy_call(key, G, cs, enable_rfm_precompute=True)
        else:
            self.rfm = nrpy_call(key, rm.reference_metric.__getitem__, cs)
            self.pre = lambda: nrpy_call(key, rm.reference_metric.__getitem__, cs + "_rfm_precompute")
        self.memo = {}
        self.dm = [{}, {}, {}]
        self.chain, self.amemo = {}, {}
        self.pr = dag.Prover(timeout_ms=60000)
        self.failed = set()

    def generic_ok(self):
        return any(isinstance(a, sp.core.function.AppliedUndef) for e in self.rfm.xx_to_Cart for a in sp.preorder_traversal(sp.sympify(e)))

    def f(self, e):
        e = sp.sympify(e)
        if self.generic:
            rule = {}
            for d in e.atoms(sp.Derivative):
                rule[d] = sp.Symbol(f"{d.args[0].func.__name__}__{d.args[0].args[0]}__{sum(int(v[1]) for v in d.args[1:])}")
            e = e.xreplace(rule)
            e = e.xreplace({a: sp.Symbol(f"{a.func.__name__}__{a.args[0]}__0") for a in e.atoms(sp.core.function.AppliedUndef)})
            for sy in e.free_symbols:
                w = sy.name.split("__")
                if len(w) == 3 and sy.name.startswith("F"):
                    self.chain[sy.name] = lambda var, w=w: self._next(var, w)
        return dag.abstract_exp(dag.from_sympy(sp.sympify(e), self.memo), self.chain, self.amemo)

    def _next(self, var, w):
        if var != w[1]:
            return dag.ZERO
        nm = f"{w[0]}__{w[1]}__{int(w[2]) + 1}"
        w2 = nm.split("__")
        self.chain[nm] = lambda v, w=w2: self._next(v, w)
        return V(nm)

    def d(self, n, k):
        return diff(n, f"xx{k}", self.dm[k], self.chain)

    def eq(self, tag, got, want, what):
        if tag in self.failed or (self.only and tag not in self.only):
            return
        if not self.pr.equal(got, want):
            self.failed.add(tag)
            pt = {str(n.a[0]): float(self.pr.envs[0].get(n.a[0], 0)) for n in dag.topo([got, want]) if n.op == "v"}
            report(f"{self.key}:{tag}", f"{self.cs}: {what} (at {pt}: {dag.mpmath.nstr(self.pr.sig(got)[0], 12)} instead of {dag.mpmath.nstr(self.pr.sig(want)[0], 12)})", {"point": pt, "got": dag.show(got), "want": dag.show(want)})

    def tensor(self, name, want, what):
        if self.only and name not in self.only:
            return
        for idx, e in flat(getattr(self.rfm, name)):
            self.eq(name, self.f(e), want(*idx), f"{name}{list(idx)} {what}")


def sumn(it):
    t = dag.ZERO
    for x in it:
        t = add(t, x)
    return t


def case(arg):
    cs, generic = arg
    c = Ctx(cs, f"rfm:{cs}{':generic' if generic else ''}", generic)
    if generic and not c.generic_ok():
        c = Ctx(cs, f"rfm:{cs}")
        c.only = None
    encoded("ReferenceMetric.__init__", "cartesian_like", "spherical_like", "cylindrical_like", "prolate_spheroidal_like", "spherical_wedge_like", "Sinhv1", "Sinhv2")
    r = c.rfm
    cart = [c.f(e) for e in r.xx_to_Cart]
    J = [[c.d(x, j) for j in R3] for x in cart]
    g = [[c.f(e) for e in row] for row in r.ghatDD]
    gu = [[c.f(e) for e in row] for row in r.ghatUU]
    h = [c.f(e) for e in r.scalefactor_orthog]
    c.tensor("ghatDD", lambda i, j: sumn(mul(J[a][i], J[a][j]) for a in R3), "is not the flat metric pulled back by xx_to_Cart")
    for i, j in itertools.product(R3, R3):
        c.eq("ghatUU", sumn(mul(gu[i][k], g[k][j]) for k in R3), C(int(i == j)), f"ghatUU ghatDD != 1 at [{i}][{j}]")
    det = c.f(r.detgammahat)
    c.eq("detgammahat", det, mul(mul(g[0][0], g[1][1]), g[2][2]), "detgammahat is not det(ghatDD)")
    c.tensor("detgammahatdD", lambda i: c.d(det, i), "is not the derivative of detgammahat")
    c.tensor("detgammahatdDD", lambda i, j: c.d(c.d(det, i), j), "is not the second derivative of detgammahat")
    c.tensor("ghatDDdD", lambda i, j, k: c.d(g[i][j], k), "is not the derivative of ghatDD")
    c.tensor("ghatDDdDD", lambda i, j, k, l: c.d(c.d(g[i][j], k), l), "is not the second derivative of ghatDD")
    for i in R3:
        c.eq("scalefactor", mul(h[i], h[i]), g[i][i], f"scalefactor_orthog[{i}]^2 != ghatDD[{i}][{i}]")
        for a in R3:
            c.eq("UnitVectors", mul(c.f(r.UnitVectors[i][a]), h[i]), J[a][i], f"UnitVectors[{i}][{a}] is not the unit vector along coordinate {i}")
    c.tensor("ReU", lambda i: dag.inv(h[i]), "is not 1/scale factor")
    c.tensor("ReD", lambda i: h[i], "is not the scale factor")
    c.tensor("ReDD", lambda i, j: mul(h[i], h[j]), "is not the product of scale factors")
    for nm, base in (("ReU", lambda i: dag.inv(h[i])), ("ReD", lambda i: h[i])):
        c.tensor(nm + "dD", lambda i, j, b=base: c.d(b(i), j), f"is not the derivative of {nm}")
        c.tensor(nm + "dDD", lambda i, j, k, b=base: c.d(c.d(b(i), j), k), f"is not the second derivative of {nm}")
    c.tensor("ReDDdD", lambda i, j, k: c.d(mul(h[i], h[j]), k), "is not the derivative of ReDD")
    c.tensor("ReDDdDD", lambda i, j, k, l: c.d(c.d(mul(h[i], h[j]), k), l), "is not the second derivative of ReDD")
    # Christoffel symbols of a flat metric: dCart^a/dxx^l Gamma^l_jk = d2 Cart^a / dxx^j dxx^k
    G = [[[c.f(r.GammahatUDD[l][j][k]) for k in R3] for j in R3] for l in R3]
    for a, j, k in itertools.product(R3, R3, R3):
        c.eq("GammahatUDD", sumn(mul(J[a][l], G[l][j][k]) for l in R3), c.d(J[a][j], k), f"GammahatUDD[.][{j}][{k}] is not the Christoffel symbol of the flat metric")
    c.tensor("GammahatUDDdD", lambda i, j, k, l: c.d(G[i][j][k], l), "is not the derivative of GammahatUDD")
    # Jacobians
    c.tensor("Jac_dUCart_dDrfmUD", lambda a, j: J[a][j], "is not dCart/dxx")
    Ji = [[c.f(e) for e in row] for row in r.Jac_dUrfm_dDCartUD]
    for a, b in itertools.product(R3, R3):
        c.eq("Jac_dUrfm_dDCartUD", sumn(mul(J[a][l], Ji[l][b]) for l in R3), C(int(a == b)), f"Jac_dUrfm_dDCartUD is not the inverse Jacobian ([{a}][{b}])")
    # spherical coordinates of the same point (about the wedge axis for the wedge systems)
    rr, th, ph = [c.f(e) for e in r.xxSph]
    x, y, z = cart
    if cs == "UWedgeHSinhSph":
        x, y, z = z, y, dag.neg(x)
    elif cs == "LWedgeHSinhSph":
        x, y, z = dag.neg(z), y, x
    st, ct, sf, cf = dag.fn("sin", th), dag.fn("cos", th), dag.fn("sin", ph), dag.fn("cos", ph)
    pos = cs in ("Cartesian", "SinhCartesian", "Cylindrical", "SinhCylindrical", "SinhCylindricalv2n2", "SinhCylindricalv2n4", "SymTP", "SinhSymTP")
    c.eq("xxSph", mul(rr, ct), z, "xxSph is not the spherical coordinates of xx_to_Cart (z)")
    c.eq("xxSph", mul(rr, rr), sumn(mul(q, q) for q in (x, y, z)), "xxSph[0] is not the distance from the origin")
    if pos:
        c.eq("xxSph", mul(mul(rr, rr), mul(st, st)), add(mul(x, x), mul(y, y)), "xxSph[1] is not the polar angle")
        c.eq("xxSph", mul(sf, x), mul(cf, y), "xxSph[2] is not the azimuth")
    else:
        c.eq("xxSph", mul(rr, mul(st, cf)), x, "xxSph is not the spherical coordinates of xx_to_Cart (x)")
        c.eq("xxSph", mul(rr, mul(st, sf)), y, "xxSph is not the spherical coordinates of xx_to_Cart (y)")
    sph = [rr, th, ph]
    c.tensor("Jac_dUSph_dDrfmUD", lambda i, j: c.d(sph[i], j), "is not dSph/dxx")
    Js = [[c.f(e) for e in row] for row in r.Jac_dUSph_dDrfmUD]
    Jsi = [[c.f(e) for e in row] for row in r.Jac_dUrfm_dDSphUD]
    for a, b in itertools.product(R3, R3):
        c.eq("Jac_dUrfm_dDSphUD", sumn(mul(Js[a][l], Jsi[l][b]) for l in R3), C(int(a == b)), f"Jac_dUrfm_dDSphUD is not the inverse Jacobian ([{a}][{b}])")
    sample({"CoordSystem": cs, "obligations": STATS.obligations})


PRE = ["detgammahat", "ReU", "ReD", "ReDD", "ghatDD", "ghatUU", "detgammahatdD", "detgammahatdDD", "ReUdD", "ReUdDD", "ReDdD", "ReDdDD", "ReDDdD", "ReDDdDD", "ghatDDdD", "ghatDDdDD", "GammahatUDD", "GammahatUDDdD"]


def pre_case(arg):
    """With the precomputed functions replaced by their definitions, every quantity equals the direct one."""
    cs, generic = arg
    c = Ctx(cs, f"rfm_precompute:{cs}{':generic' if generic else ''}", generic)
    if generic and not c.generic_ok():
        c = Ctx(cs, f"rfm_precompute:{cs}")
        c.only = None
    encoded("ReferenceMetric.__init__(enable_rfm_precompute)", "make_replacements")
    p = c.pre()
    env = {}
    for base in ("f0_of_xx0", "f1_of_xx1", "f2_of_xx0", "f3_of_xx2", "f4_of_xx1"):
        e = c.f(getattr(p, base))
        k = int(base[-1])
        env[base] = e
        for n in (1, 2, 3):
            try:
                e = c.d(e, k)
            except Inconclusive:
                break
            env[f"{base}__{'D' * n}{str(k) * n}"] = e
    known = set(env)
    for nm in PRE:
        if QUICK and generic and cs == "SinhSymTP" and nm in ("ReUdDD", "ReDdDD", "ReDDdDD", "ghatDDdDD", "GammahatUDDdD", "detgammahatdDD"):
            continue  # minutes of solver time; thorough tier only (SymTP covers the same code in the quick tier)
        want = dict(flat(getattr(c.rfm, nm)))
        memo = {}
        for idx, e in flat(getattr(p, nm)):
            n = c.f(e)
            left = {v for v in dag.variables([n]) if "_of_xx" in str(v)} - known
            STATS.obligations += 1
            if left:
                report(f"{c.key}:{nm}:undefined", f"{cs}: precompute form of {nm}{list(idx)} uses {left}, which have no definition", {})
                continue
            c.eq(nm, dag.subst(n, env, memo), c.f(want[idx]), f"precompute form of {nm}{list(idx)} differs from the direct form")
    # the table of definitions exported for the precompute infrastructure
    for s, v in zip(getattr(p, "freevars_uniq_xx_indep", []), getattr(p, "freevars_uniq_vals", [])):
        if str(s) in env:
            c.eq("freevars", c.f(v), env[str(s)], f"definition of {s} in the precompute table is wrong")
        elif sp.sympify(s) != sp.sympify(v):
            c.eq("freevars", c.f(v), c.f(s), f"coordinate-independent entry {s} of the precompute table is wrong")
    sample({"CoordSystem": cs, "precompute": True})


def main():
    ck = Check(
        "P13",
        "other",
        assumptions=["real-number semantics", "coordinate-singular points (zero scale factor) excluded: divisors nonzero"],
        bounds="all 16 coordinate systems (v2n for n=2,4); all coordinates and parameter values, symbolic",
        explanation="the sympy expressions the ReferenceMetric constructor builds are translated to a DAG, differentiated independently, and z3 proves each flat-space identity (pullback metric, inverse, Christoffels from second derivatives of xx_to_Cart, unit vectors, Jacobians, derivative tables, precompute form = direct form)",
    )
    cases = [("pre_" + s, pre_case, (s, False)) for s in SYSTEMS] + [(s, case, (s, False)) for s in SYSTEMS]
    cases += [(f"pre_{s}_generic", pre_case, (s, True)) for s in GENERIC] + [(f"{s}_generic", case, (s, True)) for s in GENERIC]
    heavy = [x for x in cases if "SymTP" in x[0]]
    ck.run(heavy + [x for x in cases if x not in heavy])
    ck.finish()


if __name__ == "__main__":
    main()
