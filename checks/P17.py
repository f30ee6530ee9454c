"""P17: generated radiation (Sommerfeld) boundary conditions impose the outgoing-wave condition at every outer point."""
from vlib import bhah, cbc, cexec, dag, fdtv
from vlib.core import QUICK, STATS, Check, Inconclusive, encoded, report, rmtree, sample
from vlib.dag import C, V, add, inv, ipow, mul, neg, sub

R3 = range(3)
INT, DBL, S = cexec.INT, cexec.DBL, cexec.S


def make_bc(ex, g, inn, out):
    """bc_struct holding exactly the oracle's inner and outer points."""
    bc = ex.newobj(ex.typedefs["bc_struct"], "bcstruct")
    info = bc.field("bc_info")
    info.field("num_inner_boundary_points").v = S(INT, C(len(inn)))
    et = bc.t.fields["inner_bc_array"].elem
    a = cexec.Arr(ex, et, "inner", max(1, len(inn)))
    for k, (d, (s, par)) in enumerate(inn.items()):
        e = ex.elem_obj(a, C(k))
        put(e, "dstpt", d)
        put(e, "srcpt", s)
        for q, v in enumerate(par):
            o = ex.elem_obj(e.field("parity"), C(q))
            ex.write(o, S(INT, C(v)))
    bc.field("inner_bc_array").v = cexec.P(a, dag.ZERO)
    for lay in range(g.NG):
        for d in R3:
            pts = [(i, f) for i, (l2, d2, f) in out.items() if (l2, d2) == (lay, d)]
            n = ex.elem_obj(ex.elem_obj(info.field("num_pure_outer_boundary_points"), C(lay)), C(d))
            ex.write(n, S(INT, C(len(pts))))
            ot = bc.t.fields["pure_outer_bc_array"].elem.elem
            b = cexec.Arr(ex, ot, f"outer{lay}{d}", max(1, len(pts)))
            for k, (i, f) in enumerate(pts):
                e = ex.elem_obj(b, C(k))
                for q in R3:
                    put(e, f"i{q}", i[q])
                    put(e, f"FACEX{q}", f[q])
            o = ex.elem_obj(bc.field("pure_outer_bc_array"), C(d + 3 * lay))
            ex.write(o, cexec.P(b, dag.ZERO))
    return bc


def equal(pr, a, b, names, memo):
    """a == b; while both are affine in a set of named variables, coefficient by coefficient."""
    if a is b:
        STATS.obligations += 1
        return True
    if not names:
        done = memo.setdefault("eq", {})
        k = (a.id, b.id)
        if k not in done:
            # one proof per pattern: coordinates renamed in order of direction and index
            m = memo.setdefault("norm", {})
            ren = {}
            for v in sorted((v for v in dag.variables([a, b]) if v[0] == "x"), key=lambda v: (v[1], int(v[3:]))):
                ren[v] = V(f"y{v[1]}_{sum(w[1] == v[1] for w in ren)}")
            a, b = dag.subst(a, ren), dag.subst(b, ren)
            k2 = (a.id, b.id, "renamed")
            if k2 not in done:
                done[k2] = (pr.numeric_equal(a, b) and pr._poly(a, b, "full")) or pr.equal(dag.norm(a, m), dag.norm(b, m))
            done[k] = done[k2]
        return done[k]
    m = memo.setdefault(len(names), {})
    la, lb = dag.linear(a, names[0], m), dag.linear(b, names[0], m)
    if la is None or lb is None:
        return equal(pr, a, b, names[1:], memo)
    return all(equal(pr, la.get(k, dag.ZERO), lb.get(k, dag.ZERO), names[1:], memo) for k in {**la, **lb})


def summarise(ex, g, r, J):
    """Helpers computing r and dx^i/dr from the coordinates: proved once, then replaced by opaque values.

    Recognised by what they compute (scalar coordinates in, the four values out), not by name.
    """
    opaque = [dag.fn("rfm_r", *[V(f"xx{d}") for d in R3])] + [q if dag.isc(q) else dag.fn(f"rfm_J{d}", *[V(f"xx{d}") for d in R3]) for d, q in enumerate(J)]
    pr = dag.Prover()
    hit = False
    for name, f in list(ex.funcs.items()):
        ps = f.decl.type.args.params if f.decl.type.args else []
        kinds = [kind(q) for q in ps]
        x = [k for k, q in enumerate(kinds) if q == "flt"]
        o = [k for k, q in enumerate(kinds) if q == "flt*"]
        st = [k for k, q in enumerate(kinds) if q in ("commondata_struct*", "params_struct*")]
        if len(x) != 3 or not o or len(x) + len(o) + len(st) != len(kinds):
            continue
        args = []
        outs = bhah.darr(ex, [V(f"junk{k}") for k in range(len(o))])
        for k, q in enumerate(kinds):
            args.append(S(DBL, V(f"xx{x.index(k)}")) if q == "flt" else cexec.P(outs, C(o.index(k))) if q == "flt*" else cexec.P(g.c if q[0] == "c" else g.p))
        try:
            ex.call(name, args)
        except (cexec.ExecError, Inconclusive):
            continue
        which = []
        for k in range(len(o)):
            v = ex.read(ex.elem_obj(outs, C(k))).n
            for w, op in zip([r] + J, opaque):
                if v is w or (pr.numeric_equal(v, w) and pr.equal(dag.norm(v), dag.norm(w))):
                    which.append(op)
                    break
        if len(which) != len(o):
            continue
        STATS.obligations += len(o)

        def stub(ex2, _n, a, x=x, o=o, which=which):
            m = {f"xx{d}": a[x[d]].n for d in R3}
            for k, w in zip(o, which):
                ex2.write(ex2.elem_obj(a[k].obj, a[k].off) if isinstance(a[k].obj, cexec.Arr) else a[k].obj, S(DBL, dag.subst(w, m)))

        ex.stubs[name] = stub
        hit = True
    return (opaque[0], opaque[1:]) if hit else None


def kind(p):
    t, stars = getattr(p, "type", None), 0
    while t is not None and type(t).__name__ == "PtrDecl":
        t, stars = t.type, stars + 1
    names = getattr(getattr(t, "type", None), "names", [])
    n = names[-1] if names else "?"
    return ("flt" if n in ("REAL", "double", "float") else n) + "*" * stars


def put(e, f, v):
    o = e.field(f)
    o.v = S(o.t, C(v))


def offset(i, M, rad, face):
    """Centre of the derivative stencil: shifted off the face, and always inside the grid."""
    if i < rad:
        return rad - i
    if i > M - rad - 1:
        return M - rad - 1 - i
    return face


def dr(g, f, i, face, order, J, x):
    """Radial derivative of the gridfunction values f (dict by index) at point i."""
    rad = order // 2
    r = dag.ZERO
    for d in R3:
        if J[d] is dag.ZERO:
            continue
        o = offset(i[d], g.M[d], rad, face[d])
        pts = [q + o for q in range(-rad, rad + 1)]
        s = dag.ZERO
        for q, w in zip(pts, fdtv.lagrange(pts, 1)):
            if w:
                j = list(i)
                j[d] += q
                assert 0 <= j[d] < g.M[d]
                s = add(s, mul(C(w), f[g.idx(tuple(j))]))
        r = add(r, mul(at(J[d], x, i), mul(s, V(f"invdxx{d}"))))
    return r


def at(n, x, i):
    return dag.subst(n, {f"xx{k}": x[k][i[k]] for k in R3})


def case(arg):
    systems, cs, N, NG, order = arg
    few = NG > 1
    key = f"rad:{cs}:{'x'.join(map(str, N))}:NG{NG}:o{order}" + (":multi" if len(systems) > 1 else "")
    encoded("apply_bcs_outerradiation_and_inner (generated, with its static functions)", "apply_bcs_inner_only (generated)")
    unit, src, ex = cbc.register(key, systems, NG, order, few)
    if ex is None:
        return
    try:
        body(key, unit, src, ex, cs, N, NG, 2 * NG if order == -1 else order, few)
    finally:
        rmtree(unit.dir)


def body(key, unit, src, ex, cs, N, NG, order, few):
    import nrpy.reference_metric as refmetric

    g = cbc.Grid(ex, cs, N, NG, exact=False)
    inn, out = g.oracle()
    x = [[V(f"x{d}_{k}") for k in range(g.M[d])] for d in R3]
    for d in R3:
        g.xx.conc[d] = cexec.P(bhah.darr(ex, x[d]), dag.ZERO)
        for f in (f"dxx{d}", f"invdxx{d}", f"xxmin{d}", f"xxmax{d}"):
            if f in g.p.t.fields:
                g.p.field(f).v = S(DBL, V(f))
    bc = make_bc(ex, g, inn, out)
    rfm = refmetric.reference_metric[cs]
    r = dag.from_sympy(rfm.xxSph[0])
    J = [dag.from_sympy(rfm.Jac_dUrfm_dDSphUD[d][0]) for d in R3]
    par = {"PI": V("M_PI"), "SQRT1_2": dag.root(C(dag.Fraction(1, 2)), 2)}
    r, J = dag.subst(r, par), [dag.subst(q, par) for q in J]
    rJ = summarise(ex, g, r, J)
    light = rJ is None
    rJ = rJ or (r, J)
    if light and (NG > 1 or cs == "SinhCylindricalv2n2"):
        sample({"case": key, "skipped": "no helper computing r and dx^i/dr found; decided on NGHOSTS=1 grids only"})
        return
    n = g.M[0] * g.M[1] * g.M[2]
    names = cbc.cfc_gfs(few)
    ngf = len(names)
    speed = [V(f"speed{a}") for a in range(ngf)]
    finf = [V(f"finf{a}") for a in range(ngf)]
    F = [V(f"f{k}") for k in range(n * ngf)]
    H = [V(f"rhs{k}") for k in range(n * ngf)]
    fa, ha = bhah.darr(ex, F), bhah.darr(ex, H)
    pr = dag.Prover()
    memo, lin = {}, [{v.a[0] for v in F + H + finf}, {v.a[0] for v in speed}, {f"invdxx{d}" for d in R3}]

    def run():
        ex.call("apply_bcs_outerradiation_and_inner", [cexec.P(g.c), cexec.P(g.p), cexec.P(bc), cexec.P(g.xx), cexec.P(bhah.darr(ex, speed)), cexec.P(bhah.darr(ex, finf)), cexec.P(fa), cexec.P(ha)])
        for a, nm in enumerate(names):
            gf = int(ex.call("verif_gf", [S(INT, C(a))]).n.a[0])
            got = [ex.read(ex.elem_obj(ha, C(gf * n + k))).n for k in range(n)]
            bad = compare(gf, nm, got)
            if bad:
                return bad
        for k, v in enumerate(F):
            if ex.read(ex.elem_obj(fa, C(k))).n is not v:
                return f"input gridfunction element {k} is overwritten"
        return None

    def want(i, face, gf, h, r, J):
        """Expected rhs at i, given the rhs at its inward neighbour."""
        f = dict(enumerate(F[gf * n : (gf + 1) * n]))
        j = tuple(i[d] + face[d] for d in R3)
        c, fi = speed[gf], finf[gf]
        ri, rj = at(r, x, i), at(r, x, j)

        def wave(p, rp):
            return neg(mul(c, add(dr(g, f, p, face, order, J, x), mul(sub(f[g.idx(p)], fi), inv(rp)))))

        k = mul(ipow(rj, 3), sub(h[g.idx(j)], wave(j, rj)))
        return add(wave(i, ri), mul(k, inv(ipow(ri, 3))))

    def compare(gf, nm, got):
        for lay in range(NG):
            for d in R3:
                for i, (l2, d2, face) in out.items():
                    if (l2, d2) == (lay, d):
                        w = want(i, face, gf, got, *rJ)
                        if not equal(pr, got[g.idx(i)], w, lin, memo):
                            return f"{nm} at outer point {i} is {dag.show(got[g.idx(i)])}, expected {dag.show(w)}"
        for k, (s, p) in inn.items():
            STATS.obligations += 1
            w = mul(C(p[cbc.parity_type(nm)]), got[s])
            if got[k] is not w and not pr.equal(got[k], w):
                return f"{nm} at inner point {k} is {dag.show(got[k])}, expected {dag.show(w)}"
        done = set(inn) | {g.idx(i) for i in out}
        for k in range(n):
            if k not in done:
                STATS.obligations += 1
                if got[k] is not H[gf * n + k]:
                    return f"{nm} at interior point {k} is overwritten"
        return None

    try:
        bad = run()
    except (cexec.ExecError, cexec.ExitCalled) as e:
        bad = f"{type(e).__name__}: {e}"
    sample({"case": key, "inner": len(inn), "outer": len(out)})
    if bad:
        rep = replay(unit, src, g, inn, out, x, r, J, order, want, speed, finf, F, H, n, names)
        if rep:
            report(key, f"{key}: {bad}; compiled: {rep}", {"solver": str(bad)})
            return
        raise Inconclusive(f"{key}: {bad} (compiled code agrees)")


def replay(unit, src, g, inn, out, x, r, J, order, want, speed, finf, F, H, n, names):
    """Numbers: compiled code on a bc_struct holding the same points, against the formula in Python."""
    env = {}

    def val(v):
        nm = v.a[0]
        if nm not in env:
            h = sum((q + 3) * ord(ch) for q, ch in enumerate(nm)) * 7919 % 10007
            env[nm] = 0.4 + h / 10007.0
        return env[nm]

    t = "\n#include <stdio.h>\nint main() {\n  commondata_struct cd; memset(&cd, 0, sizeof cd); bc_struct bc; memset(&bc, 0, sizeof bc); commondata_struct_set_to_default(&cd); griddata_struct gd[1]; memset(gd, 0, sizeof gd); cd.NUMGRIDS = 1; params_struct_set_to_default(&cd, gd); params_struct p = gd[0].params;\n"
    t += f"  p.CoordSystem_hash = {g.cs.upper()};\n"
    for d in R3:
        t += f"  p.Nxx{d} = {g.N[d]}; p.Nxx_plus_2NGHOSTS{d} = {g.M[d]}; p.dxx{d} = {1 / val(V(f'invdxx{d}'))!r}; p.invdxx{d} = {val(V(f'invdxx{d}'))!r};\n"
        for k in range(g.M[d]):
            env[f"x{d}_{k}"] = 0.31 + 0.05 * (k + 1) * (1 + 0.3 * d)
        t += f"  double x{d}[] = {{{', '.join(repr(env[v.a[0]]) for v in x[d])}}};\n"
    for f in g.p.t.fields:
        if f in ("PI", "SQRT1_2") or f.startswith(("Nxx", "dxx", "invdxx", "xxmin", "xxmax", "Coord", "grid")):
            continue
        if any(f in dag.variables([q]) for q in [r] + J):
            t += f"  p.{f} = {val(V(f))!r};\n"
    t += "  double *xx[3] = {x0, x1, x2};\n"
    t += f"  static innerpt_bc_struct in[] = {{{', '.join('{%d,%d,{%s}}' % (k, s, ','.join(map(str, p))) for k, (s, p) in inn.items()) or '{0}'}}}; bc.inner_bc_array = in; bc.bc_info.num_inner_boundary_points = {len(inn)};\n"
    for lay in range(g.NG):
        for d in R3:
            pts = [i + f for i, (l2, d2, f) in out.items() if (l2, d2) == (lay, d)]
            t += f"  static outerpt_bc_struct o{lay}{d}[] = {{{', '.join('{%d,%d,%d,%d,%d,%d}' % q for q in pts) or '{0}'}}}; bc.pure_outer_bc_array[{d + 3 * lay}] = o{lay}{d}; bc.bc_info.num_pure_outer_boundary_points[{lay}][{d}] = {len(pts)};\n"
    for nm, vs in (("sp", speed), ("fi", finf), ("f", F), ("h", H)):
        t += f"  static double {nm}[] = {{{', '.join(repr(val(v)) for v in vs)}}};\n"
    t += f'  apply_bcs_outerradiation_and_inner(&cd, &p, &bc, xx, sp, fi, f, h);\n  for (int k = 0; k < {n * len(names)}; k++) printf("%.17e\\n", h[k]);\n'
    t += '  printf("gf %d\\n", verif_NGF()); for (int a = 0; a < verif_NGF(); a++) printf("%d\\n", verif_gf(a)); return 0; }\n'
    o = bhah.crun(unit, src + t, asan=True)
    if o is None or "\ngf " not in o:
        return o or "no output"
    vals, tail = o.split("gf ")
    vals = [float(v) for v in vals.split()]
    idx = [int(v) for v in tail.split()[1:]]
    pr = dag.Prover()
    for a, nm in enumerate(names):
        gf = idx[a]
        h = dict(enumerate(H[gf * n : (gf + 1) * n]))
        for lay in range(g.NG):
            for d in R3:
                for i, (l2, d2, face) in out.items():
                    if (l2, d2) == (lay, d):
                        h[g.idx(i)] = want(i, face, gf, h, r, J)
        for k, (s, p) in inn.items():
            h[k] = mul(C(p[cbc.parity_type(nm)]), h[s])
        vs = dag.evaluate(list(h.values()), {k: dag.mpmath.mpf(v) for k, v in env.items()})
        for k, q in h.items():
            w = float(vs[q.id].real)
            if not abs(vals[gf * n + k] - w) <= 1e-8 * (1 + abs(w)):
                return f"{nm} at element {k} is {vals[gf * n + k]!r}, expected {w!r}"
    del pr
    return None


def main():
    ck = Check(
        "P17",
        "translation_validation",
        assumptions=["exact real arithmetic; r nonzero", "the boundary lists are the geometric ones (decided by P16)", "r and its Jacobian are those of the reference metric (decided by P13)"],
        bounds="grids of 2 to 4 points per direction, NGHOSTS 1 to 3, radiation order 2, 4, 6 and the default; all coordinates, parameters, wave speeds, asymptotic values, gridfunctions and right-hand sides symbolic",
        explanation="The generated function runs on symbolic gridfunctions; at each outer point, in processing order, z3 decides that the stored value is the outgoing-wave condition with the 1/r^3 correction and the derivative stencil derived independently from moment equations, then that inner points are parity copies and everything else is untouched",
    )
    cases = []
    for cs in cbc.SYSTEMS:
        cases.append((cs + "_2", case, ([cs], cs, (2, 2, 2), 1, 2)))
        if not QUICK or cs in ("Spherical", "SinhSpherical", "SinhCylindrical", "Cartesian"):
            cases.append((cs + "_4", case, ([cs], cs, (2, 2, 2), 2, 4)))
    cases.append(("Cartesian_def", case, (["Cartesian"], "Cartesian", (3, 2, 2), 2, -1)))
    cases.append(("Cartesian_NG2_2", case, (["Cartesian"], "Cartesian", (2, 2, 3), 2, 2)))
    cases.append(("Spherical_6", case, (["Spherical"], "Spherical", (2, 3, 4), 3, 6)))
    cases.append(("multi", case, (["Spherical", "SinhCylindrical", "Cartesian"], "SinhCylindrical", (2, 2, 2), 1, 2)))
    ck.run(cases, timeout=700 if QUICK else 7200)
    ck.finish()


if __name__ == "__main__":
    main()
