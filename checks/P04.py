"""P04: finite-difference operators are exact on polynomials up to the advertised order."""
import sympy as sp

from vlib import cexec, dag, fdtv
from vlib.core import QUICK, Check, Inconclusive, encoded, nrpy_call, report, rmtree, sample, scratch
from vlib.dag import C, V

OPS1 = ["dD", "dDD", "dKOD", "dupD", "ddnD", "dfullupD", "dfulldnD"]


def poly_value(coefs, offs):
    """p(offset) for a polynomial with symbolic coefficients {exponents: node}."""
    r = dag.ZERO
    for ex, c in coefs.items():
        t = c
        for o, e in zip(offs, ex):
            if e:
                t = dag.mul(t, C(o**e))
        r = dag.add(r, t)
    return r


def spec(op, dirs, n):
    """(coefficients of the test polynomial, expected value in units of the grid spacing)."""
    names = {}

    def v(ex):
        return names.setdefault(ex, V("p_" + "_".join(map(str, ex))))

    if len(dirs) == 2 and dirs[0] != dirs[1]:
        for k in range(n + 1):
            for l in range(n + 1):
                e = [0, 0, 0]
                e[dirs[0]], e[dirs[1]] = k, l
                v(tuple(e))
        e = [0, 0, 0]
        e[dirs[0]] = e[dirs[1]] = 1
        return names, names[tuple(e)]
    deg = {"dD": n, "dDD": n + 1, "dKOD": n + 1, "dupD": n, "ddnD": n, "dfullupD": n, "dfulldnD": n}[op]
    d = dirs[0]
    others = [k for k in range(3) if k != d]
    for k in range(deg + 1):
        e = [0, 0, 0]
        e[d] = k
        v(tuple(e))
        for o in others:  # dependence on the other coordinates must not leak in
            e2 = list(e)
            e2[o] = 1 + k % 2
            v(tuple(e2))
    e1 = [0, 0, 0]
    if op == "dKOD":
        return names, dag.ZERO
    if op == "dDD":
        e1[d] = 2
        return names, dag.mul(C(2), names[tuple(e1)])
    e1[d] = 1
    return names, names[tuple(e1)]


def reach(op, n):
    """Largest |offset| allowed (ghost zones)."""
    h = n // 2
    return {"dD": (h, h), "dDD": (h, h), "dKOD": (h + 1, h + 1), "dupD": (h - 1, h + 1), "ddnD": (h + 1, h - 1), "dfullupD": (0, n), "dfulldnD": (n, 0)}[op]


def dirsets(op):
    if op == "dDD":
        return [(a, b) for a in range(3) for b in range(3)]
    return [(a,) for a in range(3)]


def coeff_case(arg):
    n, ops = arg
    import nrpy.finite_difference as fin

    encoded("nrpy.finite_difference.compute_fdcoeffs_fdstencl", "nrpy.finite_difference.setup_FD_matrix__return_inverse_lowlevel")
    pr = dag.Prover()
    for op in ops:
        for dirs in dirsets(op):
            name = op + "".join(map(str, dirs))
            key = f"coeff:{name}:{n}"
            cs, st = nrpy_call(key, fin.compute_fdcoeffs_fdstencl, name, n)
            check_stencil(pr, key, op, dirs, n, [(tuple(int(x) for x in s), c) for c, s in zip(cs, st)], len(cs) == len(st))


def check_stencil(pr, key, op, dirs, n, terms, samelen=True):
    if not samelen:
        report(key + ":len", f"{key}: numbers of coefficients and stencil points differ", {})
        return
    coefs, want = spec(op, dirs, n)
    got = dag.ZERO
    for off, c in terms:
        got = dag.add(got, dag.mul(C(sp.Rational(c)) if not isinstance(c, dag.N) else c, poly_value(coefs, off)))
    if not pr.equal(got, want):
        bad = [e for e in coefs if sum(sp.Rational(c) * sp.prod([sp.Integer(o) ** k for o, k in zip(off, e)]) for off, c in terms) != (0 if dag_coeff(want, coefs[e]) is None else dag_coeff(want, coefs[e]))]
        report(key + ":exact", f"{op} in direction {dirs} at order {n} is not exact on the monomial with exponents {bad[:1]}", {"terms": [(o, str(c)) for o, c in terms], "monomials": bad})
    lo, hi = reach(op, n)
    for off, _ in terms:
        for d in range(3):
            l, h = (lo, hi) if d in dirs else (0, 0)
            if not -l <= off[d] <= h:
                report(key + ":reach", f"{op} order {n} reads offset {off}, outside the {max(lo, hi)} ghost zones it may use", {"terms": [(o, str(c)) for o, c in terms]})
                return
    if op == "dKOD":
        # damping of the shortest mode (-1)^i: exactly -1/dx
        s = dag.ZERO
        for off, c in terms:
            s = dag.add(s, dag.mul(C(sp.Rational(c)), C((-1) ** off[dirs[0]])))
        if not pr.equal(s, C(-1)):
            report(key + ":damp", f"dKOD order {n}: response to the checkerboard mode is {s}, expected -1", {"terms": [(o, str(c)) for o, c in terms]})


def dag_coeff(node, var):
    if node is var:
        return 1
    if node.op == "*" and node.a[1] is var:
        return sp.Rational(str(node.a[0].a[0]))
    return None


def code_case(arg):
    """The C text generated for each single operator, executed on polynomial grid data."""
    n, infra, fdf = arg
    import nrpy.finite_difference as fin
    import nrpy.grid as gri
    import nrpy.params as par
    from nrpy.c_codegen import c_codegen

    encoded("nrpy.c_codegen.c_codegen(enable_fd_codegen) (generated C)", "nrpy.finite_difference.proto_FD_operators_to_sympy_expressions")
    par.set_parval_from_str("Infrastructure", infra)
    par.set_parval_from_str("fd_order", n)
    gri.register_gridfunctions("uu")
    d = scratch("fd_")
    hdr = fdtv.bhah_header(d, False) if infra == "BHaH" else ""
    pr = dag.Prover()
    for op in ["dD", "dDD", "dKOD", "dupD", "ddnD"]:
        for dirs in dirsets(op):
            if op == "dDD" and dirs[0] > dirs[1]:
                continue
            name = op + "".join(map(str, dirs))
            key = f"code:{infra}:{int(fdf)}:{name}:{n}"
            sym = sp.Symbol(f"uu_{name}", real=True)
            vec = [sp.Integer(1)] * 3 if op == "dupD" else [sp.Integer(-1)] * 3 if op == "ddnD" else sp.Symbol("unset")
            if op == "ddnD":
                sym = sp.Symbol(f"uu_dupD{dirs[0]}", real=True)
            code = nrpy_call(key, c_codegen, [sym], ["out[0]"], enable_fd_codegen=True, enable_fd_functions=fdf, upwind_control_vec=vec)
            pre = fin.construct_FD_functions_prefunc() if fdf else ""
            H = fdtv.Harness(infra, [("uu", "EVOL")], ["invdxx0", "invdxx1", "invdxx2"], code, pre, False, hdr, [d])
            err = cexec.syntax_check(H.source(), ("-U__SSE2__",), H.incdirs)
            if err:
                report(key + ":compile", f"generated code for {sym} at order {n} does not compile: {err.splitlines()[0][:160]}", {"code": code, "gcc": err})
                continue
            ex, mems, out, _ = H.run()
            coefs, want = spec(op, dirs, n)
            for x in dirs:
                want = dag.mul(want, V(f"invdxx{x}"))
            got = ex.read(ex.elem_obj(out, dag.ZERO)).n
            # the grid data are values of the polynomial
            sub = {}
            N = {"i0": 40, "i1": 40, "i2": 40, "N0": 101, "N1": 103, "N2": 107}
            for m in mems.values():
                for nm, idx in m.idx.items():
                    lin = int(dag.evaluate([idx], N)[idx.id])
                    slot = lin // (101 * 103 * 107)
                    off = (lin % 101 - 40, lin // 101 % 103 - 40, lin // (101 * 103) % 107 - 40)
                    if slot != 0:
                        report(key + ":slot", f"{sym}: reads gridfunction slot {slot}", {"code": code})
                    sub[nm] = poly_value(coefs, off)
            got = dag.subst(got, sub)
            if not pr.equal(got, want):
                # replay: compiled code on a concrete polynomial
                rep = replay(H, coefs, want)
                if rep is None:
                    raise Inconclusive(f"{key}: counterexample not reproduced")
                report(key + ":exact", f"generated C for {sym} at order {n} returns {rep[0]!r} instead of {rep[1]!r} on a polynomial of the advertised degree", {"code": code, "replay": rep})
    rmtree(d)


def replay(H, coefs, want):
    from vlib import tv

    N = (21, 22, 23)
    pt = (9, 9, 9)
    for t in range(4):
        env = {}
        for k, (e, v) in enumerate(sorted(coefs.items())):
            env[v.a[0]] = ((k * 7 + t * 3) % 5 - 2) * 0.25 / (2.0 ** sum(e))
        inv = {"invdxx0": 2.0, "invdxx1": 3.0, "invdxx2": 5.0}
        data = []
        for k in range(N[2]):
            for j in range(N[1]):
                for i in range(N[0]):
                    o = (i - pt[0], j - pt[1], k - pt[2])
                    data.append(sum(env[v.a[0]] * o[0] ** e[0] * o[1] ** e[1] * o[2] ** e[2] for e, v in coefs.items()))
        s = H.source() + "void kern_0(const double *in, double *outp) { kern(" + ", ".join(["in"] * len(H.arrays())) + f", outp, {pt[0]},{pt[1]},{pt[2]},{N[0]},{N[1]},{N[2]},2.0,3.0,5.0); }}\n"
        got = tv.run_real(s, 0, data, 1, ("-U__SSE2__", "-U__AVX__", "-U__AVX512F__"), H.incdirs)[0]
        exp = float(dag.evaluate([want], {**env, **inv})[want.id])
        if abs(got - exp) > 1e-6 * (1 + abs(exp)):
            return got, exp, env
    return None


def main():
    ck = Check(
        "P04",
        "bounded_symbolic",
        assumptions=["real-number semantics (no rounding)"],
        bounds="orders 2..12 (16 thorough) for the stencil tables, 2..8 (10 thorough) for generated C; every operator and direction; all polynomials of the advertised degree (symbolic coefficients), all grid spacings",
        explanation="stencils come from running the real code; grid data are polynomials with symbolic coefficients; z3 decides exactness for all coefficients and spacings",
    )
    cases = []
    for n in range(2, 13 if QUICK else 17, 2):
        cases.append((f"coeff_{n}_a", coeff_case, (n, ["dD", "dDD"])))
        cases.append((f"coeff_{n}_b", coeff_case, (n, ["dKOD", "dupD", "ddnD", "dfullupD", "dfulldnD"])))
    for n in (2, 4, 6, 8) if QUICK else (2, 4, 6, 8, 10):
        for infra in ("BHaH", "ETLegacy", "CarpetX"):
            for fdf in (False, True):
                cases.append((f"code_{n}_{infra}_{int(fdf)}", code_case, (n, infra, fdf)))
    ck.run(cases)
    ck.finish()


if __name__ == "__main__":
    main()
