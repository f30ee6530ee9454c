"""P07: tensor declarations, symmetries, symmetry axes, matrix inverses, Levi-Civita."""
import itertools

import sympy as sp

from vlib import dag
from vlib.core import QUICK, STATS, Check, Inconclusive, encoded, nrpy_call, report, sample
from vlib.dag import C, V

z3 = dag.z3


def parse_sym(s):
    """Symmetry string -> list of (sign, index tuple)."""
    out = []
    for p in s.split("_"):
        if p == "nosym":
            continue
        sign, idx = (1, p[3:]) if p.startswith("sym") else (-1, p[4:])
        out.append((sign, tuple(int(c) for c in idx)))
    return out


def flat(t, rank):
    if rank == 0:
        yield (), t
        return
    for i, x in enumerate(t):
        for idx, v in flat(x, rank - 1):
            yield (i,) + idx, v


SYMS = {
    1: [None],
    2: [None, "nosym", "sym01", "anti01"],
    3: [None, "nosym", "sym01", "sym02", "sym12", "anti01", "anti02", "anti12", "sym012", "anti012"],
    4: [None, "nosym"]
    + [s + p for s in ("sym", "anti") for p in ("01", "02", "03", "12", "13", "23", "012", "123", "0123")]
    + [a + "01_" + b + "23" for a in ("sym", "anti") for b in ("sym", "anti")]
    + ["sym02_sym13", "anti03_sym12", "sym03_anti12", "anti02_anti13"],
}


def equal(pr, key, got, want, what, detail):
    try:
        ok = pr.equal(got, want)
    except Inconclusive:
        raise
    if not ok:
        report(key, what, dict(detail, got=dag.show(got), want=dag.show(want)))
    return ok


def declare_case(arg):
    rank, dim, name, sym = arg
    import nrpy.indexedexp as ixp

    key = f"declare:{name}:{rank}:{dim}:{sym}"
    encoded("declare_indexedexp", "create_tensor_symbolic", f"symmetrize_rank{rank}", f"declarerank{rank}")
    fnd = getattr(ixp, f"declarerank{rank}")
    kw = {} if sym is None else dict(symmetry=sym)
    T = nrpy_call(key, fnd, name, dimension=dim, **kw)
    pr = dag.Prover()
    val = {}
    for idx, v in flat(T, rank):
        val[idx] = dag.from_sympy(sp.sympify(v))
    STATS.obligations += 1
    if sorted(val) != sorted(itertools.product(range(dim), repeat=rank)):
        report(key + ":shape", f"declarerank{rank}({name!r}, dimension={dim}) has the wrong shape", {})
        return
    groups = parse_sym(sym) if sym else []
    # component table as a function of symbolic indices
    I = [z3.Int(f"i{p}") for p in range(rank)]
    rng = [z3.And(x >= 0, x < dim) for x in I]

    def table(f, ix):
        e = z3.RealVal(0)
        for idx in sorted(val):
            e = z3.If(z3.And(*[x == c for x, c in zip(ix, idx)]), f(idx), e)
        return e

    comp = {idx: pr.z([v], "full")[0] for idx, v in val.items()}
    comp = {idx: z3.ToReal(v) if z3.is_int(v) else v for idx, v in comp.items()}

    def fail(m, what):
        idx = tuple(m.eval(x, model_completion=True).as_long() for x in I)
        report(key, f"declarerank{rank}({name!r}, symmetry={sym!r}, dimension={dim}): {what} at index {idx}: component is {dag.show(val[idx])}", {"index": idx})

    T0 = table(lambda i: comp[i], I)
    # 1. canonical components are the symbols named after their indices
    canon = [z3.And(I[a] < I[b]) if sg < 0 else z3.And(I[a] <= I[b]) for sg, g in groups for a, b in zip(g, g[1:])]
    name_t = table(lambda i: pr.z([V(name + "".join(map(str, i)))], "full")[0], I)
    qs = [(rng + canon + [T0 != name_t], "the independent component is not the symbol named after its indices")]
    # 2. swapping two indices of a group multiplies by its sign
    for sg, g in groups:
        for a, b in itertools.combinations(g, 2):
            J = list(I)
            J[a], J[b] = I[b], I[a]
            qs.append((rng + [table(lambda i: comp[i], J) != sg * T0], f"swapping indices {a} and {b} does not multiply by {sg}"))
    for cs, what in qs:
        STATS.obligations += 1
        r, m = pr._check(cs)
        if r == z3.sat:
            fail(m, what)
            return
        if r != z3.unsat:
            raise Inconclusive(key)
    sample({"call": f"declarerank{rank}({name!r}, symmetry={sym!r}, dimension={dim})", "components": len(val)})


def axes_case(arg):
    axes, name, rank, sym, dim, nd = arg
    import nrpy.indexedexp as ixp
    import nrpy.params as par

    key = f"axes:{axes}:{name}:{rank}:{sym}:{dim}"
    encoded("zero_out_derivatives_across_symmetry_axes", "declare_indexedexp")
    fnd = getattr(ixp, f"declarerank{rank}")
    kw = {} if sym is None else dict(symmetry=sym)
    base = nrpy_call(key, fnd, name, dimension=dim, **kw)
    base = {i: dag.from_sympy(sp.sympify(v)) for i, v in flat(base, rank)}
    par.set_parval_from_str("symmetry_axes", axes)
    T = nrpy_call(key, fnd, name, dimension=dim, **kw)
    par.set_parval_from_str("symmetry_axes", "")
    pr = dag.Prover()
    for idx, v in flat(T, rank):
        dead = nd and any(str(i) in axes for i in idx[rank - nd :])
        want = dag.ZERO if dead else base[idx]
        if not equal(pr, key, dag.from_sympy(sp.sympify(v)), want, f"symmetry_axes={axes!r}: component {idx} of declarerank{rank}({name!r}, symmetry={sym!r}) is {v}, expected {dag.show(want)}", {}):
            return


def leibniz(m):
    n = len(m)
    t = dag.ZERO
    for p in itertools.permutations(range(n)):
        inv = sum(1 for a in range(n) for b in range(a + 1, n) if p[a] > p[b])
        x = C(-1 if inv % 2 else 1)
        for i in range(n):
            x = dag.mul(x, m[i][p[i]])
        t = dag.add(t, x)
    return t


def inv_case(arg):
    kind, n = arg
    import nrpy.indexedexp as ixp

    key = f"inverse:{kind}:{n}"
    f = getattr(ixp, f"{kind}_matrix_inverter{n}x{n}")
    encoded(f"{kind}_matrix_inverter{n}x{n}")
    a = [[sp.Symbol(f"a{min(i,j) if kind=='symm' else i}{max(i,j) if kind=='symm' else j}", real=True) for j in range(n)] for i in range(n)]
    inv, det = nrpy_call(key, f, a)
    pr = dag.Prover()
    A = [[dag.from_sympy(x) for x in r] for r in a]
    D = dag.from_sympy(sp.sympify(det))
    memo = {}
    I = [[dag.from_sympy(sp.sympify(x), memo) for x in r] for r in inv]
    equal(pr, key + ":det", D, leibniz(A), f"{kind}_matrix_inverter{n}x{n}: determinant is not the determinant", {"det": str(det)[:300]})
    for i in range(n):
        for j in range(n):
            # A^-1 = adj(A)/det: compare the entry times det(A) with the cofactor
            minor = [[A[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
            cof = dag.mul(C((-1) ** (i + j)), leibniz(minor) if n > 1 else dag.ONE)
            # (entry)*det = cofactor wherever det != 0
            num, den = pr.rationalize(I[i][j])
            if not equal(pr, key + ":inv", dag.mul(num, leibniz(A)), dag.mul(cof, den), f"{kind}_matrix_inverter{n}x{n}: entry [{i}][{j}] is not that of the inverse", {"entry": str(inv[i][j])[:500]}):
                return
            # the only denominator is the determinant
            t = pr.equal(den, leibniz(A)) or pr.equal(den, C(1))
            if not t:
                zn = dag.sub(dag.mul(I[i][j], leibniz(A)), cof)
                pr.equal(zn, dag.ZERO)
    # singular matrices are refused (zero determinant as an expression)
    STATS.obligations += 1
    s = [[sp.sympify(0)] * n for _ in range(n)]
    for k in range(n):
        s[k] = [sp.sympify(0) if (k == n - 1 or c == n - 1) else (sp.Symbol(f"b{min(k,c)}{max(k,c)}")) for c in range(n)]
    try:
        f(s)
        report(key + ":singular", f"{kind}_matrix_inverter{n}x{n} accepts a matrix with a zero row", {})
    except ixp.NonInvertibleMatrixError:
        pass
    # composite entries: the inverse of a matrix of expressions is the same function of the entries
    sub = {x: sp.Symbol(f"u{k}") * sp.Symbol("w") + sp.Rational(k + 1, 3) for k, x in enumerate(sorted({x for r in a for x in r}, key=str))}
    inv2, det2 = nrpy_call(key, f, [[x.subs(sub) for x in r] for r in a])
    equal(pr, key + ":composite", dag.from_sympy(sp.sympify(det2)), dag.from_sympy(sp.sympify(det).subs(sub)), f"{kind}_matrix_inverter{n}x{n}: determinant wrong for composite entries", {})
    for i in range(n):
        for j in range(n):
            if not equal(pr, key + ":composite", dag.from_sympy(sp.sympify(inv2[i][j])), dag.from_sympy(sp.sympify(inv[i][j]).subs(sub)), f"{kind}_matrix_inverter{n}x{n}: entry [{i}][{j}] wrong for composite entries", {}):
                return
    sample({"inverter": key})


def levi_case(_):
    import nrpy.indexedexp as ixp

    encoded("LeviCivitaSymbol_dim3_rank3", "LeviCivitaTensorUUU_dim3_rank3", "LeviCivitaTensorDDD_dim3_rank3")
    g = sp.Symbol("sqrtg", positive=True)
    e = nrpy_call("levi", ixp.LeviCivitaSymbol_dim3_rank3)
    up = nrpy_call("levi", ixp.LeviCivitaTensorUUU_dim3_rank3, g)
    dn = nrpy_call("levi", ixp.LeviCivitaTensorDDD_dim3_rank3, g)
    pr = dag.Prover()
    G = V("sqrtg")
    # cross product and determinant for arbitrary vectors
    a, b, c = [[V(f"{x}{i}") for i in range(3)] for x in "abc"]
    det = leibniz([a, b, c])
    for nm, t, fac in (("symbol", e, dag.ONE), ("UUU", up, dag.inv(G)), ("DDD", dn, G)):
        tot = dag.ZERO
        for i, j, k in itertools.product(range(3), repeat=3):
            tot = dag.add(tot, dag.mul(dag.from_sympy(sp.sympify(t[i][j][k])), dag.mul(a[i], dag.mul(b[j], c[k]))))
        equal(pr, f"levi:{nm}", tot, dag.mul(det, fac), f"Levi-Civita {nm}: contraction with three vectors is not their determinant (with its density factor)", {})
    # eps_ijk eps^klm = delta delta - delta delta
    for i, j, l, m in itertools.product(range(3), repeat=4):
        s = dag.ZERO
        for k in range(3):
            s = dag.add(s, dag.mul(dag.from_sympy(sp.sympify(dn[i][j][k])), dag.from_sympy(sp.sympify(up[k][l][m]))))
        want = C(int(i == l and j == m) - int(i == m and j == l))
        if not equal(pr, "levi:contract", s, want, f"eps_{i}{j}k eps^k{l}{m} is wrong", {}):
            return


def zero_case(_):
    import nrpy.indexedexp as ixp

    encoded("zerorank1", "zerorank2", "zerorank3", "zerorank4")
    pr = dag.Prover()
    for r in range(1, 5):
        for dim in (None, 1, 2, 3, 4, 5):
            f = getattr(ixp, f"zerorank{r}")
            t = nrpy_call("zero", f, **({} if dim is None else dict(dimension=dim)))
            els = list(flat(t, r))
            STATS.obligations += 1
            if len(els) != (dim or 3) ** r:
                report(f"zero:{r}:{dim}", f"zerorank{r}(dimension={dim}) has {len(els)} components", {})
            for _i, v in els:
                if not pr.equal(dag.from_sympy(sp.sympify(v)), dag.ZERO):
                    report(f"zero:{r}:{dim}", f"zerorank{r} component {v}", {})
                    return
            # assigning one component must not change another
            if r == 2 and len(t) > 1:
                t[0][0] = sp.Symbol("q")
                for i, v in flat(t, 2):
                    if i != (0, 0) and not pr.equal(dag.from_sympy(sp.sympify(v)), dag.ZERO):
                        report("zero:alias", f"assigning [0][0] of zerorank2(dimension={dim}) changes component {i}", {})
                        return


def many(args):
    for a in args:
        declare_case(a)


def many_axes(args):
    for a in args:
        axes_case(a)


def main():
    ck = Check(
        "P07",
        "other",
        assumptions=["real-number semantics", "matrix entries and tensor components arbitrary reals; determinant nonzero where an inverse is claimed"],
        bounds="ranks 1-4, dimensions 1-4 (thorough: to 6), every pair, triple and quadruple symmetry and disjoint pairs; matrices 2x2, 3x3, 4x4 symmetric and generic; symmetry_axes every subset of 012",
        explanation="the real functions are run on symbolic entries; z3 proves that each component equals its canonical component times its sign, that entry times determinant is the cofactor, that the determinant is Leibniz' formula, and the Levi-Civita contraction identities, for all values",
    )
    cases = [("levi", levi_case, 0), ("zero", zero_case, 0)]
    for kind in ("symm", "generic"):
        for n in (2, 3, 4):
            cases.append((f"inverse_{kind}_{n}", inv_case, (kind, n)))
    for r in SYMS:
        for dim in range(1, (5 if r < 4 else 4) if QUICK else (7 if r < 4 else 6)):
            cases.append((f"declare_{r}_{dim}", many, [(r, dim, nm, s) for nm in (("T", "hDD_dDD") if r == 4 else ("T", "A_x1")) for s in SYMS[r] if dim > 0]))
    ax = ["", "0", "1", "2", "01", "02", "12", "012"]
    specs = [("vU", 1, None, 0), ("hDD", 2, "sym01", 0), ("f_dD", 1, None, 1), ("f_dupD", 1, None, 1), ("f_dKOD", 1, None, 1), ("f_dDD", 2, "sym01", 2), ("f_dDD", 2, None, 2), ("betU_dD", 2, None, 1), ("betU_dupD", 2, None, 1), ("hDD_dD", 3, "sym01", 1), ("AUU_dD", 3, "anti01", 1), ("betU_dDD", 3, "sym12", 2), ("hDD_dDD", 4, "sym01_sym23", 2), ("RDDD", 3, None, 0), ("RDDDD", 4, None, 0)]
    for a in ax:
        cases.append((f"axes_{a or 'none'}", many_axes, [(a, nm, r, s, d, nd) for nm, r, s, nd in specs for d in (3,)]))
    ck.run(cases)
    ck.finish()


if __name__ == "__main__":
    main()
