"""P10: Butcher tables satisfy the order conditions of the order they declare."""
from fractions import Fraction

import time

import sympy as sp

from vlib import dag, rk
from vlib.core import STATS, Check, encoded, nrpy_call, report, sample

z3 = dag.z3


def solve(constraints, what):
    s = z3.Solver()
    s.set("timeout", 60000)
    for c in constraints:
        s.add(c)
    t = time.time()
    r = s.check()
    STATS.queries += 1
    STATS.solver_s += time.time() - t
    if r == z3.unsat:
        STATS.unsat += 1
        return None
    if r == z3.sat:
        STATS.sat += 1
        return s.model()
    from vlib.core import Inconclusive

    raise Inconclusive(what)


def toz(x, side):
    """sympy number (possibly with sqrt) -> z3 real."""
    x = sp.sympify(x)
    if x.is_Rational:
        return z3.Q(int(x.p), int(x.q))
    if x.is_Add:
        return z3.Sum([toz(a, side) for a in x.args])
    if x.is_Mul:
        r = z3.RealVal(1)
        for a in x.args:
            r = r * toz(a, side)
        return r
    if x.is_Pow and x.exp == sp.Rational(1, 2) and x.base.is_Rational:
        v = z3.Real(f"sqrt_{x.base}")
        side[str(v)] = z3.And(v > 0, v * v == z3.Q(int(x.base.p), int(x.base.q)))
        return v
    if x.is_Pow and x.exp.is_Integer and x.exp > 0:
        r = z3.RealVal(1)
        for _ in range(int(x.exp)):
            r = r * toz(x.base, side)
        return r
    raise ValueError(x)


def case(name):
    from nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary import generate_Butcher_tables

    encoded(f"Butcher table {name}")
    tab, order = nrpy_call("tables", generate_Butcher_tables)[name]
    rows = []
    weights = []
    for r in tab:
        if isinstance(r[0], str):
            weights.append((r[0], [sp.sympify(x) for x in r[1:]]))
        else:
            rows.append([sp.sympify(x) for x in r])
    s = len(rows)
    # explicit table: row i has c_i and a_i1..a_i,i-1 (missing entries are zero)
    A = [[r[1 + j] if 1 + j < len(r) else sp.Integer(0) for j in range(s)] for r in rows]
    c = [r[0] for r in rows]
    for i, r in enumerate(rows):
        if len(r) > i + 1 and any(x != 0 for x in r[i + 1:]):
            report(f"butcher:{name}:explicit", f"table {name} row {i} is not explicit", {})
    # published coefficients of the 8th-order tables are rational approximations good to 1e-16
    exact = all(len(str(sp.nsimplify(x).as_numer_denom()[1])) < 9 for r in A for x in r)
    tol = z3.RealVal(0) if exact else z3.Q(1, 10**13)
    side = {}
    zA = [[toz(x, side) for x in r] for r in A]
    zc = [toz(x, side) for x in c]
    F = {}

    def bad(expr):
        return [z3.Or(expr > tol, expr < -tol)] + list(side.values())

    # nonautonomous consistency
    for i in range(s):
        h = z3.Real("h")
        m = solve([h > 0, h <= 1] + bad(h * (z3.Sum(zA[i]) - zc[i])), f"{name} row {i}")
        STATS.obligations += 1
        if m is not None:
            v = sp.N(sum(A[i]) - c[i], 20)
            report(f"butcher:{name}:rowsum{i}", f"table {name}: row {i} sums to c_{i} + {v}", {"difference": str(v)})
    for tag, b in weights:
        if len(b) != s:
            report(f"butcher:{name}:{tag}:len", f"table {name}: {len(b)} weights for {s} stages", {})
            continue
        p = order if tag != "LO" else order - 1
        zb = [toz(x, side) for x in b]
        trees = rk.trees(p)
        # elementary weights; the residual of one step is sum_tau h^|tau| (Phi - 1/gamma)/sigma F(tau) with F(tau) arbitrary
        for q in range(1, p + 1):
            terms = []
            numeric = []
            for t in trees[q]:
                phi = rk.weight(t, zA, zb, z3.RealVal(1))
                d = phi - z3.Q(1, rk.gamma(t))
                f = z3.Real(f"F_{rk.show(t)}")
                terms.append((t, d, f))
            for t, d, f in terms:
                STATS.obligations += 1
                m = solve([f >= -1, f <= 1] + bad(d * f), f"{name} tree {rk.show(t)}")
                if m is not None:
                    # replay: numeric evaluation of the elementary weight from the table itself
                    num = sp.N(rk.weight(t, A, b, sp.Integer(1)) - sp.Rational(1, rk.gamma(t)), 25)
                    report(f"butcher:{name}:{tag}:order{q}", f"table {name} ({tag or 'weights'}) declared order {p} violates the order-{q} condition of tree {rk.show(t)} by {num}", {"difference": str(num)})
                    break
    sample({"table": name, "order": order, "stages": s})


def ab_case(_):
    from nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary import generate_Butcher_tables

    encoded("generate_Butcher_tables (Adams-Bashforth)")
    for N in (2, 4, 7, 9):
        d = nrpy_call("ab", generate_Butcher_tables, generate_adams_bashforth_method=True, adams_bashforth_order=N)
        tab, order = d["AB"]
        if order != N or len(tab) != N:
            report(f"ab:{N}:size", f"Adams-Bashforth table of order {N} has {len(tab)} rows, declared order {order}", {})
            continue
        for n in range(1, N + 1):
            row = [sp.sympify(x) for x in tab[n - 1]]
            co = [z3.Real(f"p{k}") for k in range(n)]
            side = {}
            integral = z3.Sum([co[k] * z3.Q(1, k + 1) for k in range(n)])
            step = z3.Sum([toz(row[j], side) * z3.Sum([co[k] * z3.RealVal((-j) ** k) for k in range(n)]) for j in range(n)])
            STATS.obligations += 1
            if len(row) != n and any(x != 0 for x in row[n:]):
                report(f"ab:{N}:{n}:len", f"row {n} of the order-{N} Adams-Bashforth table has {len(row)} entries", {})
            m = solve([integral != step], f"ab {n}")
            if m is not None:
                report(f"ab:{N}:{n}", f"Adams-Bashforth order {n} weights {row} are not exact on polynomials of degree < {n}", {"model": str(m)})


def main():
    from nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary import generate_Butcher_tables

    ck = Check(
        "P10",
        "other",
        assumptions=["coefficients of the two 13-stage 8th-order tables are published rational approximations: conditions hold to 1e-13 there, exactly elsewhere"],
        bounds="every table of the dictionary; all rooted trees up to the declared order (200 at order 8); Adams-Bashforth orders 1..9",
        explanation="the local error of one step is a linear form in the elementary differentials; z3 shows that no value of them gives a nonzero term up to the declared order (algebraic coefficients are encoded by their minimal polynomials)",
    )
    names = list(generate_Butcher_tables())
    ck.run([(n, case, n) for n in names] + [("adams_bashforth", ab_case, None)])
    ck.finish()


if __name__ == "__main__":
    main()
