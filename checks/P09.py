"""P09: generated loop nests visit every point of their region exactly once; index macros are bijections."""
import itertools
import subprocess

from vlib import bhah, cexec, dag, loops
from vlib.core import QUICK, STATS, Check, Inconclusive, encoded, nrpy_call, report, rmtree, sample, scratch
from vlib.dag import C, V

z3 = dag.z3
R3 = range(3)
INT, DBL, S = cexec.INT, cexec.DBL, cexec.S


def gcc_run(src, flags=(), incdirs=()):
    d = scratch("p09_")
    try:
        with open(d + "/m.c", "w", encoding="utf-8") as f:
            f.write(src)
        r = subprocess.run(["gcc", "-std=gnu99", "-w", "-D_GNU_SOURCE", *flags, *["-I" + i for i in incdirs], d + "/m.c", "-lm", "-o", d + "/m"], capture_output=True, text=True, check=False)
        if r.returncode:
            return None, r.stderr[:500]
        try:
            r = subprocess.run([d + "/m"], capture_output=True, text=True, check=False, timeout=30)
        except subprocess.TimeoutExpired:
            return None, "does not terminate within 30 s"
        return (r.stdout, None) if r.returncode == 0 else (None, f"exit status {r.returncode}")
    finally:
        rmtree(d)


MINMAX = """#define MIN(A, B) ({ __typeof__(A) _a = (A); __typeof__(B) _b = (B); _a < _b ? _a : _b; })
#define MAYBE_UNUSED __attribute__((unused))
#define REAL double
"""


def compile_ok(key, src, incdirs=()):
    STATS.obligations += 1
    err = cexec.syntax_check(src, ("-fopenmp",), incdirs)
    if err:
        report(key + ":compile", f"generated loop does not compile: {[l for l in err.splitlines() if 'error' in l][:2]}", {"gcc": err})
        return False
    return True


def judge(key, ex, call, region, dims, sizes, expect, replay_src, width=1, assume=(), reads=None, incdirs=()):
    """Solve the three obligations; on a counterexample run the compiled loop on the listed sizes."""
    sm = loops.Summary(ex, assume=assume)
    bad = None
    try:
        call()
        if not sm.visits:
            bad = "no visit"
        else:
            STATS.obligations += 3
            r = loops.visited_once(sm.visits, region, dims, width, assume)
            bad = r and r[0]
            if r is None and reads is not None:
                for v in sm.visits:
                    bad = bad or reads(v)
    except (Inconclusive, cexec.ExecError) as e:
        bad = f"not summarised: {e}"
    if bad is None:
        sample({"loop": key, "visits": len(sm.visits)})
        return
    for sz in sizes:
        out, err = gcc_run(replay_src(sz), incdirs=incdirs)
        if err:
            report(key, f"{key}: compiled loop with sizes {sz}: {err}", {"sizes": sz})
            return
        got = sorted(out.split("\n")[:-1])
        want = sorted(expect(sz))
        if got != want:
            extra = [g for g in got if g not in want][:2]
            miss = [w for w in want if w not in got][:2]
            report(key, f"{key}: loop over sizes {sz} visits {len(got)} points instead of {len(want)} (missing {miss}, unexpected {extra}; solver: {bad})", {"sizes": sz, "solver": bad})
            return
    if bad.startswith("not summarised"):
        # construct outside the summary: every listed size was decided by execution, which is not a proof
        STATS.notes.append(f"{key}: {bad}; only the sizes {sizes} decided")
    raise Inconclusive(f"{key}: {bad}")


# ---------------------------------------------------------------- helpers/loop.py
def helper_case(arg):
    dims, incs, tiles, split = arg
    import nrpy.helpers.loop as lp

    key = f"loop:{dims}d:{','.join(incs)}:{','.join(tiles) or 'untiled'}" + (":split" if split else "")
    encoded("nrpy.helpers.loop.loop", "nrpy.helpers.loop.loop1D (generated nest)")
    vs = ["i2", "i1", "i0"][-dims:]
    body = f"VISIT({', '.join(vs[::-1])});"
    pr = ["#pragma omp parallel for"] + [""] * (dims - 1)
    if tiles:
        pr = [""] * dims
    a = [vs, [f"L{v}" for v in vs], [f"U{v}" for v in vs], list(incs), pr]
    if dims == 1 and not split:
        a = [x[0] for x in a]
    kw = {"tile_size": list(tiles) if dims > 1 else tiles[0]} if tiles else {}
    if split:
        h, f = nrpy_call(key, lp.loop, *a, **kw)
        code = h + body + "\n" + f
    else:
        code = nrpy_call(key, lp.loop, *a, loop_body=body, **kw)
    par = ", ".join(f"int L{v}, int U{v}" for v in vs)
    src = MINMAX + "#define simd_width 4\nvoid VISIT();\nvoid f(" + par + ") {\n" + code + "}\n"
    if not compile_ok(key, src):
        return
    ex = cexec.Exec(src)
    st = [{"simd_width": 4}.get(i) or int(i) for i in incs]

    def region(p):
        cs = []
        for i, x in enumerate(p):
            v, s = vs[::-1][i], st[::-1][i]
            L, U = z3.Int("L" + v), z3.Int("U" + v)
            cs += [L <= x, x < U, (x - L) % s == 0]
        return z3.And(*cs)

    args = []
    for v in vs:
        args += [S(INT, V("L" + v)), S(INT, V("U" + v))]

    def src_of(sz):
        b = ", ".join(f"{lo}, {hi}" for lo, hi in sz)
        pv = "void VISIT(" + ",".join("int a%d" % i for i in range(dims)) + ') { printf("' + " ".join(["%d"] * dims) + '\\n", ' + ",".join("a%d" % i for i in range(dims)) + "); }\n"
        return "#include <stdio.h>\n" + src + pv + f"int main() {{ f({b}); }}\n"

    def expect(sz):
        rg = [range(lo, hi, s) for (lo, hi), s in zip(sz, st)]
        return [" ".join(map(str, p[::-1])) for p in itertools.product(*rg)]

    sizes = [[(0, 1)] * dims, [(-2, 9 + 8 * i) for i in range(dims)], [(1 + i, 18) for i in range(dims)], [(3, 2)] * dims, [(2, 7 + i) for i in range(dims)]]
    judge(key, ex, lambda: ex.call("f", args), region, dims, sizes, expect, src_of)


# ---------------------------------------------------------------- simple_loop (BHaH, ETLegacy)
REG = {
    "all points": (lambda n, g: (0, n + 2 * g)),
    "interior": (lambda n, g: (g, g + n)),
    "interior plus one upper": (lambda n, g: (g, g + n + 1)),
}


def simple_case(arg):
    infra, region_name, kw = arg
    key = f"simple_loop:{infra}:{region_name}:" + ",".join(f"{k}={v}" for k, v in sorted(kw.items()))
    encoded(f"nrpy.infrastructures.{infra}.simple_loop.simple_loop (generated nest)")
    if infra == "BHaH":
        from nrpy.infrastructures.BHaH.simple_loop import simple_loop
    else:
        from nrpy.infrastructures.ETLegacy.simple_loop import simple_loop
    simd = kw.get("enable_simd", False)
    rd = kw.get("read_xxs", False)
    body = "VISIT(i0, i1, i2" + (", xx0, xx1, xx2" if rd else "") + ");"
    code = nrpy_call(key, simple_loop, body, loop_region=region_name, **kw)
    ints = [f"Nxx{d}" for d in R3] + [f"Nxx_plus_2NGHOSTS{d}" for d in R3] + ["NGHOSTS"]
    if infra == "BHaH":
        par = ", ".join("int " + i for i in ints) + ", REAL *xx[3]"
    else:
        par = "const int *cctk_lsh, const int *cctk_nghostzones"
    for W in (1, 2, 4, 8) if simd else (1,):
        src = MINMAX + f"#define simd_width {W}\nvoid VISIT();\nvoid f({par}) {{\n" + code + "}\n"
        if not compile_ok(key, src):
            return
        ex = cexec.Exec(src)
        n = [z3.Int(f"n{d}") for d in R3]
        g = [z3.Int("g") if infra == "BHaH" else z3.Int(f"g{d}") for d in R3]
        assume = [x >= 1 for x in n] + [x >= 0 for x in g]
        if infra == "BHaH":
            ve = [V(f"n{d}") for d in R3]
            gd = V("g")
            args = [S(INT, x) for x in ve] + [S(INT, dag.add(x, dag.mul(C(2), gd))) for x in ve] + [S(INT, gd)]
            xs = []
            for d in R3:
                xs.append(cexec.Arr(ex, DBL, f"xx{d}", None, initfn=lambda idx, d=d: S(DBL, dag.fn(f"XX{d}", idx))))
            xx = cexec.Arr(ex, cexec.T("ptr", elem=DBL), "xx", 3)
            for d in R3:
                xx.conc[d] = cexec.P(xs[d], dag.ZERO)
            args.append(cexec.P(xx))
        else:

            def arr(nm, f, ex=ex):
                a = cexec.Arr(ex, INT, nm, 3)
                for d in R3:
                    a.conc[d] = S(INT, f(d))
                return cexec.P(a)

            args = [arr("lsh", lambda d: dag.add(V(f"n{d}"), dag.mul(C(2), V(f"g{d}")))), arr("ng", lambda d: V(f"g{d}"))]

        def region(p):
            cs = []
            for d in R3:
                lo, hi = REG[region_name](n[d], g[d])
                cs += [lo <= p[d], p[d] < hi]
            return z3.And(*cs)

        def reads(v):
            if not rd:
                return None
            STATS.obligations += 3
            for d in R3:
                q = v.args[3 + d].n
                if q.op != "fn" or q.a[0] != f"XX{d}":
                    return f"xx{d} is {q}"
                if loops.check(v.cons + [loops.zint(q.a[1]) != loops.zint(v.args[d].n)])[0] != z3.unsat:
                    return f"xx{d} read at another index"
            return None

        def src_of(sz, src=src):
            nn, gg = sz
            pr = "void VISIT(int i0, int i1, int i2" + (", double x, double y, double z" if rd else "") + ') { printf("%d %d %d' + (" %g %g %g" if rd else "") + '\\n", i0, i1, i2' + (", x, y, z" if rd else "") + "); }\n"
            s = "#include <stdio.h>\n" + src.replace("void VISIT();", pr)
            if infra == "BHaH":
                m = [nn[d] for d in R3] + [nn[d] + 2 * gg for d in R3] + [gg]
                s += "double a[60], b[60], c[60]; int main() { for (int i = 0; i < 60; i++) { a[i] = i; b[i] = i + 100; c[i] = i + 200; } double *xx[3] = {a, b, c}; f(" + ", ".join(map(str, m)) + ", xx); }\n"
            else:
                ga = [gg, gg + 1, max(gg - 1, 0)]
                s += f"int main() {{ int l[3] = {{{', '.join(str(nn[d] + 2 * ga[d]) for d in R3)}}}, n[3] = {{{', '.join(map(str, ga))}}}; f(l, n); }}\n"
            return s

        def expect(sz, W=W):
            nn, gg = sz
            ga = [gg] * 3 if infra == "BHaH" else [gg, gg + 1, max(gg - 1, 0)]
            rg = []
            for d in R3:
                lo, hi = REG[region_name](nn[d], ga[d])
                rg.append(range(lo, hi, W if d == 0 else 1))
            return [f"{i} {j} {k}" + (f" {i} {j + 100} {k + 200}" if rd else "") for i, j, k in itertools.product(*rg)]

        judge(f"{key}:w{W}", ex, lambda: ex.call("f", args), region, 3, [((5, 3, 2), 2), ((1, 2, 4), 3), ((8, 1, 3), 1)], expect, src_of, W, assume, reads)


# ---------------------------------------------------------------- macros of BHaH_defines.h
def header_unit(key):
    import nrpy.finite_difference  # noqa
    import nrpy.grid as gri
    import nrpy.params as par

    par.set_parval_from_str("Infrastructure", "BHaH")
    par.set_parval_from_str("fd_order", 4)
    gri.register_gridfunctions(["uu", "vv"], group="EVOL")
    from nrpy.infrastructures.BHaH.MoLtimestepping import MoL

    bhah.rfm_typedef()
    nrpy_call(key, bhah.quiet, MoL.register_CFunctions, MoL_method="RK4", rhs_string="", post_rhs_string="")
    return bhah.Unit(key=key)


def macro_case(_):
    key = "macros"
    encoded("LOOP_REGION", "LOOP_OMP", "LOOP_NOOMP", "LOOP_ALL_GFS_GPS", "IDX3", "IDX4", "IDX4pt", "IS_IN_GRID_INTERIOR", "MIN", "MAX", "SQR")
    unit = header_unit(key)
    P2 = "int Nxx_plus_2NGHOSTS0, int Nxx_plus_2NGHOSTS1, int Nxx_plus_2NGHOSTS2"
    bounds = "i0, a0 + 0, b0 - 1 + 1, i1, a1, b1, i2, a2, b2"
    nests = {
        "region": "LOOP_REGION(a0, b0, a1, b1, a2, b2)",
        "omp": f'LOOP_OMP("omp parallel for", {bounds})',
        "noomp": f"LOOP_NOOMP({bounds})",
    }
    src = '#include "BHaH_defines.h"\nvoid VISIT();\n'
    for nm, h in nests.items():
        src += f"void f_{nm}(int a0, int b0, int a1, int b1, int a2, int b2) {{ {h} {{ VISIT(i0, i1, i2); }} }}\n"
    src += f"int x3({P2}, int i, int j, int k) {{ return IDX3(i, j, k); }}\n"
    src += f"int x4({P2}, int g, int i, int j, int k) {{ return IDX4(g, i, j, k); }}\n"
    src += f"int x4s({P2}, int g, int i, int j, int k) {{ return IDX4(g, i + 1, j + 2, k + 3); }}\n"
    src += f"int x4pt({P2}, int g, int i, int j, int k) {{ return IDX4pt(g, IDX3(i, j, k)); }}\n"
    src += "int interior(int N0, int N1, int N2, int ng, int i, int j, int k) { int ii[3] = {i, j, k}; return IS_IN_GRID_INTERIOR(ii, N0, N1, N2, ng); }\n"
    src += "double mn(double a, double b) { return MIN(a, b); }\ndouble mx(double a, double b) { return MAX(a, b); }\ndouble sq(double a, double b) { return SQR(a + b); }\n"
    src += "double mnn(double a, double b, double c) { return MIN(MIN(a, b), MAX(c, MIN(a, c))); }\n"
    src += f"void allg({P2}) {{ LOOP_ALL_GFS_GPS(i) {{ VISIT(i); }} }}\n"
    src += "int nge(void) { return NUM_EVOL_GFS; }\n"
    if not compile_ok(key, src, unit.incdirs):
        return
    mk = lambda: cexec.Exec(src, incdirs=unit.incdirs)
    for nm in nests:
        ex = mk()
        args = [S(INT, V(v)) for v in ("a0", "b0", "a1", "b1", "a2", "b2")]

        def region(p):
            return z3.And(*[z3.And(z3.Int(f"a{d}") <= p[d], p[d] < z3.Int(f"b{d}")) for d in R3])

        def src_of(sz, nm=nm):
            return src.replace("void VISIT();", 'void VISIT(int a, int b, int c) { printf("%d %d %d\\n", a, b, c); }').replace("{ VISIT(i); }", "{ }") + f"int main() {{ f_{nm}({', '.join(map(str, sz))}); }}\n"

        judge(f"{key}:{nm}", ex, lambda ex=ex, nm=nm, args=args: ex.call("f_" + nm, args), region, 3, [(0, 2, 1, 4, 2, 3), (-1, 1, 0, 3, 1, 6), (0, 0, 0, 2, 0, 2)], lambda sz: [f"{i} {j} {k}" for i in range(sz[0], sz[1]) for j in range(sz[2], sz[3]) for k in range(sz[4], sz[5])], src_of, incdirs=unit.incdirs)
    # index macros: equal to the row-major formula (bijective onto [0, gfs*N0*N1*N2) by the division lemma below)
    ex = mk()
    N = [S(INT, V(f"N{d}")) for d in R3]
    g, i, j, k = (S(INT, V(v)) for v in "gijk")
    zN = [z3.Int(f"N{d}") for d in R3]
    zg, zi, zj, zk = z3.Ints("g i j k")
    want = {
        "x3": ([i, j, k], zi + zN[0] * (zj + zN[1] * zk)),
        "x4": ([g, i, j, k], zi + zN[0] * (zj + zN[1] * (zk + zN[2] * zg))),
        "x4s": ([g, i, j, k], zi + 1 + zN[0] * (zj + 2 + zN[1] * (zk + 3 + zN[2] * zg))),
        "x4pt": ([g, i, j, k], zi + zN[0] * (zj + zN[1] * (zk + zN[2] * zg))),
    }
    for f, (a, w) in want.items():
        r = ex.call(f, N + a)
        STATS.obligations += 1
        d = z3.simplify(loops.zint(r.n) - w, som=True)
        rr, m = loops.check([d != 0])
        if rr == z3.unsat:
            continue
        val = {str(x): (m[x].as_long() if m is not None and m[x] is not None else 3) for x in (*zN, zg, zi, zj, zk)} if m is not None else {}
        vals = [val.get(str(x), 2 + q) for q, x in enumerate((*zN, *([zg] if len(a) == 4 else []), zi, zj, zk))]
        out, err = gcc_run(src.replace("void VISIT();", "void VISIT() {}") + f'int main() {{ printf("%d\\n", {f}({", ".join(map(str, vals))})); }}\n', incdirs=unit.incdirs)
        n3, rest = vals[:3], vals[3:]
        if len(a) == 3:
            rest = [0] + rest
        gg, a_, b_, c_ = rest
        o = (1, 2, 3) if f == "x4s" else (0, 0, 0)
        ref = a_ + o[0] + n3[0] * (b_ + o[1] + n3[1] * (c_ + o[2] + n3[2] * gg))
        if out is None or int(out) != ref:
            report(f"{key}:{f}", f"index macro behind {f}: sizes {n3}, indices {rest} give {out or err} instead of {ref}", {"values": vals})
        else:
            raise Inconclusive(f"{key}:{f}")
    # division lemma: i + N*a determines (i, a) for 0 <= i < N
    a1, a2, i2 = z3.Ints("a1 a2 i2")
    if loops.check([zi >= 0, zi < zN[0], i2 >= 0, i2 < zN[0], zi + zN[0] * a1 == i2 + zN[0] * a2, z3.Or(a1 > a2, z3.And(a1 == a2, zi != i2))])[0] != z3.unsat:
        raise Inconclusive("division lemma")
    ng = S(INT, V("ng"))
    r = ex.call("interior", N + [ng, i, j, k])
    zng = z3.Int("ng")
    inside = z3.And(*[z3.And(x >= zng, x < zN[d] - zng) for d, x in enumerate((zi, zj, zk))])
    t = loops.zint(r.n)
    t = t if z3.is_bool(t) else t != 0
    STATS.obligations += 1
    rr, m = loops.check([t != inside])
    if rr != z3.unsat:
        vals = [m.eval(x, model_completion=True).as_long() for x in (*zN, zng, zi, zj, zk)]
        out, err = gcc_run(src.replace("void VISIT();", "void VISIT() {}") + f'int main() {{ printf("%d\\n", !!interior({", ".join(map(str, vals))})); }}\n', incdirs=unit.incdirs)
        ref = all(vals[3] <= vals[4 + d] < vals[d] - vals[3] for d in R3)
        if out is None or int(out) != int(ref):
            report(f"{key}:interior", f"IS_IN_GRID_INTERIOR for (N0,N1,N2,NG,i,j,k) = {vals} is {out or err}", {"values": vals})
        else:
            raise Inconclusive("interior")
    # MIN/MAX/SQR for all reals
    pr = dag.Prover()
    a, b, c = (S(DBL, V(x)) for x in "abc")
    za, zb, zc = pr.z([V("a"), V("b"), V("c")])
    mi = lambda x, y: z3.If(x < y, x, y)
    ma = lambda x, y: z3.If(x > y, x, y)
    for f, args, w in (("mn", [a, b], mi(za, zb)), ("mx", [a, b], ma(za, zb)), ("sq", [a, b], (za + zb) * (za + zb)), ("mnn", [a, b, c], mi(mi(za, zb), ma(zc, mi(za, zc))))):
        STATS.obligations += 1
        z = pr.z([ex.call(f, args).n])[0]
        rr, m = loops.check([z != w])
        if rr == z3.unsat:
            continue
        bad = None
        for vals in itertools.product((-2, 0, 1, 3), repeat=len(args)):
            out, err = gcc_run(src.replace("void VISIT();", "void VISIT() {}") + f'int main() {{ printf("%g\\n", {f}({", ".join(map(str, vals))})); }}\n', incdirs=unit.incdirs)
            x = list(vals) + [0]
            ref = {"mn": min(x[:2]), "mx": max(x[:2]), "sq": (x[0] + x[1]) ** 2, "mnn": min(min(x[:2]), max(x[2], min(x[0], x[2])))}[f]
            if out is None or float(out) != ref:
                bad = f"{f}{vals} = {out or err} instead of {ref}"
                break
        if bad is None:
            raise Inconclusive(f)
        report(f"{key}:{f}", f"MIN/MAX/SQR macro wrong: {bad}", {})
    # LOOP_ALL_GFS_GPS covers every value of all evolved gridfunctions exactly once
    ex = mk()
    nge = ex.call("nge", []).n
    if int(nge.a[0]) != 2:
        report(f"{key}:NUM_EVOL_GFS", f"NUM_EVOL_GFS is {nge} with two evolved gridfunctions registered", {})
    M = z3.Int("M")
    sm = loops.Summary(ex)
    tot = dag.mul(dag.mul(V("N0"), V("N1")), V("N2"))
    try:
        ex.call("allg", N)
        (v,) = sm.visits
        memo = {}
        ok = True
        cons = [z3.simplify(z3.substitute(q, *[]), som=True) for q in v.cons]
        prod = z3.simplify(zN[0] * zN[1] * zN[2] * 2, som=True)
        low = z3.simplify(loops.zint(v.args[0].n))
        kk = z3.Int(v.ks[0])
        # visit index is k, condition is k < 2*N0*N1*N2
        r1 = loops.check([z3.Or(low != kk, z3.And(*cons) != z3.And(kk >= 0, kk < prod))])[0]
        ok = r1 == z3.unsat
        STATS.obligations += 1
    except (Inconclusive, cexec.ExecError, ValueError):
        ok = False
    if not ok:
        for n3 in ((2, 3, 4), (1, 5, 2)):
            out, err = gcc_run(src.replace("void VISIT();", 'void VISIT(int a) { printf("%d\\n", a); }').replace("VISIT(i0, i1, i2)", "0") + f"int main() {{ allg({', '.join(map(str, n3))}); }}\n", incdirs=unit.incdirs)
            if out is None or sorted(map(int, out.split())) != list(range(2 * n3[0] * n3[1] * n3[2])):
                report(f"{key}:LOOP_ALL_GFS_GPS", f"LOOP_ALL_GFS_GPS on {n3} with two gridfunctions visits {len((out or '').split())} values {err or ''}", {"sizes": n3})
                return
        raise Inconclusive("LOOP_ALL_GFS_GPS")
    rmtree(unit.dir)


def main():
    ck = Check(
        "P09",
        "other",
        assumptions=["integers are mathematical integers (no overflow)", "OpenMP pragmas do not change the set of iterations (their placement is checked by compiling with -fopenmp)"],
        bounds="all loop bounds and grid sizes (unbounded integers), nests of depth 1 to 3, listed increments, tile sizes and options",
        explanation="each loop variable is init + step*k with symbolic k; z3 shows that no visited point lies outside the region, none is missed and none is visited twice; index macros are compared with the row-major formula",
    )
    cs = []
    for dims in (1, 2, 3):
        cs.append((f"loop{dims}", helper_case, (dims, ["1"] * dims, [], False)))
        cs.append((f"loop{dims}split", helper_case, (dims, ["1"] * dims, [], True)))
        cs.append((f"loop{dims}inc", helper_case, (dims, ["2", "3", "simd_width"][-dims:], [], False)))
        cs.append((f"loop{dims}tile", helper_case, (dims, ["1"] * dims, ["16", "4", "5"][:dims], False)))
    cs.append(("loop2tileinc", helper_case, (2, ["1", "2"], ["3", "4"], False)))
    cs.append(("loop3tilesplit", helper_case, (3, ["1"] * 3, ["8", "1", "2"], True)))
    for reg in REG:
        for col in (1, 2, 3):
            cs.append((f"bhah_{reg}_{col}", simple_case, ("BHaH", reg, {"OMP_collapse": col})))
            cs.append((f"bhah_{reg}_{col}_xx", simple_case, ("BHaH", reg, {"OMP_collapse": col, "read_xxs": True})))
            if reg != "interior plus one upper":
                cs.append((f"et_{reg}_{col}", simple_case, ("ETLegacy", reg, {"OMP_collapse": col})))
        cs.append((f"bhah_{reg}_simd", simple_case, ("BHaH", reg, {"enable_simd": True})))
        cs.append((f"bhah_{reg}_noomp", simple_case, ("BHaH", reg, {"enable_OpenMP": False, "read_xxs": True})))
        cs.append((f"bhah_{reg}_custom", simple_case, ("BHaH", reg, {"OMP_custom_pragma": "#pragma omp parallel for schedule(static)", "read_xxs": True})))
        if reg != "interior plus one upper":
            cs.append((f"et_{reg}_simd", simple_case, ("ETLegacy", reg, {"enable_simd": True})))
            cs.append((f"et_{reg}_noomp", simple_case, ("ETLegacy", reg, {"enable_OpenMP": False})))
    cs.append(("macros", macro_case, None))
    ck.run(cs)
    ck.finish()


if __name__ == "__main__":
    main()
