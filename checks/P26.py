"""P26: the Einstein Toolkit thorns convert, constrain and initialise the BSSN variables correctly at every grid point."""
import importlib
import os
import re

import sympy as sp

from vlib import bhah, cexec, dag, fdtv
from vlib.core import QUICK, STATS, Check, Inconclusive, encoded, nrpy_call, report, rmtree, sample, scratch
from vlib.dag import C, ONE, V, ZERO, add, diff, div, inv, ipow, mul, neg, root, sub

INT, DBL, S, P = cexec.INT, cexec.DBL, cexec.S, cexec.P
R3 = range(3)
SYM = [(i, j) for i in R3 for j in range(i, 3)]
SYM4 = [(i, j) for i in range(4) for j in range(i, 4)]
X = "xyz"
TH = "Th"
GROUPS = {
    "metric": [f"g{X[i]}{X[j]}" for i, j in SYM],
    "curv": [f"k{X[i]}{X[j]}" for i, j in SYM],
    "shift": [f"beta{c}" for c in X],
    "dtshift": [f"dtbeta{c}" for c in X],
    "lapse": ["alp"],
    "stress_energy_scalar": ["eTtt"],
    "stress_energy_vector": [f"eTt{c}" for c in X],
    "stress_energy_tensor": [f"eT{X[i]}{X[j]}" for i, j in SYM],
}
EXT = sum(GROUPS.values(), [])


class Bad(Exception):
    pass


def sumn(it):
    t = ZERO
    for x in it:
        t = add(t, x)
    return t


def det3(g):
    m = lambda a, b, c, d: sub(mul(a, d), mul(b, c))
    return add(sub(mul(g[0][0], m(g[1][1], g[1][2], g[2][1], g[2][2])), mul(g[0][1], m(g[1][0], g[1][2], g[2][0], g[2][2]))), mul(g[0][2], m(g[1][0], g[1][1], g[2][0], g[2][1])))


def cof3(g):
    r = [[None] * 3 for _ in R3]
    for i in R3:
        for j in R3:
            a, b, c, d = (i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3
            r[j][i] = sub(mul(g[a][c], g[b][d]), mul(g[a][d], g[b][c]))
    return r


def sym3(get, pre):
    return [[get(f"{pre}{min(i, j)}{max(i, j)}") for j in R3] for i in R3]


def symx(get, pre):
    return [[get(f"{pre}{X[min(i, j)]}{X[max(i, j)]}") for j in R3] for i in R3]


# ------------------------------------------------------------------ the thorn's C function, as Cactus would compile it
def schedule_vars(entries, groups):
    """variables the schedule declares: name -> written?"""
    out = {}
    for _bin, text in entries:
        for kind, lst in re.findall(r"\b(READS|WRITES)\s*:\s*((?:[\w:]+\s*(?:\(\s*\w+\s*\))?\s*,?\s*(?!READS|WRITES|SYNC|LANG|OPTIONS))*)", text):
            for v in re.findall(r"[\w:]+(?=\s*(?:\(|,|\s|$))", re.sub(r"\(\s*\w+\s*\)", "", lst)):
                g = v.split("::")[-1]
                for name in groups.get(g, [g]):
                    out[name] = out.get(name, False) or kind == "WRITES"
    return out


LOOP = re.compile(r"grid\s*\.\s*loop_(all|int)(?:_device)?\s*<\s*0\s*,\s*0\s*,\s*0\s*>\s*\(\s*grid\s*\.\s*nghostzones\s*,\s*\[\s*=\s*\]\s*(?:CCTK_DEVICE|CCTK_HOST)(?:\s+CCTK_HOST|\s+CCTK_DEVICE)?\s*\(\s*const\s+Loop::PointDesc\s*&\s*p\s*\)\s*CCTK_ATTRIBUTE_ALWAYS_INLINE\s*\{")


def unwrap(text):
    """CarpetX loops over lambdas as plain loops."""

    def head(m):
        lo, hi = ("0", "cctk_lsh[%d]") if m.group(1) == "all" else ("cctk_nghostzones[%d]", "cctk_lsh[%d]-cctk_nghostzones[%d]")
        s = ""
        for d in (2, 1, 0):
            l, h = lo.replace("%d", str(d)), hi.replace("%d", str(d))
            s += f"for (int v_{d} = {l}; v_{d} < {h}; v_{d}++) "
        return s + "{ verif_pt p; p.I = v_0 + cctk_lsh[0]*(v_1 + cctk_lsh[1]*v_2); p.DI[0] = 1; p.DI[1] = cctk_lsh[0]; p.DI[2] = cctk_lsh[0]*cctk_lsh[1]; {"

    n = len(LOOP.findall(text))
    text = LOOP.sub(head, text)
    text, m = re.subn(r"\}\s*\)\s*;", "}}", text)
    if n != m or "grid." in re.sub(r"//[^\n]*", "", text):
        raise Inconclusive("CarpetX loop not recognised")
    return text


def source(f, declared, lsh, ng):
    n = lsh[0] * lsh[1] * lsh[2]
    text = re.sub(r'#include\s+["<][^">]*[">]', "", f.full_function)
    text = unwrap(text) if "Loop::PointDesc" in text else text
    s = "#include <math.h>\ntypedef double CCTK_REAL; typedef int CCTK_INT; typedef double REAL;\ntypedef struct { int dummy; } cGH;\ntypedef struct { int I; int DI[3]; } verif_pt;\n"
    s += "#define CCTK_ARGUMENTS const cGH *cctkGH\n#define CCTK_ATTRIBUTE_UNUSED\n#define DECLARE_CCTK_PARAMETERS\n"
    s += f"#define DECLARE_CCTK_ARGUMENTS_{f.name}\n#define DECLARE_CCTK_ARGUMENTSX_{f.name}\n"
    s += f"static const int cctk_lsh[3] = {{{lsh[0]}, {lsh[1]}, {lsh[2]}}}; static const int cctk_nghostzones[3] = {{{ng}, {ng}, {ng}}};\n"
    s += "#define CCTK_GFINDEX3D(gh,i,j,k) ((i) + cctk_lsh[0]*((j) + cctk_lsh[1]*(k)))\nstatic double verif_dx[3];\nstatic double lapse_floor;\n#define CCTK_DELTA_SPACE(d) (verif_dx[d])\n"
    s += "void ExtrapolateGammas(const cGH *gh, double *v);\nvoid SetCartSymVN(const cGH *gh, const int *sym, const char *name);\n"
    for g in declared:
        s += f"static double {g}[{n}];\n#define {g}(x) {g}[x]\n"
    return s + text + f"\nstatic void verif_call(void) {{ cGH g; {f.name}(&g); }}\n"


def const_check(f, declared):
    """Cactus declares only what the schedule lists, and what it only reads as const."""
    s = source(f, [], (2, 2, 2), 0)
    pre = s[: s.index("void ExtrapolateGammas")]
    for g, w in declared.items():
        pre += f"static {'' if w else 'const '}double {g}[8];\n#define {g}(x) {g}[x]\n"
    return pre + s[s.index("void ExtrapolateGammas") :]


class Hide(dict):
    """values written become fresh variables, the values themselves are kept"""

    def __init__(self, name):
        super().__init__()
        self.name, self.real = name, {}

    def __setitem__(self, k, v):
        self.real[k] = v
        super().__setitem__(k, S(DBL, V(f"{self.name}%{k}")))


def setup(infra, cf, what, order=2):
    import nrpy.c_function as cfc
    import nrpy.finite_difference  # noqa
    import nrpy.grid as gri
    import nrpy.params as par
    from nrpy.equations.general_relativity.BSSN_quantities import BSSN_quantities

    key = f"thorn:{infra}:{what}:{cf}:{order}"
    par.set_parval_from_str("Infrastructure", infra)
    par.set_parval_from_str("fd_order", order)
    par.set_parval_from_str("EvolvedConformalFactor_cf", cf)
    nrpy_call(key, bhah.quiet, BSSN_quantities.__getitem__, "Cartesian")
    gri.register_gridfunctions_for_single_rank2("T4UU", symmetry="sym01", dimension=4, group="AUXEVOL")
    gr = lambda n: importlib.import_module(f"nrpy.infrastructures.{infra}.general_relativity.{n}")
    if what == "floor":
        fn, a = gr("floor_the_lapse").register_CFunction_floor_the_lapse, (TH,)
    elif what == "enforce":
        fn, a = gr("enforce_detgammahat_constraint").register_CFunction_enforce_detgammahat_constraint, (TH, "Cartesian", False)
    elif what == "T4":
        fn, a = gr("T4DD_to_T4UU").register_CFunction_T4DD_to_T4UU, (TH, "Cartesian", False)
    elif what == "adm2bssn":
        fn, a = gr("ADM_to_BSSN").register_CFunction_ADM_to_BSSN, (TH, "Cartesian", order)
    elif what == "bssn2adm":
        fn, a = gr("BSSN_to_ADM").register_CFunction_BSSN_to_ADM, (TH, "Cartesian")
    else:
        fn, a = importlib.import_module(f"nrpy.infrastructures.{infra}.zero_rhss").register_CFunction_zero_rhss, (TH,)
    before = set(cfc.CFunction_dict)
    nrpy_call(key, bhah.quiet, fn, *a)
    new = [n for n in cfc.CFunction_dict if n not in before]
    if len(new) != 1:
        raise Inconclusive(f"{key}: registered {new}")
    grp = lambda *gs: [g + "GF" for g, o in gri.glb_gridfcs_dict.items() if o.group in gs]
    groups = dict(GROUPS, evol_variables=grp("EVOL"), auxevol_variables=grp("AUXEVOL"), aux_variables=grp("AUX"), evol_variables_rhs=[g[:-2] + "_rhsGF" for g in grp("EVOL")])
    f = cfc.CFunction_dict[new[0]]
    return key, f, [schedule_vars([e], groups) for e in f.ET_schedule_bins_entries or []], groups


# ------------------------------------------------------------------ what each function must leave behind
def expect_floor(M, q):
    a = M.old("alphaGF", q)
    M.need("alphaGF", q, dag.ite(dag.lt(a, V("lapse_floor")), V("lapse_floor"), a))


def expect_zero(M, q):
    for g in M.groups["evol_variables"]:
        M.need(g[:-2] + "_rhsGF", q, ZERO)


def delta(i, j):
    return ONE if i == j else ZERO


def expect_enforce(M, q):
    g = [[add(delta(i, j), M.old(f"hDD{min(i, j)}{max(i, j)}GF", q)) for j in R3] for i in R3]
    s = inv(root(det3(g), 3))
    for i, j in SYM:
        M.need(f"hDD{i}{j}GF", q, sub(mul(s, g[i][j]), delta(i, j)))


def e4phi(cf, v):
    return inv(ipow(v, 2)) if cf == "W" else inv(v) if cf == "chi" else dag.fn("exp", mul(C(4), v))


def expect_bssn2adm(M, q):
    o = lambda n: M.old(n + "GF", q)
    M.need("alp", q, o("alpha"))
    e4 = e4phi(M.cf, o("cf"))
    for i in R3:
        M.need(f"beta{X[i]}", q, o(f"vetU{i}"))
        M.need(f"dtbeta{X[i]}", q, o(f"betU{i}"))
    for i, j in SYM:
        gam = mul(e4, add(delta(i, j), o(f"hDD{i}{j}")))
        M.need(f"g{X[i]}{X[j]}", q, gam)
        M.need(f"k{X[i]}{X[j]}", q, add(mul(e4, o(f"aDD{i}{j}")), mul(mul(C(dag.Fraction(1, 3)), gam), o("trK"))))


def expect_adm2bssn(M, q):
    o = lambda n: M.old(n, q)
    M.need("alphaGF", q, o("alp"))
    for i in R3:
        M.need(f"vetU{i}GF", q, o(f"beta{X[i]}"))
        M.need(f"betU{i}GF", q, o(f"dtbeta{X[i]}"))
    g, K = symx(o, "g"), symx(o, "k")
    D = det3(g)
    co = cof3(g)
    trK = div(sumn(mul(co[i][j], K[i][j]) for i in R3 for j in R3), D)
    third = C(dag.Fraction(1, 3))
    M.need("trKGF", q, trK)
    M.need("cfGF", q, inv(root(D, 6)) if M.cf == "W" else inv(root(D, 3)) if M.cf == "chi" else mul(C(dag.Fraction(1, 12)), dag.fn("log", D)))
    s = inv(root(D, 3))
    for i, j in SYM:
        M.need(f"hDD{i}{j}GF", q, sub(mul(s, g[i][j]), delta(i, j)))
        M.need(f"aDD{i}{j}GF", q, mul(s, sub(K[i][j], mul(mul(third, trK), g[i][j]))))
    i0, i1, i2 = M.pt(q)
    if all(M.ng <= a < n - M.ng for a, n in zip((i0, i1, i2), M.lsh)):
        st = [fdtv.stencil("dD", [k], M.order) for k in R3]
        hv = lambda i, j, p: V(f"hDD{min(i, j)}{max(i, j)}GF%{p}")
        dh = lambda i, j, k: div(sumn(mul(C(c), hv(i, j, q + off[0] + M.lsh[0] * (off[1] + M.lsh[1] * off[2]))) for off, c in st[k].items()), V(f"dx{k}"))
        gb = [[add(delta(i, j), hv(i, j, q)) for j in R3] for i in R3]
        Db, cb = det3(gb), cof3(gb)
        gU = [[div(cb[i][j], Db) for j in R3] for i in R3]
        half = C(dag.Fraction(1, 2))
        vs = sorted({v for i, j in SYM for k in R3 for off in st[k] for v in [hv(i, j, q + off[0] + M.lsh[0] * (off[1] + M.lsh[1] * off[2])).a[0]]})
        for i in R3:
            t = sumn(mul(gU[j][k], mul(half, mul(gU[i][l], sub(add(dh(l, j, k), dh(l, k, j)), dh(j, k, l))))) for j in R3 for k in R3 for l in R3)
            M.linear(f"lambdaU{i}GF", q, t, [v for v in vs if not v.endswith(f"%{q}")])


def expect_T4(M, q):
    o = lambda n: M.old(n, q)
    g = [[mul(e4phi(M.cf, o("cfGF")), add(delta(i, j), o(f"hDD{min(i, j)}{max(i, j)}GF"))) for j in R3] for i in R3]
    co, D = cof3(g), det3(g)
    a2 = inv(ipow(o("alphaGF"), 2))
    b = [o(f"vetU{i}GF") for i in R3]
    gU = [[None] * 4 for _ in range(4)]
    gU[0][0] = neg(a2)
    for i in R3:
        gU[0][i + 1] = gU[i + 1][0] = mul(b[i], a2)
        for j in R3:
            gU[i + 1][j + 1] = sub(div(co[i][j], D), mul(mul(b[i], b[j]), a2))
    t = "t" + X
    T = {(m, n): o(f"eT{t[min(m, n)]}{t[max(m, n)]}") for m in range(4) for n in range(4)}
    for m, n in SYM4:
        M.linear(f"T4UU{m}{n}GF", q, sumn(mul(T[a, c], mul(gU[m][a], gU[n][c])) for a in range(4) for c in range(4)), sorted({v.a[0] for v in T.values()}))


EXPECT = {"floor": expect_floor, "zero": expect_zero, "enforce": expect_enforce, "bssn2adm": expect_bssn2adm, "adm2bssn": expect_adm2bssn, "T4": expect_T4}


class Base:
    def __init__(self, f, declared, groups, lsh, ng, cf, order):
        self.f, self.declared, self.groups, self.lsh, self.ng, self.cf, self.order = f, declared, groups, lsh, ng, cf, order
        self.n = lsh[0] * lsh[1] * lsh[2]
        self.touched = set()

    def pt(self, q):
        return q % self.lsh[0], q // self.lsh[0] % self.lsh[1], q // self.lsh[0] // self.lsh[1]

    def old(self, g, q):
        return V(f"{g}@{q}")

    def need(self, g, q, want):
        self.touched.add((g, q))
        self.same(self.got(g, q), want, f"{g} at point {self.pt(q)}", q)


class Sym(Base):
    def start(self, hide=()):
        ex = cexec.Exec(source(self.f, self.declared, self.lsh, self.ng))
        self.ex = ex
        self.hide = {}
        for g in self.declared:
            a = ex.globals[g]
            if g in hide:
                a.conc = self.hide[g] = Hide(g)
            for q in range(self.n):
                dict.__setitem__(a.conc, q, S(DBL, self.old(g, q)))
        ex.globals["lapse_floor"].v = S(DBL, V("lapse_floor"))
        for d in R3:
            ex.globals["verif_dx"].conc[d] = S(DBL, V(f"dx{d}"))
        self.extrap = []

        def go(e, _n, a):
            o = a[1].obj if isinstance(a[1], P) else a[1]
            self.extrap.append(o.name)

        ex.stubs["ExtrapolateGammas"] = go
        ex.call("verif_call", [])
        self.memo, self.proved = {}, set()
        gd = {}
        for q in range(-self.n, self.n):
            for i, j in SYM:
                gd[f"g{X[i]}{X[j]}@{q}"] = 2 + i if i == j else 0.1 * (i + j)
                gd[f"hDD{i}{j}GF@{q}"] = gd[f"hDD{i}{j}GF%{q}"] = 0.05 * (1 + i + 2 * j)
            gd[f"alphaGF@{q}"] = 0.6 + 0.1 * (q * 7 % 8)
        gd["lapse_floor"] = 0.95
        import random

        rnd = random.Random(3)
        gd = {k: dag.mpmath.mpf(v * (1 + 0.1 * rnd.random())) for k, v in gd.items()}
        self.pr = dag.Prover(timeout_ms=60000, env_fn=lambda k: {n: v * (1 + dag.mpmath.mpf(k) / 16) for n, v in gd.items()})

    def got(self, g, q):
        if g in self.hide and q in self.hide[g].real:
            return self.hide[g].real[q].n
        if g not in self.declared:
            raise Bad(f"{g} is not among the function's variables")
        return self.ex.globals[g].conc[q].n

    def canon(self, n, q, memo):
        """the same expression with point numbers relative to q: equal for all points once proved for one"""
        env = {}
        for v in dag.topo([n]):
            if v.op == "v":
                m = re.fullmatch(r"(\w+)([@%])(\d+)", str(v.a[0]))
                if m:
                    env[v.a[0]] = V(f"{m.group(1)}{m.group(2)}{int(m.group(3)) - q}")
        return dag.subst(n, env, memo)

    def same(self, got, want, what, q):
        STATS.obligations += 1
        got, want = self.canon(got, q, self.memo.setdefault(q, {})), self.canon(want, q, self.memo[q])
        if (got.id, want.id) in self.proved:
            return
        if self.pr.equal(got, want):
            self.proved.add((got.id, want.id))
        else:
            raise Bad(f"{what} is {dag.mpmath.nstr(self.pr.sig(got)[0], 12)} instead of {dag.mpmath.nstr(self.pr.sig(want)[0], 12)} at the sample values")

    def linear(self, g, q, want, vs):
        self.touched.add((g, q))
        got, what = self.got(g, q), f"{g} at point {self.pt(q)}"
        k = (self.canon(got, q, self.memo.setdefault(q, {})).id, self.canon(want, q, self.memo[q]).id)
        STATS.obligations += 1
        if k in self.proved:
            return
        zero = {v: ZERO for v in vs}
        for v in vs:
            self.same(diff(got, v, {}), diff(want, v, {}), f"coefficient of {v} in {what}", q)
        self.same(dag.subst(got, zero), dag.subst(want, zero), f"the rest of {what}", q)
        self.proved.add(k)

    def rest(self):
        """everything else is as it was"""
        for g in self.declared:
            for q in range(self.n):
                if (g, q) not in self.touched:
                    STATS.obligations += 1
                    if self.got(g, q) is not self.old(g, q):
                        raise Bad(f"{g} at point {self.pt(q)} is changed")


class Conc(Base):
    """The same function, compiled, on the prover's first sample values."""

    def __init__(self, base, pr):
        super().__init__(base.f, base.declared, base.groups, base.lsh, base.ng, base.cf, base.order)
        self.pr = pr

    def start(self):
        sci = lambda n: dag.mpmath.nstr(self.pr.sig(n)[0], 17)
        names = list(self.declared)
        t = "#include <stdio.h>\n#include <string.h>\n" + source(self.f, self.declared, self.lsh, self.ng)
        t += "static int nex[64]; static double *lam[64]; static int nl;\nvoid ExtrapolateGammas(const cGH *gh, double *v) { lam[nl++] = v; }\nvoid SetCartSymVN(const cGH *gh, const int *sym, const char *name) {}\nint main(void) {\n"
        t += f"  lapse_floor = {sci(V('lapse_floor'))};\n" + "".join(f"  verif_dx[{d}] = {sci(V(f'dx{d}'))};\n" for d in R3)
        for g in names:
            t += f"  {{ double v[] = {{{', '.join(sci(self.old(g, q)) for q in range(self.n))}}}; memcpy({g}, v, sizeof(v)); }}\n"
        t += "  verif_call();\n"
        for g in names:
            t += f'  for (int q = 0; q < {self.n}; q++) printf("{g} %d %.17g\\n", q, {g}[q]);\n'
            t += f'  for (int q = 0; q < nl; q++) if (lam[q] == {g}) printf("extrap {g}\\n");\n'
        t += "  return 0;\n}\n"
        d = scratch("p26_")
        try:
            os.makedirs(d + "/sub")
            unit = type("U", (), {"dir": d, "incdirs": [d]})
            o = bhah.crun(unit, t, asan=True)
        finally:
            rmtree(d)
        self.vals, self.extrap = {}, []
        for l in (o or "").splitlines():
            w = l.split()
            if len(w) == 3 and w[0] in self.declared:
                self.vals[w[0], int(w[1])] = float(w[2])
            elif len(w) == 2 and w[0] == "extrap":
                self.extrap.append(w[1])
        if len(self.vals) != len(names) * self.n:
            if o and o.startswith("exits with"):
                raise Bad(o)
            raise Inconclusive("replay: " + str(o)[:300])

    def got(self, g, q):
        if (g, q) not in self.vals:
            raise Bad(f"{g} is not among the function's variables")
        return self.vals[g, q]

    def same(self, got, want, what, q):
        # variables standing for stored values take the values stored by the compiled code
        env = {v.a[0]: C(dag.Fraction(self.vals[tuple(v.a[0].split("%"))[0], int(v.a[0].split("%")[1])])) for v in dag.topo([want]) if v.op == "v" and "%" in v.a[0]}
        b = self.pr.sig(dag.subst(want, env))[0] if env else self.pr.sig(want)[0]
        if got != got or not dag.close(dag.mpmath.mpf(got), b, 1e-8):
            raise Bad(f"{what} is {got} instead of {dag.mpmath.nstr(b, 12)}")

    def linear(self, g, q, want, vs):
        self.need(g, q, want)

    def rest(self):
        for g in self.declared:
            for q in range(self.n):
                if (g, q) not in self.touched:
                    v = self.pr.sig(self.old(g, q))[0]
                    if not dag.close(dag.mpmath.mpf(self.vals[g, q]), v, 1e-14):
                        raise Bad(f"{g} at point {self.pt(q)} is changed")


def decide(M, infra, what):
    full = range(M.n)
    for q in full:
        EXPECT[what](M, q)
    if what == "adm2bssn":
        lam = [f"lambdaU{i}GF" for i in R3]
        STATS.obligations += 1
        if sorted(M.extrap) != (lam if infra == "ETLegacy" else []):
            raise Bad(f"lambda^i is extrapolated for {sorted(M.extrap)}")
    M.rest()


def case(arg):
    infra, what, cf, order = arg
    key, f, sched, groups = setup(infra, cf, what, order)
    encoded(f"{infra}.{f.name}")
    for d in sched:
        STATS.obligations += 1
        err = cexec.syntax_check(const_check(f, d), ("-Werror=implicit-function-declaration",), [])
        if err:
            report(key + ":compile", f"{key}: does not compile with the variables its schedule declares: {[l for l in err.splitlines() if 'error' in l][:2]}", {"gcc": err})
            return
    ng = order // 2
    lsh = (2 * ng + 1, 2 * ng + 2, 2 * ng + 1) if what == "adm2bssn" else (3, 2, 4)
    declared = {g: True for d in sched for g in d}
    M = Sym(f, declared, groups, lsh, ng, cf, order)
    try:
        M.start(hide=[f"hDD{i}{j}GF" for i, j in SYM] if what == "adm2bssn" else ())
        decide(M, infra, what)
    except (Bad, cexec.ExecError) as e:
        pr = getattr(M, "pr", None) or dag.Prover()
        R = Conc(M, pr)
        try:
            R.start()
            decide(R, infra, what)
            seen = None
        except Bad as e2:
            seen = str(e2)
        if not seen:
            raise Inconclusive(f"{key}: {e}: the compiled code does not show it") from e
        report(key, f"{key}: {e}; compiled: {seen}", {})
    sample({"case": key, "points": M.n})


# ------------------------------------------------------------------ BHaH: the same constraint in every coordinate system
def bhah_enforce(arg):
    cs, cf = arg
    import nrpy.c_function as cfc
    import nrpy.finite_difference  # noqa
    import nrpy.params as par
    import nrpy.reference_metric as rm
    from nrpy.equations.general_relativity.BSSN_quantities import BSSN_quantities
    from nrpy.infrastructures.BHaH.general_relativity import BSSN_C_codegen_library as lib

    key = f"enforce:BHaH:{cs}:{cf}"
    encoded("enforce_detgammabar_equals_detgammahat")
    par.set_parval_from_str("Infrastructure", "BHaH")
    par.set_parval_from_str("EvolvedConformalFactor_cf", cf)
    nrpy_call(key, bhah.quiet, BSSN_quantities.__getitem__, cs)
    rfm = rm.reference_metric[cs]
    for n in [f"Nxx{d}" for d in R3] + [f"Nxx_plus_2NGHOSTS{d}" for d in R3]:
        if n not in par.glb_code_params_dict:
            par.register_CodeParameter("int", "verif", n, 1)
    nrpy_call(key, bhah.quiet, lib.register_CFunction_enforce_detgammabar_equals_detgammahat, cs, enable_rfm_precompute=False, enable_fd_functions=False, OMP_collapse=1)
    unit = bhah.Unit(key=key, header_kw={"enable_rfm_precompute": False})
    try:
        name = [n for n in cfc.CFunction_dict if n.startswith("enforce_detgammabar_equals_detgammahat")][0]
        src = unit.source([name])
        STATS.obligations += 1
        err = cexec.syntax_check(src, ("-fopenmp",), unit.incdirs)
        if err:
            report(key + ":compile", f"{key}: does not compile: {[l for l in err.splitlines() if 'error' in l][:2]}", {"gcc": err})
            return
        lsh = (3, 2, 4)
        tot = lsh[0] * lsh[1] * lsh[2]
        with open(unit.dir + "/BHaH_defines.h", encoding="utf-8") as fl:
            slots = {m.group(1): int(m.group(2)) for m in re.finditer(r"#define (\w+)GF (\d+)", fl.read())}
        nev = max(slots.values()) + 1
        nm = {v: k for k, v in slots.items()}
        ex = cexec.Exec(src, (), unit.incdirs)
        cd, p = bhah.structs(ex)
        for d in R3:
            p.field(f"Nxx_plus_2NGHOSTS{d}").v = S(INT, C(lsh[d]))
        gfs = bhah.darr(ex, [V(f"{nm[k // tot]}@{k % tot}") for k in range(nev * tot)])
        xx = cexec.Arr(ex, cexec.T("ptr", elem=DBL), "xx", 3)
        for d in R3:
            xx.conc[d] = P(bhah.darr(ex, [V(f"xx{d}_{q}") for q in range(lsh[d])]))
        gd = {}
        for q in range(tot):
            for i, j in SYM:
                gd[f"HDD{i}{j}@{q}"] = dag.mpmath.mpf(0.05 * (1 + i + 2 * j + 0.1 * q))
        pr = dag.Prover(timeout_ms=60000, env_fn=lambda k: {n: v * (1 + dag.mpmath.mpf(k) / 16) for n, v in gd.items()})
        memo = {}
        dethat = dag.from_sympy(sp.sympify(rfm.detgammahat), memo)
        at = lambda n, i: dag.subst(n, {f"xx{d}": V(f"xx{d}_{i[d]}") for d in R3})
        pos = {}

        def ab(_e, _n, a):
            # the determinant of the reference metric is positive inside the grid
            x = a[0].n
            if dag.isc(x):
                return S(DBL, C(abs(x.a[0])))
            if x.id not in pos:
                vs = {v.a[0] for v in dag.topo([x]) if v.op == "v"}
                c = [i for i in points if {f"xx{d}_{i[d]}" for d in R3} >= {v for v in vs if v.startswith("xx")}]
                pos[x.id] = any(pr.equal(x, at(dethat, i)) for i in c[:1])
            return S(DBL, x if pos[x.id] else dag.fn("fabs", x))

        points = [(q % lsh[0], q // lsh[0] % lsh[1], q // lsh[0] // lsh[1]) for q in range(tot)]
        ex.stubs["fabs"] = ab

        def want(q, g):
            m = [[add(delta(i, j), V(f"HDD{min(i, j)}{max(i, j)}@{q}")) for j in R3] for i in R3]
            if not re.fullmatch(r"HDD\d\d", g):
                return V(f"{g}@{q}")
            i, j = int(g[-2]), int(g[-1])
            return sub(mul(inv(root(det3(m), 3)), m[i][j]), delta(i, j))

        ex.call(name, [P(cd), P(p), P(xx), P(gfs)])
        bad = None
        same = {}

        def merge(n, q):
            """cube roots whose argument is 1/det(delta + h) are written as such"""
            D = det3([[add(delta(i, j), V(f"HDD{min(i, j)}{max(i, j)}@{q}")) for j in R3] for i in R3])
            m = {}
            for r in dag.topo([n]):
                if r.op == "root" and r.a[1] == 3:
                    if (r.id, q) not in same:
                        same[r.id, q] = pr.equal(mul(r.a[0], D), ONE)
                    if same[r.id, q]:
                        m[r.id] = inv(root(D, 3))
            return dag.subst(n, {}, m) if m else n

        for q in range(tot):
            for g in slots:
                STATS.obligations += 1
                got = gfs.conc[slots[g] * tot + q].n
                w = want(q, g)
                if got is not w and not bad and not pr.equal(merge(got, q), w):
                    bad = (q, g, f"{g} at point {points[q]} is {dag.mpmath.nstr(pr.sig(got)[0], 12)} instead of {dag.mpmath.nstr(pr.sig(w)[0], 12)}")
        if bad:
            sci = lambda n: dag.mpmath.nstr(pr.sig(n)[0], 17)
            t = "#include <stdio.h>\n" + src + "int main(void) { static commondata_struct cd; static params_struct pp;\n"
            for st, pre, v in ((cd, "cd.", "cd"), (p, "", "pp")):
                for fld in st.t.fields:
                    c = st.field(fld)
                    if isinstance(c, cexec.Cell) and c.t.k in ("int", "flt") and c.v is not None:
                        t += f"  {v}.{fld} = {sci(c.v.n)};\n"
            for d in R3:
                t += f"  pp.Nxx_plus_2NGHOSTS{d} = {lsh[d]};\n  REAL x{d}[] = {{{', '.join(sci(V(f'xx{d}_{q}')) for q in range(lsh[d]))}}};\n"
            t += f"  static REAL g[] = {{{', '.join(sci(V(f'{nm[k // tot]}@{k % tot}')) for k in range(nev * tot))}}};\n"
            t += f'  REAL *xx[3] = {{x0, x1, x2}}; {name}(&cd, &pp, xx, g);\n  for (int k = 0; k < {nev * tot}; k++) printf("%.17g\\n", g[k]);\n  return 0; }}\n'
            o = (bhah.crun(unit, t, asan=True) or "").split()
            if len(o) != nev * tot:
                raise Inconclusive(f"{key}: {bad[2]}; replay: {' '.join(o)[:300]}")
            for k in range(nev * tot):
                w = pr.sig(want(k % tot, nm[k // tot]))[0]
                if "nan" in o[k] or not dag.close(dag.mpmath.mpf(o[k]), w, 1e-8):
                    report(key, f"{key}: {bad[2]}; compiled: {nm[k // tot]} at point {points[k % tot]} is {o[k]} instead of {dag.mpmath.nstr(w, 12)}", {})
                    return
            raise Inconclusive(f"{key}: {bad[2]}: the compiled code does not show it")
        sample({"case": key, "points": tot})
    finally:
        rmtree(unit.dir)


# ------------------------------------------------------------------ reflection parities
def parity(arg):
    (infra,) = arg
    import nrpy.c_function as cfc
    import nrpy.grid as gri
    import nrpy.params as par

    key = f"parity:{infra}"
    par.set_parval_from_str("Infrastructure", infra)
    comps = {}
    for grp, tag in (("EVOL", "e"), ("AUXEVOL", "x"), ("AUX", "a")):
        nrpy_call(key, gri.register_gridfunctions, [f"{tag}scal", f"{tag}rho"], group=grp)
        comps[f"{tag}scal"] = comps[f"{tag}rho"] = ()
        for dim in (3, 4):
            off = dim - 3
            nrpy_call(key, gri.register_gridfunctions_for_single_rank1, f"{tag}v{'QR'[off]}U", dimension=dim, group=grp)
            nrpy_call(key, gri.register_gridfunctions_for_single_rank2, f"{tag}s{'QR'[off]}DD", symmetry="sym01", dimension=dim, group=grp)
            nrpy_call(key, gri.register_gridfunctions_for_single_rank2, f"{tag}m{'QR'[off]}DU", dimension=dim, group=grp)
            for i in range(dim):
                comps[f"{tag}v{'QR'[off]}U{i}"] = (i - off,)
                for j in range(dim):
                    comps[f"{tag}m{'QR'[off]}DU{i}{j}"] = (i - off, j - off)
                    if j >= i:
                        comps[f"{tag}s{'QR'[off]}DD{i}{j}"] = (i - off, j - off)
    if set(comps) != set(gri.glb_gridfcs_dict):
        raise Inconclusive(f"{key}: registered gridfunctions differ from the expected ones")
    want = {g: tuple((-1) ** c.count(d) for d in R3) for g, c in comps.items()}
    got = {}
    if infra == "ETLegacy":
        encoded("Symmetry_registration_oldCartGrid3D")
        mod = importlib.import_module("nrpy.infrastructures.ETLegacy.Symmetry_registration")
        nrpy_call(key, mod.register_CFunction_Symmetry_registration_oldCartGrid3D, TH)
        f = list(cfc.CFunction_dict.values())[-1]
        src = source(f, [], (2, 2, 2), 0)
        ex = cexec.Exec(src)
        lit = lambda p: "".join(chr(int(p.obj.conc[k].n.a[0])) for k in range(p.obj.n - 1))

        def go(e, _n, a):
            o = a[1].obj if isinstance(a[1], P) else a[1]
            nm = lit(a[2])
            got[nm] = None if nm in got else tuple(e.read(e.elem_obj(o, C(d))).n for d in R3)

        ex.stubs["SetCartSymVN"] = go
        bad = None
        try:
            ex.call("verif_call", [])
        except cexec.ExecError as e:
            bad = str(e)
        t = "#include <stdio.h>\n" + src + 'void SetCartSymVN(const cGH *gh, const int *sym, const char *name) { printf("%s %d %d %d\\n", name, sym[0], sym[1], sym[2]); }\nvoid ExtrapolateGammas(const cGH *gh, double *v) {}\nint main(void) { verif_call(); return 0; }\n'
        want = {f"{TH}::{g}GF": w for g, w in want.items()}

        def replay():
            d = scratch("p26_")
            try:
                os.makedirs(d + "/sub")
                o = bhah.crun(type("U", (), {"dir": d, "incdirs": [d]}), t, asan=True) or ""
            finally:
                rmtree(d)
            if o.startswith("exits"):
                return o
            seen = {}
            for l in o.splitlines():
                w = l.split()
                if len(w) == 4:
                    if w[0] in seen:
                        return f"{w[0]} registered twice"
                    seen[w[0]] = tuple(int(x) for x in w[1:])
            if not seen:
                raise Inconclusive(f"{key}: replay: {o[:300]}")
            for g in sorted(set(seen) | set(want)):
                if seen.get(g) != want.get(g):
                    return f"{g} has parities {seen.get(g)} instead of {want.get(g)}"
            return None

        enc = lambda g: got.get(g)
        for g in sorted(set(got) | set(want)):
            STATS.obligations += 1
            x = enc(g)
            if bad:
                break
            if g not in want or x is None or not all(pr_const(n, w) for n, w in zip(x, want[g])):
                bad = f"{g} has parities {[dag.show(n) for n in x] if x else None} instead of {want.get(g)}"
        if bad:
            seen = replay()
            if not seen:
                raise Inconclusive(f"{key}: {bad}: the compiled code does not show it")
            report(key, f"{key}: {bad}; compiled: {seen}", {})
    else:
        encoded("CarpetX.interface_ccl.construct_interface_ccl")
        mod = importlib.import_module("nrpy.infrastructures.CarpetX.interface_ccl")
        d = scratch("p26_")
        try:
            nrpy_call(key, bhah.quiet, mod.construct_interface_ccl, project_dir=d, thorn_name=TH, inherits="", USES_INCLUDEs="", is_evol_thorn=True)
            with open(f"{d}/{TH}/interface.ccl", encoding="utf-8") as fh:
                text = re.sub(r"#[^\n]*", "", fh.read())
        finally:
            rmtree(d)
        bad = None
        for tags, names in re.findall(r"CCTK_REAL\s+\w+\s+[^\n{]*?TAGS\s*=\s*'([^']*)'\s*\{([^}]*)\}", text, re.S):
            m = re.search(r"parities\s*=\s*\{([^}]*)\}", tags)
            names = re.findall(r"\w+", names)
            if m is None:
                if not any("_rhs" in n for n in names):
                    bad = bad or f"no parities for {names[:3]}"
                continue
            v = [int(x) for x in re.findall(r"[+-]?\d+", m.group(1))]
            if len(v) != 3 * len(names):
                bad = bad or f"{len(v)} parities for {len(names)} gridfunctions"
                continue
            for k, n in enumerate(names):
                got[n] = tuple(v[3 * k : 3 * k + 3])
        for g, w in want.items():
            STATS.obligations += 1
            if not bad and (g + "GF" not in got or not all(pr_const(C(x), y) for x, y in zip(got[g + "GF"], w))):
                bad = f"{g} has parities {got.get(g + 'GF')} instead of {w}"
        if bad:
            report(key, f"{key}: interface.ccl: {bad}", {"interface": text})
    sample({"case": key, "gridfunctions": len(want)})


def pr_const(n, w):
    s = dag.z3.Solver()
    s.add(dag.Prover().zt(n, "full") != w)
    STATS.queries += 1
    r = s.check()
    if r == dag.z3.unsat:
        STATS.unsat += 1
    else:
        STATS.sat += 1
    return r == dag.z3.unsat


def main():
    ck = Check(
        "P26",
        "other",
        assumptions=["the metric has positive determinant; real arithmetic; Cactus and CarpetX loop and access macros mean what their documentation says"],
        bounds="every value of every gridfunction at every point; grids of 3x2x4 points (conversion from ADM: one or two interior points plus ghost zones, orders 2 and 4); all conformal-factor choices",
        explanation="The generated thorn functions are executed symbolically over a whole grid; z3 proves each stored value equal to an independent formula in the values before the call, and everything else unchanged",
    )
    cases = []
    A = lambda *a: cases.append(("_".join(map(str, a)), case, a))
    for infra in ("ETLegacy", "CarpetX"):
        for w in ("floor", "enforce", "zero"):
            A(infra, w, "W", 2)
        for cf in ("W", "chi", "phi"):
            A(infra, "T4", cf, 2)
            A(infra, "bssn2adm", cf, 2)
            A(infra, "adm2bssn", cf, 2)
        A(infra, "adm2bssn", "W", 4)
    for cs in ("Cartesian", "Spherical", "SinhCylindrical", "SinhSymTP") if QUICK else ("Cartesian", "Spherical", "SinhSpherical", "Cylindrical", "SinhCylindrical", "SymTP", "SinhSymTP", "SinhCartesian", "Wedge", "Spherical_Ring"):
        cases.append((f"BHaH_{cs}", bhah_enforce, (cs, "W")))
    for infra in ("ETLegacy", "CarpetX"):
        cases.append((f"parity_{infra}", parity, (infra,)))
    ck.run(cases, timeout=600)
    ck.finish()


if __name__ == "__main__":
    main()
