"""P08: gridfunction registry: indices, parity types, asymptotic values, wave speeds and memory accesses."""
import itertools
import random

import sympy as sp

from vlib import bhah, cexec, dag
from vlib.core import QUICK, SEED, STATS, Check, Inconclusive, encoded, nrpy_call, report, sample, scratch, rmtree
from vlib.dag import C, V, add, mul

R3 = range(3)
INT, DBL, S = cexec.INT, cexec.DBL, cexec.S
z3 = dag.z3
P3 = {(0, 0): 4, (0, 1): 5, (0, 2): 6, (1, 1): 7, (1, 2): 8, (2, 2): 9}


def parity(rank, dim, idx):
    """Parity type of a component: time components of 4-tensors behave as one rank less."""
    if dim == 4:
        idx = [i - 1 for i in idx if i > 0]
    idx = sorted(idx)
    if not idx:
        return 0
    return idx[0] + 1 if len(idx) == 1 else P3[tuple(idx)]


# (kind, base name, dimension, symmetry, group)
POOL = [
    ("scalar", "uu", 3, None, "EVOL"), ("scalar", "Vv", 3, None, "EVOL"), ("scalar", "cf", 3, None, "EVOL"), ("scalar", "Trk", 3, None, "AUX"),
    ("rank1", "vetU", 3, None, "EVOL"), ("rank1", "BetU", 3, None, "EVOL"), ("rank1", "SD", 3, None, "AUXEVOL"), ("rank1", "uU", 4, None, "EVOL"),
    ("rank2", "hDD", 3, "sym01", "EVOL"), ("rank2", "aDD", 3, "sym01", "EVOL"), ("rank2", "RbarDD", 3, "sym01", "AUXEVOL"), ("rank2", "T4UU", 4, "sym01", "AUXEVOL"), ("rank2", "kDD", 3, None, "EVOL"), ("rank2", "g4DD", 4, "sym01", "EVOL"),
    ("rankN", "wU", 3, None, "EVOL"), ("rankN", "qDD", 3, "sym01", "EVOL"),
]


def components(kind, dim, sym):
    r = {"scalar": 0, "rank1": 1, "rank2": 2}.get(kind)
    return r, [()] if r == 0 else [(i,) for i in range(dim)] if r == 1 else [(i, j) for i in range(dim) for j in range(dim) if j >= i or sym is None]


def register(key, entries, pervalue):
    """Real registrations in the given order; returns {name: (group, parity, finf symbol, speed symbol)}."""
    import nrpy.grid as gri

    want = {}
    for kind, base, dim, sym, group in entries:
        if kind == "rankN":
            rank = len(base) - 1
            _r, comps = components(f"rank{rank}", dim, sym)
        else:
            rank, comps = components(kind, dim, sym)
        names = [base + "".join(map(str, c)) for c in comps]
        kw = {"group": group}
        fs = ws = None
        if group == "EVOL":
            n = len(names) if pervalue else 1
            fs = [sp.Symbol(f"finf_{base}_{k}", real=True) for k in range(n)]
            ws = [sp.Symbol(f"speed_{base}_{k}", real=True) for k in range(n)]
            kw["f_infinity"] = fs if pervalue else fs[0]
            kw["wavespeed"] = ws if pervalue else ws[0]
        if kind == "scalar":
            out = nrpy_call(key, gri.register_gridfunctions, names if pervalue else names[0], **kw)
            got = [str(x) for x in out]
        else:
            if kind == "rank1":
                out = nrpy_call(key, gri.register_gridfunctions_for_single_rank1, base, dimension=dim, **kw)
            elif kind == "rank2":
                out = nrpy_call(key, gri.register_gridfunctions_for_single_rank2, base, symmetry=sym, dimension=dim, **kw)
            else:
                out = nrpy_call(key, gri.register_gridfunctions_for_single_rankN, base, rank=rank, symmetry=sym, dimension=dim, **kw)
            got = []
            for c in comps:
                x = out
                for i in c:
                    x = x[i]
                got.append(str(x))
        STATS.obligations += len(names)
        if got != names:
            report(key + ":names", f"{key}: {kind} {base} returns symbols {got[:6]}, expected {names[:6]}")
            return None
        for k, (nm, c) in enumerate(zip(names, comps)):
            want[nm] = (group, parity(rank, dim, c), str(fs[k if pervalue else 0]) if fs else None, str(ws[k if pervalue else 0]) if ws else None)
    return want


def case(arg):
    entries, pervalue, tag = arg
    key = f"registry:{tag}"
    encoded("nrpy.grid.register_gridfunctions*", "BHaHGridFunction.gridfunction_defines", "GridFunction.set_parity_types", "BHaH_defines_set_gridfunction_defines_with_parity_types")
    import nrpy.grid as gri
    import nrpy.params as par

    par.set_parval_from_str("Infrastructure", "BHaH")
    want = register(key, entries, pervalue)
    if want is None:
        return
    missing = [n for n in want if n not in gri.glb_gridfcs_dict]
    if missing or len(gri.glb_gridfcs_dict) != len(want):
        report(key + ":registered", f"{key}: components {missing[:5]} never registered ({len(gri.glb_gridfcs_dict)} of {len(want)})")
        return
    from nrpy.infrastructures.BHaH.CurviBoundaryConditions import CurviBoundaryConditions as cbc

    defs = nrpy_call(key, gri.BHaHGridFunction.gridfunction_defines)
    pars = nrpy_call(key, bhah.quiet, cbc.BHaH_defines_set_gridfunction_defines_with_parity_types, set_parity_on_aux=True, set_parity_on_auxevol=True, verbose=True)
    syms = sorted({x for v in want.values() for x in v[2:] if x})
    names = list(want)
    sel = "switch (k) { " + " ".join(f"case {i}: id = {n.upper()}GF; break;" for i, n in enumerate(names)) + " }"
    tabs = {"EVOL": "evol_gf_parity", "AUX": "aux_gf_parity", "AUXEVOL": "auxevol_gf_parity"}
    src = "#include <stdint.h>\n#define REAL double\n"
    body = defs.replace("static const REAL", "const REAL") + pars.replace("static const int8_t", "const int8_t")
    ps = "".join(f", REAL {s}" for s in syms)
    src += f"int q(int k, int what{ps}, REAL *out) {{\n{body}\n  int id = -1; {sel}\n"
    src += "  if (what == 0) { out[0] = id; return 0; }\n  if (what == 1) { switch (k) { " + " ".join(f"case {i}: out[0] = {tabs[want[n][0]]}[id]; break;" for i, n in enumerate(names)) + " } return 0; }\n"
    if any(v[0] == "EVOL" for v in want.values()):
        src += "  if (what == 2) { out[0] = gridfunctions_f_infinity[id]; return 0; }\n  if (what == 3) { out[0] = gridfunctions_wavespeed[id]; return 0; }\n"
    src += "  if (what == 4) out[0] = NUM_EVOL_GFS;\n  if (what == 5) out[0] = NUM_AUX_GFS;\n  if (what == 6) out[0] = NUM_AUXEVOL_GFS;\n  return 0; }\n"
    err = cexec.syntax_check(src, ("-Wno-error",), [])
    STATS.obligations += 1
    if err:
        report(key + ":compile", f"{key}: gridfunction definitions do not compile: {[l for l in err.splitlines() if 'error' in l][:2]}", {"gcc": err, "text": body[:4000]})
        return
    ex = cexec.Exec(src)

    def q(k, what):
        o = bhah.darr(ex, [V("junk")])
        ex.call("q", [S(INT, C(k)), S(INT, C(what))] + [S(DBL, V(s)) for s in syms] + [cexec.P(o)])
        return ex.read(ex.elem_obj(o, dag.ZERO)).n

    bad = decide(q, want, names)
    sample({"case": key, "gridfunctions": len(names)})
    if bad:
        rep = replay(src, names, want, syms)
        if rep:
            report(key, f"{key}: {bad}; compiled: {rep}", {"definitions": body[:6000]})
        else:
            raise Inconclusive(f"{key}: {bad} (compiled code agrees)")


def decide(q, want, names):
    pr = dag.Prover()
    try:
        idx = [q(k, 0) for k in range(len(names))]
        # injective and in range, for every pair of gridfunctions of one group
        for w, grp in ((4, "EVOL"), (5, "AUX"), (6, "AUXEVOL")):
            ks = [k for k, n in enumerate(names) if want[n][0] == grp]
            num = q(0, w)
            if num is not C(len(ks)):
                return f"NUM_{grp}_GFS is {dag.show(num)} for {len(ks)} gridfunctions"
            if not ks:
                continue
            f = z3.Function("idx_" + grp, z3.IntSort(), z3.IntSort())
            zi = lambda n: z3.ToInt(pr.z([n])[0])
            a, b = z3.Ints("a b")
            dom = lambda x: z3.Or([x == k for k in ks])
            ax = [f(k) == zi(idx[k]) for k in ks]
            STATS.obligations += 1
            r, m = pr._check(ax + [dom(a), dom(b), z3.Or(z3.And(a != b, f(a) == f(b)), f(a) < 0, f(a) >= len(ks))])
            if r != z3.unsat:
                if r != z3.sat:
                    raise Inconclusive("index injectivity undecided")
                i, j = m.eval(a).as_long(), m.eval(b).as_long()
                return f"{names[i]} and {names[j]} have indices {dag.show(idx[i])} and {dag.show(idx[j])} of {len(ks)}"
        for k, n in enumerate(names):
            grp, par, fi, ws = want[n]
            for w, e in ((1, C(par)), (2, fi and V(fi)), (3, ws and V(ws))):
                if e is None:
                    continue
                g = q(k, w)
                STATS.obligations += 1
                if not pr._poly(g, e, "full"):
                    return f"{n}: {('parity type', 'f_infinity', 'wavespeed')[w - 1]} is {dag.show(g)}, expected {dag.show(e)}"
    except (cexec.ExecError, KeyError) as e:
        return f"{type(e).__name__}: {e}"
    return None


def replay(src, names, want, syms):
    val = {s: 1.5 + 0.25 * k for k, s in enumerate(syms)}
    args = "".join(f", {val[s]!r}" for s in syms)
    t = src + "\n#include <stdio.h>\nint main() { REAL o[1];\n"
    for k, n in enumerate(names):
        for w in range(4):
            if w < 2 or want[n][2]:
                t += f'  o[0] = -77; q({k}, {w}{args}, o); printf("%.17g ", o[0]);\n'
            else:
                t += '  printf("0 ");\n'
    t += "".join(f'  q(0, {w}{args}, o); printf("%g ", o[0]);\n' for w in (4, 5, 6)) + "  return 0; }\n"
    d = scratch("p08_")
    try:
        unit = type("U", (), {"dir": d, "incdirs": [d]})
        import os

        os.makedirs(d + "/sub")
        o = bhah.crun(unit, t, asan=True)
    finally:
        rmtree(d)
    try:
        v = [float(x) for x in (o or "").split()]
    except ValueError:
        return o
    if len(v) != 4 * len(names) + 3:
        return o
    for grp, c in zip(("EVOL", "AUX", "AUXEVOL"), v[-3:]):
        ks = [k for k, n in enumerate(names) if want[n][0] == grp]
        if c != len(ks):
            return f"NUM_{grp}_GFS = {c:g}, {len(ks)} registered"
        if sorted(v[4 * k] for k in ks) != list(range(len(ks))):
            return f"{grp} indices {[(names[k], v[4 * k]) for k in ks][:12]}"
    for k, n in enumerate(names):
        if v[4 * k + 1] != want[n][1]:
            return f"{n}: parity type {v[4 * k + 1]:g}, expected {want[n][1]}"
        for w, s in ((2, want[n][2]), (3, want[n][3])):
            if s and v[4 * k + w] != val[s]:
                return f"{n}: {'f_infinity' if w == 2 else 'wavespeed'} {v[4 * k + w]:g}, expected {val[s]:g}"
    return None


# ---------------------------------------------------------------- memory accesses
def access(arg):
    infra, = arg
    key = f"access:{infra}"
    encoded("access_gf", "read_gf_from_memory_Ccode_onept")
    import nrpy.grid as gri
    import nrpy.params as par

    par.set_parval_from_str("Infrastructure", infra)
    cls = {"BHaH": gri.BHaHGridFunction, "ETLegacy": gri.ETLegacyGridFunction, "CarpetX": gri.CarpetXGridFunction}[infra]
    nrpy_call(key, gri.register_gridfunctions, ["uu", "vv"], group="EVOL")
    nrpy_call(key, gri.register_gridfunctions, ["ww"], group="AUXEVOL")
    offs = [(0, 0, 0)] + [tuple(s if d == q else 0 for d in R3) for q in R3 for s in (-5, -1, 1, 3)] + [(1, -2, 3), (-1, -1, -1), (2, 0, -4), (0, -3, 1)]
    exprs = []
    for o in offs:
        kw = dict(i0_offset=o[0], i1_offset=o[1], i2_offset=o[2])
        for nm in ("uu", "vv", "ww"):
            arr = "in_gfs" if nm != "ww" else "auxevol_gfs"
            exprs.append((nm, arr, o, nrpy_call(key, gri.glb_gridfcs_dict[nm].read_gf_from_memory_Ccode_onept, **kw)))
            if infra == "BHaH":
                exprs.append((nm, "out_gfs", o, nrpy_call(key, cls.access_gf, nm, gf_array_name="out_gfs", **kw)))
                exprs.append((nm, "other_gfs", o, nrpy_call(key, gri.glb_gridfcs_dict[nm].read_gf_from_memory_Ccode_onept, gf_array_name="other_gfs", **kw)))
            else:
                exprs.append((nm, arr, o, nrpy_call(key, cls.access_gf, nm, **kw)))
                exprs.append((nm, "plain", o, nrpy_call(key, cls.access_gf, nm, use_GF_suffix=False, **kw)))
                exprs.append((nm, "plain", o, nrpy_call(key, gri.glb_gridfcs_dict[nm].read_gf_from_memory_Ccode_onept, use_GF_suffix=False, **kw)))
    ids = {"uu": 3, "vv": 5, "ww": 7}
    src = "#define REAL double\n#define UUGF 3\n#define VVGF 5\n#define WWGF 7\n"
    if infra == "BHaH":
        src += "#define IDX4(g,i,j,k) ((i) + N0*((j) + N1*((k) + N2*(g))))\n#define ARGS int i0, int i1, int i2, int N0, int N1, int N2, double *in_gfs, double *auxevol_gfs, double *out_gfs, double *other_gfs\n"
        arrs = ["in_gfs", "auxevol_gfs", "out_gfs", "other_gfs"]
    elif infra == "ETLegacy":
        src += "#define CCTK_GFINDEX3D(gh,i,j,k) ((i) + N0*((j) + N1*(k)))\n#define ARGS int i0, int i1, int i2, int N0, int N1, int N2, double *uuGF, double *vvGF, double *wwGF, double *uu, double *vv, double *ww\n"
        arrs = ["uuGF", "vvGF", "wwGF", "uu", "vv", "ww"]
    else:
        src += "typedef struct { int I; int DI[3]; } PD;\n" + "".join(f"#define {n}{s}(x) {n}{s}_a[x]\n" for n in ids for s in ("", "GF"))
        src += "#define ARGS PD p, int i1, int i2, int N0, int N1, int N2, double *uuGF_a, double *vvGF_a, double *wwGF_a, double *uu_a, double *vv_a, double *ww_a\n"
        arrs = ["uuGF_a", "vvGF_a", "wwGF_a", "uu_a", "vv_a", "ww_a"]
    for k, e in enumerate(exprs):
        # a product in front catches accesses that are not a single term
        src += f"double f{k}(ARGS) {{ return 2.0*{e[3]}; }}\n"
    err = cexec.syntax_check(src, (), [])
    STATS.obligations += 1
    if err:
        report(key + ":compile", f"{key}: accesses do not compile: {[l for l in err.splitlines() if 'error' in l][:2]}", {"gcc": err})
        return
    pr = dag.Prover()
    N = [V(f"N{d}") for d in R3]
    i = [V(f"i{d}") for d in R3]
    ex = cexec.Exec(src)
    for k, (nm, arr, o, text) in enumerate(exprs):
        args = []
        if infra == "CarpetX":
            p = ex.newobj(ex.typedefs["PD"], "p")
            p.field("I").v = S(INT, V("I"))
            for d in R3:
                ex.write(ex.elem_obj(p.field("DI"), C(d)), S(INT, V(f"DI{d}")))
            args.append(p)
            args += [S(INT, i[1]), S(INT, i[2])]
        else:
            args += [S(INT, x) for x in i]
        args += [S(INT, x) for x in N]
        args += [cexec.P(cexec.Arr(ex, DBL, a, None, initfn=lambda ix, a=a: S(DBL, dag.fn("mem_" + a, ix)))) for a in arrs]
        got = ex.call(f"f{k}", args).n
        if infra == "CarpetX":
            ad = V("I")
            for d in R3:
                ad = add(ad, mul(C(o[d]), V(f"DI{d}")))
            a = nm + ("_a" if arr == "plain" else "GF_a")
        else:
            x = [add(i[d], C(o[d])) for d in R3]
            inner = add(x[2], mul(N[2], C(ids[nm]))) if infra == "BHaH" else x[2]
            ad = add(x[0], mul(N[0], add(x[1], mul(N[1], inner))))
            a = arr if infra == "BHaH" else nm if arr == "plain" else nm + "GF"
        w = mul(C(2), dag.fn("mem_" + a, ad))
        STATS.obligations += 1
        if not (pr.numeric_equal(got, w) and pr.equal(got, w)):
            # the sample point is a concrete address at which the two differ
            report(f"{key}:{nm}:{arr}:{o}", f"{key}: access to {nm} in {arr} at offset {o} is '{text}', which reads {dag.show(got)} instead of {dag.show(w)}", {"point": {k2: str(v) for k2, v in (pr.envs or [{}])[0].items()}})


def main():
    ck = Check(
        "P08",
        "other",
        assumptions=["gridfunction names remain distinct when upper-cased (they become macros)", "f_infinity and wavespeed print as C expressions of the same value"],
        bounds="registration sequences of up to 16 scalars, vectors and rank-2 tensors in 3 and 4 dimensions, in enumerated and seeded orders; f_infinity and wavespeed values, array sizes, indices symbolic; access offsets up to 5",
        explanation="The definitions emitted after real registrations are executed symbolically; z3 decides that the index map is injective and in range, and that parity type, f_infinity and wavespeed looked up at a gridfunction's index are its own, and that access strings address the right element",
    )
    cases = []
    rnd = random.Random(SEED)
    seqs = [("all", POOL), ("reversed", POOL[::-1])]
    for k in range(4 if QUICK else 24):
        s = list(POOL)
        rnd.shuffle(s)
        seqs.append((f"shuffle{k}", s[: rnd.randint(3, len(s))]))
    for e in POOL:
        seqs.append((f"only-{e[1]}", [e]))
    for (n, s), pv in itertools.product(seqs, (False, True)):
        cases.append((n + ("-lists" if pv else ""), case, (s, pv, n + ("-lists" if pv else ""))))
    for infra in ("BHaH", "ETLegacy", "CarpetX"):
        cases.append(("access-" + infra, access, (infra,)))
    ck.run(cases, timeout=300)
    ck.finish()


if __name__ == "__main__":
    main()
