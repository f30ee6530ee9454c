"""P21: code parameters: defaults, struct storage, and the local copies generated functions use."""
from fractions import Fraction

from vlib import bhah, cexec, dag, strx
from vlib.core import QUICK, STATS, Check, Inconclusive, encoded, nrpy_call, report, rmtree, sample
from vlib.dag import C, V, eq

INT, DBL, S, CHAR = cexec.INT, cexec.DBL, cexec.S, cexec.CHAR
z3 = dag.z3
NG = 3
# (C type, names, defaults, keyword arguments); a list of names goes through register_CodeParameters
SETS = {
    "scalars": [
        ("REAL", "a", 1.5, {}),
        ("REAL", "A", -2.25, {"commondata": True}),
        ("REAL", ["b0", "b1", "B2"], [1, 3.14, "1e-15"], {}),
        ("REAL", ["c0", "c1"], 0.125, {"commondata": True, "assumption": "RealPositive"}),
        ("REAL", ["d0", "d1", "d2"], [0.12345678901234567, 1.7e22, -9.876543210987654e-12], {"commondata": True}),
        ("REAL", ["e0", "e1"], [123456789, "0.70710678118654752440"], {}),
        ("int", "big", 2147483647, {}),
        ("int", "n", 7, {}),
        ("int", ["m_1", "m_2"], [-3, 0], {"commondata": True}),
        ("bool", "flag", True, {}),
        ("bool", ["f0", "F1"], [False, True], {"commondata": True}),
        ("REAL", "unset_one", "unset", {"add_to_parfile": False}),
        ("REAL", "hidden", 4.5, {"add_to_set_CodeParameters_h": False}),
        ("int", "hidden_c", 11, {"add_to_set_CodeParameters_h": False, "commondata": True}),
        ("REAL", "not_in_file", 6.5, {"add_to_parfile": False, "commondata": True}),
    ],
    "arrays": [
        ("REAL[5]", "ra", 2.5, {"commondata": True, "add_to_set_CodeParameters_h": False}),
        ("REAL[1]", "ra1", -0.3333333333333333, {"commondata": True, "add_to_set_CodeParameters_h": False}),
        ("int[3]", "ia", 42, {"commondata": True, "add_to_set_CodeParameters_h": False}),
        ("char[4]", "word", "abcdefgh", {}),
        ("char[30]", "text", "plain text, 50% of it %d", {"commondata": True}),
        ("char[6]", "empty", "", {"commondata": True}),
        ("char[6]", "fits", "exact", {}),
        ("REAL", "Text", 3.5, {}),
    ],
    "defines": [
        ("#define", "COUNT", 12, {}),
        ("#define", "TINY", 1e-30, {}),
        ("#define", "NEGATIVE", -3, {}),
        ("#define", "AS_TEXT", "3.25", {"commondata": True}),
        ("REAL", "z", 0.5, {}),
        ("int", "Z", 5, {"commondata": True}),
    ],
    "single": [("REAL", "only", 2.0, {})],
}
# later changes of a default
ADJUST = {"scalars": {"n": 19, "c1": 8.75, "flag": False, "A": 1e-7}, "arrays": {"text": "replaced", "ia": -1}}


def frac(v):
    return C(int(v)) if isinstance(v, bool) else C(Fraction(str(v)) if not isinstance(v, float) else Fraction(repr(v)))


def flat(setname):
    out = []
    for t, nm, d, kw in SETS[setname]:
        ns = nm if isinstance(nm, list) else [nm]
        ds = d if isinstance(d, list) else [d] * len(ns)
        for a, b in zip(ns, ds):
            out.append([t, a, b, kw])
    return out


def register(key, setname, adjust):
    import nrpy.params as par

    for t, nm, d, kw in SETS[setname]:
        f = par.register_CodeParameters if isinstance(nm, list) else par.register_CodeParameter
        r = nrpy_call(key, f, t, "verif_mod", nm, d, **kw)
        got = [str(x) for x in (r if isinstance(nm, list) else [r])]
        STATS.obligations += 1
        if got != (nm if isinstance(nm, list) else [nm]):
            report(key + ":symbols", f"{key}: registering {nm} returns symbols {got}")
    ps = flat(setname)
    if adjust:
        for n, v in ADJUST.get(setname, {}).items():
            nrpy_call(key, par.adjust_CodeParam_default, n, v)
            for p in ps:
                if p[1] == n:
                    p[2] = v
    return ps


def split(t):
    return (t.split("[")[0], int(t.split("[")[1][:-1])) if "[" in t else (t, None)


def case(arg):
    setname, adjust, fp = arg
    key = f"params:{setname}:{'adjusted' if adjust else 'plain'}:{fp}"
    encoded("register_CodeParameter(s)", "adjust_CodeParam_default", "write_CodeParameters_h_files", "register_CFunctions_params_commondata_struct_set_to_default", "output_BHaH_defines_h (parameter structs)", "CFunction (include_CodeParameters_h)")
    import nrpy.c_function as cfc
    import nrpy.grid  # noqa  (registers NUMGRIDS)
    import nrpy.params as par
    from nrpy.infrastructures.BHaH import CodeParameters

    par.set_parval_from_str("Infrastructure", "BHaH")
    par.set_parval_from_str("fp_type", fp)
    if "NUMGRIDS" not in par.glb_code_params_dict:
        nrpy_call(key, par.register_CodeParameter, "int", "verif", "NUMGRIDS", 1, commondata=True)
    ps = register(key, setname, adjust)
    nrpy_call(key, bhah.quiet, CodeParameters.register_CFunctions_params_commondata_struct_set_to_default)
    local = [p for p in ps if p[3].get("add_to_set_CodeParameters_h", True) and p[0] != "#define"]
    scal = [p for p in local if split(p[0])[1] is None]
    body = "".join(f"out[{k}] = {p[1]};\n" for k, p in enumerate(scal))
    sbody = "".join(f"WriteSIMD(&out[{k}*simd_width], {p[1]});\n" if p[0] == "REAL" else f"out[{k}*simd_width] = {p[1]};\n" for k, p in enumerate(scal))
    cp = "const commondata_struct *restrict commondata, const params_struct *restrict params, REAL *restrict out"
    for sub in (".", "one"):
        nm = "rd_" + sub.replace(".", "top")
        nrpy_call(key, cfc.register_CFunction, subdirectory=sub, includes=["BHaH_defines.h"], desc="verif", name=nm, params=cp, include_CodeParameters_h=True, body=body or ";")
        if fp == "double":
            nrpy_call(key, cfc.register_CFunction, subdirectory=sub, enable_simd=True, includes=["BHaH_defines.h"], desc="verif", name=nm + "_simd", params=cp, include_CodeParameters_h=True, body=sbody or ";")
    strs = [p for p in local if split(p[0])[0] == "char"]
    for p in strs:
        n = split(p[0])[1]
        nrpy_call(key, cfc.register_CFunction, includes=["BHaH_defines.h"], desc="verif", name="str_" + p[1], params=cp.replace("REAL *restrict out", "char *out"), include_CodeParameters_h=True, body=f"for (int k = 0; k < {n}; k++) out[k] = {p[1]}[k];\n")
    defs = [p for p in ps if p[0] == "#define"]
    post = "void rd_np(const commondata_struct commondata, const params_struct params, REAL *out) {\n#include \"set_CodeParameters-nopointer.h\"\n" + body + "}\n"
    post += "void rd_def(REAL *out) {\n" + "".join(f"  out[{k}] = 2.0*{p[1]};\n" for k, p in enumerate(defs)) + "  ;\n}\n"
    import nrpy.finite_difference  # noqa

    unit = bhah.Unit(simd=True, key=key, header_kw={"enable_rfm_precompute": False})
    try:
        names = [n for n in cfc.CFunction_dict if "simd" not in n]
        src = unit.source(names, "", post)
        ssrc = unit.source([n for n in cfc.CFunction_dict if n.endswith("_simd")]) if fp == "double" else None
        STATS.obligations += 1
        for s, fl in ((src, ()), (ssrc, ("-mavx", "-mno-fma"))):
            err = s and cexec.syntax_check(s, fl, unit.incdirs)
            if err:
                report(key + ":compile", f"{key}: generated code does not compile: {[l for l in err.splitlines() if 'error' in l][:2]}", {"gcc": err})
                return
        bad = defaults(src, unit, ps) or locals_(src, unit, scal, defs) or strings(src, unit, strs)
        if not bad and ssrc:
            bad = simd(ssrc, unit, scal)
        sample({"case": key, "parameters": len(ps)})
        if bad:
            r = replay(unit, src, ps, scal, strs, defs, ssrc, fp)
            if not r:
                raise Inconclusive(f"{key}: {bad} (compiled code agrees)")
            report(key, f"{key}: {bad}; compiled: {r}")
    finally:
        rmtree(unit.dir)


def junk(ex, st, tag):
    for f in st.t.fields:
        o = st.field(f)
        if isinstance(o, cexec.Arr):
            for k in range(o.n):
                o.conc[k] = S(o.elem, V(f"{tag}{f}[{k}]"))
        elif isinstance(o, cexec.Cell) and o.t.k in ("int", "flt"):
            o.v = S(o.t, V(f"{tag}{f}"))
    return st


def value(ex, st, f):
    o = st.field(f)
    return [ex.read(ex.elem_obj(o, C(k))).n for k in range(o.n)] if isinstance(o, cexec.Arr) else o.v.n


def wanted(p, tag):
    """Field contents after set_to_default."""
    b, n = split(p[0])
    if p[2] == "unset":
        return V(tag + p[1])
    if b == "char":
        t = [C(ord(c)) for c in p[2][: n - 1]] + [C(0)]
        return t + [V(f"{tag}{p[1]}[{k}]") for k in range(len(t), n)]
    return [frac(p[2])] * n if n else frac(p[2])


def same(pr, g, w, char=False):
    if isinstance(w, list):
        if not isinstance(g, list) or len(g) != len(w):
            return False
        if char:
            # only the text matters
            g, w = (x[: x.index(C(0)) + 1] if C(0) in x else x for x in (g, w))
            return g == w
        return all(same(pr, a, b) for a, b in zip(g, w))
    STATS.obligations += 1
    if dag.isc(g) and dag.isc(w):
        return float(g.a[0]) == float(w.a[0])
    return g is w or (pr.numeric_equal(g, w) and pr.equal(g, w))


def defaults(src, unit, ps):
    ex = strx.PathExec(src, unit.incdirs)
    ex.reset()
    pr = dag.Prover()
    try:
        cd = junk(ex, ex.newobj(ex.typedefs["commondata_struct"], "cd"), "c:")
        ex.call("commondata_struct_set_to_default", [cexec.P(cd)])
        cd.field("NUMGRIDS").v = S(INT, C(NG - 1))
        gd = cexec.Arr(ex, ex.typedefs["griddata_struct"], "gd", NG)
        gs = []
        for g in range(NG):
            st = ex.newobj(ex.typedefs["griddata_struct"], f"gd{g}")
            gd.conc[g] = st
            gs.append(junk(ex, st.field("params"), f"p{g}:"))
        ex.call("params_struct_set_to_default", [cexec.P(cd), cexec.P(gd)])
    except cexec.ExecError as e:
        return f"{type(e).__name__}: {e}"
    except Inconclusive as e:
        if "format" in str(e):
            return f"setting defaults: {e}"
        raise
    for p in ps:
        if p[0] == "#define":
            continue
        for st, tag, on in [(cd, "c:", True)] if p[3].get("commondata") else [(gs[g], f"p{g}:", g < NG - 1) for g in range(NG)]:
            if p[1] not in st.t.fields:
                return f"{p[1]} is not a member of its struct"
            q = p if on else [p[0], p[1], "unset"]
            w = wanted(q, tag) if on or not split(p[0])[1] else [V(f"{tag}{p[1]}[{k}]") for k in range(split(p[0])[1])]
            g = value(ex, st, p[1])
            if not same(pr, g, w, char="char" in p[0]):
                return f"default of {p[1]} is {show(g)}, expected {show(w)}"
    return None


def show(g):
    return str([dag.show(x) for x in g] if isinstance(g, list) else dag.show(g))[:150]


def sym(q):
    v = V(("c:" if q[3].get("commondata") else "p:") + q[1])
    return dag.ite(dag.not_(eq(v, C(0))), C(1), C(0)) if q[0] == "bool" else v


def structs(ex):
    return junk(ex, ex.newobj(ex.typedefs["commondata_struct"], "cd"), "c:"), junk(ex, ex.newobj(ex.typedefs["params_struct"], "p"), "p:")


def locals_(src, unit, scal, defs):
    pr = dag.Prover()
    for fn in ("rd_top", "rd_one", "rd_np", "rd_def"):
        ex = strx.PathExec(src, unit.incdirs)
        ex.decide = lambda c: False  # characters of strings: irrelevant here
        ex.reset()
        cd, p = structs(ex)
        out = bhah.darr(ex, [None] * max(1, len(scal) + len(defs)))
        try:
            ex.call(fn, [cexec.P(out)] if fn == "rd_def" else [cd, p, cexec.P(out)] if fn == "rd_np" else [cexec.P(cd), cexec.P(p), cexec.P(out)])
        except cexec.ExecError as e:
            return f"{fn}: {e}"
        for k, q in enumerate(defs if fn == "rd_def" else scal):
            g = ex.read(ex.elem_obj(out, C(k))).n
            w = dag.mul(C(2), frac(q[2])) if fn == "rd_def" else sym(q)
            if not same(pr, g, w):
                return f"{fn}: {q[1]} reads {dag.show(g)}, expected {dag.show(w)}"
    return None


def strings(src, unit, strs):
    """For all contents of a string parameter the local copy is the same text, terminated."""
    for p in strs:
        n = split(p[0])[1]
        m = min(n, 6)
        ex = strx.PathExec(src, unit.incdirs)
        fe = strx.Feasible(lambda _n: (-128, 127))

        def run(decide, p=p, n=n, ex=ex, m=m):
            ex.reset()
            ex.decide = decide
            cd, q = structs(ex)
            st = cd if p[3].get("commondata") else q
            for x in (cd, q):
                for f in x.t.fields:
                    o = x.field(f)
                    if isinstance(o, cexec.Arr) and o.elem.name and "char" in o.elem.name and f != p[1]:
                        for k in range(o.n):
                            o.conc[k] = S(CHAR, C(0))
            o = st.field(p[1])
            for k in range(m, n):
                o.conc[k] = S(CHAR, C(0))
            tag = "c:" if p[3].get("commondata") else "p:"
            src_ = [V(f"{tag}{p[1]}[{k}]") for k in range(m)] + [C(0)] * (n - m)
            ln = 0
            while ln < n - 1 and not decide(eq(src_[ln], C(0))):
                ln += 1
            out = cexec.Arr(ex, CHAR, "out", n)
            try:
                ex.call("str_" + p[1], [cexec.P(cd), cexec.P(q), cexec.P(out)])
            except cexec.ExecError as e:
                return f"{p[1]}: {e}"
            got = [ex.read(ex.elem_obj(out, C(k))).n for k in range(ln + 1)]
            return None if got == src_[:ln] + [C(0)] else f"string {p[1]}: local copy is {show(got)}"

        for _pc, r in cexec.explore(run, fe):
            STATS.obligations += 1
            if r:
                return r
    return None


def simd(src, unit, scal):
    pr = dag.Prover()
    defs, w = ("__SSE2__=1", "__SSE3__=1", "__AVX__=1"), 4
    for fn in ("rd_top_simd", "rd_one_simd"):
        ex = cexec.Exec(src, defs, unit.incdirs, width=w)
        cd, p = structs(ex)
        out = bhah.darr(ex, [None] * max(1, w * len(scal)))
        try:
            ex.call(fn, [cexec.P(cd), cexec.P(p), cexec.P(out)])
        except cexec.ExecError as e:
            return f"{fn}: {e}"
        for k, q in enumerate(scal):
            for l in range(w if q[0] == "REAL" else 1):
                g = ex.read(ex.elem_obj(out, C(k * w + l))).n
                if not same(pr, g, sym(q)):
                    return f"{fn}: lane {l} of {q[1]} reads {dag.show(g)}"
    return None


def replay(unit, src, ps, scal, strs, defs, ssrc, fp):
    """Compiled: defaults of every field, then locals with distinct field values."""
    real = [p for p in ps if p[0] != "#define"]
    m = "#include <stdio.h>\nint main() {\n  static commondata_struct cd; static griddata_struct gd[3]; REAL out[4096]; char s[256]; memset(&cd, 90, sizeof cd); memset(gd, 90, sizeof gd);\n  commondata_struct_set_to_default(&cd); cd.NUMGRIDS = 2; params_struct_set_to_default(&cd, gd);\n"
    want = []

    def show_field(p, st):
        nonlocal m
        b, n = split(p[0])
        if p[2] == "unset":
            return
        if b == "char":
            m += f'  puts({st}.{p[1]});\n'
            want.append((p[1], p[2][: n - 1]))
        else:
            for k in range(n or 1):
                m += f'  printf("%.17g\\n", (double){st}.{p[1]}{f"[{k}]" if n else ""});\n'
                want.append((p[1], float(p[2])))

    for p in real:
        for st in ["cd"] if p[3].get("commondata") else ["gd[0].params", "gd[1].params"]:
            show_field(p, st)
    k = 2
    vals = {}
    for p in scal:
        st = "cd" if p[3].get("commondata") else "gd[0].params"
        v = 1 if p[0] == "bool" else k
        k += 1
        vals[p[1]] = v
        m += f"  {st}.{p[1]} = {v};\n"
    for fn in ("rd_top", "rd_one", "rd_np"):
        m += f"  memset(out, 0, sizeof out); {fn}({'cd, gd[0].params' if fn == 'rd_np' else '&cd, &gd[0].params'}, out);\n"
        for i, p in enumerate(scal):
            m += f'  printf("%.17g\\n", (double)out[{i}]);\n'
            want.append((f"{fn}:{p[1]}", float(vals[p[1]])))
    m += "  rd_def(out);\n"
    for i, p in enumerate(defs):
        m += f'  printf("%.17g\\n", (double)out[{i}]);\n'
        want.append((p[1], 2 * float(p[2])))
    for p in strs:
        n = split(p[0])[1]
        st = "cd" if p[3].get("commondata") else "gd[0].params"
        for t in ("", "q", "x" * (n - 1)):
            m += f'  memset(s, 88, 256); strcpy({st}.{p[1]}, "{t}"); str_{p[1]}(&cd, &gd[0].params, s); s[{n}] = 0; puts(s);\n'
            want.append(("local " + p[1], t))
    o = bhah.crun(unit, src + m + "  return 0; }\n", asan=True)
    r = compare(o, want, 1e-6 if fp == "float" else 0)
    if r or not ssrc:
        return r
    m = "#include <stdio.h>\nint main() {\n  static commondata_struct cd; static griddata_struct gd[1]; static REAL out[4096];\n"
    want = []
    for p in scal:
        m += f"  {'cd' if p[3].get('commondata') else 'gd[0].params'}.{p[1]} = {vals[p[1]]};\n"
    for fn in ("rd_top_simd", "rd_one_simd"):
        m += f"  {fn}(&cd, &gd[0].params, out);\n"
        for i, p in enumerate(scal):
            for l in range(4 if p[0] == "REAL" else 1):
                m += f'  printf("%.17g\\n", (double)out[{i}*4+{l}]);\n'
                want.append((f"{fn}:{p[1]}", float(vals[p[1]])))
    return compare(bhah.crun(unit, ssrc + m + "  return 0; }\n", ("-mavx", "-mno-fma")), want)


def compare(o, want, tol=0):
    ls = (o or "").split("\n")
    if o and o.startswith(("does not", "exits with")):
        return o
    ls += [""] * (len(want) - len(ls))
    for (n, w), g in zip(want, ls):
        if isinstance(w, str):
            if g != w:
                return f"{n} = {g!r}, expected {w!r}"
        else:
            try:
                if abs(float(g) - w) > tol * abs(w):
                    return f"{n} = {g}, expected {w}"
            except ValueError:
                return f"{n} = {g!r}, expected {w}"
    return None


# ---------------------------------------------------------------- Einstein Toolkit
ET = [("REAL", "ra"), ("CCTK_REAL", "rb"), ("CCTK_INT", "na"), ("REAL", "Rc"), ("CCTK_INT", "invn")]


def et(arg):
    infra, use_simd, inv, order = arg
    key = f"params:{infra}:{'simd' if use_simd else 'scalar'}:{int(inv)}:{order}"
    encoded(f"{infra}.CodeParameters.read_CodeParameters")
    import importlib

    import nrpy.params as par

    par.set_parval_from_str("Infrastructure", infra)
    mod = importlib.import_module(f"nrpy.infrastructures.{infra}.CodeParameters")
    use = list(ET)
    thorn = {}
    for k, (t, n) in enumerate(ET):
        nrpy_call(key, par.register_CodeParameter, t, "some_module", n, 1)
        thorn[n] = f"Thorn{(k * 2) % 3}"
    lst = [(thorn[n], n) for _t, n in use]
    if order:
        lst = lst[::-1]
    text = nrpy_call(key, mod.read_CodeParameters, list_of_tuples__thorn_CodeParameter=lst, enable_simd=use_simd, declare_invdxxs=inv)
    outs = [(n, t) for t, n in use] + ([(f"invdxx{d}", "REAL") for d in range(3)] if inv else [])
    w = 4 if use_simd else 1
    src = "#include <stddef.h>\ntypedef double CCTK_REAL; typedef int CCTK_INT; typedef double REAL;\n#define CCTK_DELTA_SPACE(d) (dx[d])\nstatic double dx[3];\nconst void *CCTK_ParameterGet(const char *name, const char *thorn, int *type);\n"
    src += "void setdx(const double *v) { dx[0] = v[0]; dx[1] = v[1]; dx[2] = v[2]; }\n"
    src += "".join(f"static {'int' if t == 'CCTK_INT' else 'double'} v_{n};\n" for t, n in ET)
    src += "#define DECLARE_CCTK_PARAMETERS " + " ".join(f"const {'int' if t == 'CCTK_INT' else 'double'} {n} = v_{n};" for t, n in ET) + "\n"
    if use_simd:
        src = '#include "simd_intrinsics.h"\n' + src
    src += f"void rd(double *out) {{\n{text}\n" + "".join((f"  WriteSIMD(&out[{k}*simd_width], {n});\n" if use_simd and t != "CCTK_INT" else f"  for (int l = 0; l < {w}; l++) out[{k}*{w} + l] = {n};\n") for k, (n, t) in enumerate(outs)) + "}\n"
    fl = ("-mavx", "-mno-fma") if use_simd else ()
    err = cexec.syntax_check(src, fl, [bhah.HELPERS])
    STATS.obligations += 1
    if err:
        report(key + ":compile", f"{key}: parameter reads do not compile: {[l for l in err.splitlines() if 'error' in l][:2]}", {"gcc": err, "text": text})
        return
    ex = cexec.Exec(src, ("__SSE2__=1", "__SSE3__=1", "__AVX__=1") if use_simd else (), [bhah.HELPERS], width=w)
    cells = {}
    for t, n in ET:
        o = ex.globals["v_" + n]
        o.v = S(o.t, V("val_" + n))
        cells[(thorn[n], n)] = o
    lit = lambda p: "".join(chr(int(p.obj.conc[k].n.a[0])) for k in range(p.obj.n - 1))

    def get(e, _n, a):
        return cexec.P(cells.get((lit(a[1]), lit(a[0]))))

    ex.stubs["CCTK_ParameterGet"] = get
    out = bhah.darr(ex, [None] * (w * len(outs)))
    bad = None
    pr = dag.Prover()
    try:
        ex.call("setdx", [cexec.P(bhah.darr(ex, [V(f"dx{d}") for d in range(3)]))])
        ex.call("rd", [cexec.P(out)])
        for k, (n, _t) in enumerate(outs):
            wv = dag.div(C(1), V("dx" + n[-1])) if n.startswith("invdxx") else V("val_" + n)
            for l in range(w):
                g = ex.read(ex.elem_obj(out, C(k * w + l)))
                STATS.obligations += 1
                if not isinstance(g, S) or not pr.equal(g.n, wv):
                    bad = bad or f"{n} reads {dag.show(g.n) if isinstance(g, S) else g}, expected {dag.show(wv)}"
    except (cexec.ExecError, AttributeError, TypeError) as e:
        bad = f"{type(e).__name__}: {e}"
    sample({"case": key, "text": text[:400]})
    if not bad:
        return
    vals = {n: 3 + k for k, (_t, n) in enumerate(ET)}
    m = "#include <stdio.h>\n#include <string.h>\nconst void *CCTK_ParameterGet(const char *name, const char *thorn, int *type) {\n" + "".join(f'  if (!strcmp(name, "{n}") && !strcmp(thorn, "{thorn[n]}")) return &v_{n};\n' for _t, n in ET) + "  return 0;\n}\n"
    m += f"int main() {{ double out[{w * len(outs)}], d[3] = {{0.5, 0.25, 0.125}}; setdx(d);\n" + "".join(f"  v_{n} = {v};\n" for n, v in vals.items()) + f'  rd(out); for (int i = 0; i < {w * len(outs)}; i++) printf("%.17g\\n", out[i]); return 0; }}\n'
    from vlib.core import scratch

    d = scratch("p21_")
    try:
        import os

        os.makedirs(d + "/sub")
        unit = type("U", (), {"dir": d, "incdirs": [d, bhah.HELPERS]})
        o = bhah.crun(unit, src + m, fl)
    finally:
        rmtree(d)
    want = [(n, {"invdxx0": 2.0, "invdxx1": 4.0, "invdxx2": 8.0}.get(n, float(vals.get(n, 0)))) for n, _t in outs for _l in range(w)]
    r = compare(o, want)
    if not r:
        raise Inconclusive(f"{key}: {bad} (compiled code agrees)")
    report(key, f"{key}: {bad}; compiled: {r}", {"text": text})


def main():
    ck = Check(
        "P21",
        "other",
        assumptions=["defaults are numbers, booleans or texts without quotes and backslashes"],
        bounds="four parameter sets covering every type, storage and visibility option, before and after changing defaults; three floating-point types; all field values symbolic, all string contents up to six characters; Einstein Toolkit reads for two infrastructures",
        explanation="Generated default setters and functions including set_CodeParameters*.h are executed symbolically; z3 and exact comparison decide that each parameter has its own default on every grid and that each local equals its own struct field",
    )
    cases = []
    for s in SETS:
        for adj in ((False, True) if s in ADJUST else (False,)):
            for fp in ("double", "float", "long double") if s == "scalars" or not QUICK else ("double",):
                cases.append((f"{s}_{int(adj)}_{fp.replace(' ', '_')}", case, (s, adj, fp)))
    for infra in ("ETLegacy", "CarpetX"):
        for sm in (False, True):
            for inv in (False, True):
                for o in (0, 1):
                    cases.append((f"{infra}_{int(sm)}_{int(inv)}_{o}", et, (infra, sm, inv, o)))
    ck.run(cases, timeout=300)
    ck.finish()


if __name__ == "__main__":
    main()
