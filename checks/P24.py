"""P24: a coordinate-specific function is reached through its wrapper exactly for its own coordinate system."""
import re
import time

from vlib import bhah, cexec, dag
from vlib.core import QUICK, STATS, Check, Inconclusive, encoded, nrpy_call, report, rmtree, sample
from vlib.dag import C, V, eq

INT, DBL, S, P, T = cexec.INT, cexec.DBL, cexec.S, cexec.P, cexec.T
z3 = dag.z3
CP = "const commondata_struct *restrict commondata, const params_struct *restrict params"
ALL = ["Spherical", "SinhSpherical", "SinhSphericalv2n2", "HoleySinhSpherical", "RingHoleySinhSpherical", "Cartesian", "SinhCartesian", "Cylindrical", "SinhCylindrical", "SinhCylindricalv2n2", "SymTP", "SinhSymTP", "LWedgeHSinhSph", "UWedgeHSinhSph"]
SHAPES = {
    "point": CP + ", REAL *restrict xx[3], const int i0, const int i1, const int i2, REAL xCart[3]",
    "params_only": "const params_struct *restrict params",
    "params_last": "REAL *restrict out_gfs, const int flag, const commondata_struct *restrict commondata, params_struct *restrict params",
    "swapped": CP + ", const REAL b, const REAL a, REAL *restrict y, REAL *restrict x",
    "multiline": "const commondata_struct *restrict commondata,\n    const params_struct *restrict params,\n        REAL   *restrict   in_gfs,\nREAL *out_gfs",
    "function": CP + ", REAL *restrict xx[3], void ID_function(const params_struct *restrict params, const REAL xCart[3], REAL *out), const int after",
    "array2d": CP + ", REAL a[NGHOSTS][3], int8_t p[3], const REAL *restrict c",
    "pointerstyles": CP + ", REAL * a, REAL*b, REAL **c, const bool d",
    "names": CP + ", const REAL x, const REAL xx, const REAL x_x, const REAL X0[12]",
}


def zcheck(s):
    t = time.time()
    r = s.check()
    STATS.queries += 1
    STATS.solver_s += time.time() - t
    STATS.unsat += r == z3.unsat
    STATS.sat += r == z3.sat
    if r == z3.unknown:
        raise Inconclusive("solver returned unknown")
    return r


def register(key, funcs):
    """funcs: name -> (params, systems)."""
    import nrpy.c_function as cfc
    import nrpy.params as par

    par.set_parval_from_str("Infrastructure", "BHaH")
    import nrpy.finite_difference  # noqa
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep  # noqa

    cfc.CFunction_dict.clear()
    for nm, (ps, systems) in funcs.items():
        for cs in systems:
            if ps is None:
                from nrpy.infrastructures.BHaH import xx_tofrom_Cart as xc

                nrpy_call(key, bhah.quiet, {"xx_to_Cart": xc.register_CFunction_xx_to_Cart, "Cart_to_xx_and_nearest_i0i1i2": xc.register_CFunction__Cart_to_xx_and_nearest_i0i1i2}[nm], cs)
            else:
                nrpy_call(key, cfc.register_CFunction, includes=["BHaH_defines.h"], desc="d", name=nm, params=ps, body="  return;\n", CoordSystem_for_wrapper_func=cs)
    cfc.register_CFunction(includes=["BHaH_defines.h"], desc="d", name="plain", params=CP, body="  return;\n")
    before = set(cfc.CFunction_dict)
    bhah.wrappers(key)
    bhah.rfm_typedef()
    unit = bhah.Unit(key=key)
    new = [n for n in cfc.CFunction_dict if n not in before]
    STATS.obligations += 1
    if sorted(new) != sorted(funcs):
        report(key + ":set", f"{key}: wrappers {sorted(new)} for functions {sorted(funcs)}", {})
        return None
    decls = "".join(cfc.CFunction_dict[n].function_prototype + "\n" for n in cfc.CFunction_dict)
    src = unit.source(new, pre="#include <stdlib.h>\n#include <stdio.h>\n" + decls)
    err = cexec.syntax_check(src, ("-Wall", "-Wextra", "-Werror=int-conversion", "-Werror=incompatible-pointer-types"), unit.incdirs)
    STATS.obligations += 1
    if err:
        report(key + ":compile", f"{key}: the wrappers do not compile: {[l for l in err.splitlines() if 'error' in l][:2]}", {"gcc": err})
        rmtree(unit.dir)
        return None
    hashes = {}
    with open(unit.dir + "/BHaH_defines.h", encoding="utf-8") as f:
        text = f.read()
    for _, systems in funcs.values():
        for cs in systems:
            m = re.findall(rf"^#define {cs.upper()} (\S+)$", text, re.M)
            if len(set(m)) != 1:
                report(key + ":define", f"{key}: {cs.upper()} is defined as {m}", {})
                return None
            hashes[cs] = int(m[0])
    return unit, src, hashes


class Exit(Exception):
    pass


def arguments(ex, name):
    """One distinct object or symbol per parameter."""
    f = ex.funcs[name]
    out = []
    hashes = V("hash")
    for q in f.decl.type.args.params:
        t = ex.ty(q.type)
        if t.k == "arr":
            t = T("ptr", elem=t.elem)
        if t.k == "func":
            a = S(T("func", name="fn_" + q.name), V("&fn_" + q.name))
        elif t.k == "ptr" and t.elem is not None and t.elem.k == "struct":
            o = ex.newobj(t.elem, q.name)
            bhah.symbolic_struct(o, q.name + ".")
            if q.name == "params":
                o.field("CoordSystem_hash").v = S(INT, hashes)
            a = P(o, dag.ZERO, t)
        elif t.k == "ptr":
            a = P(cexec.Arr(ex, t.elem, q.name, 64), dag.ZERO, t)
        else:
            # a bool holds 0 or 1: leave it to the conversion's fixed point
            a = S(t, C(1) if t.name == "_Bool" else V("arg:" + q.name))
        out.append(a)
    return out


def same(a, b):
    if isinstance(a, cexec.Arr):
        a = P(a)
    if isinstance(a, P) and isinstance(b, P):
        return a.obj is b.obj and a.off is b.off
    if isinstance(a, S) and isinstance(b, S):
        return a.n is b.n
    return False


def case(arg):
    key, funcs = arg
    encoded("register_CFunctions_CoordSystem_wrapper_funcs (generated wrappers)", "get_CoordSystem_hash", "register_CFunction")
    st = register(key, funcs)
    if st is None:
        return
    unit, src, hashes = st
    try:
        # no two systems share a value; every value is an int
        STATS.obligations += 1
        s = z3.Solver()
        vs = {cs: z3.Int(cs) for cs in hashes}
        for cs, h in hashes.items():
            s.add(vs[cs] == h)
        s.add(z3.Or([z3.Not(z3.Distinct(*vs.values()))] + [z3.Or(v < -(2**31), v >= 2**31) for v in vs.values()]))
        if zcheck(s) != z3.unsat:
            report(key + ":hash", f"{key}: two coordinate systems share a hash or one is no int: {hashes}", {})
            return
        ex = cexec.Exec(src, incdirs=unit.incdirs)
        for nm, (_ps, systems) in funcs.items():
            log = []

            def record(_e, n, a):
                log.append((n, list(a)))

            def quit_(_e, _n, a):
                raise Exit(a[0].n)

            ex.stubs["exit"] = quit_
            for n2, (_p2, sy2) in funcs.items():
                for cs in sy2:
                    ex.stubs[f"{n2}__rfm__{cs}"] = record
            args = arguments(ex, nm)

            def run(decide):
                ex.reset() if hasattr(ex, "reset") else None
                ex.decide = decide
                log.clear()
                try:
                    ex.call(nm, args)
                    return list(log), None
                except Exit as e:
                    return list(log), e.args[0]

            h = z3.Int("h")
            for pc, (calls, code) in cexec.explore(run, lambda c: feasible(c, h)):
                # for every hash on this path: the one right callee, or exit with a nonzero status
                for cs in systems + [None]:
                    STATS.obligations += 1
                    s = z3.Solver()
                    s.add(h >= -(2**31), h < 2**31)
                    s.add([cond(c, h) for c in pc])
                    s.add(h == hashes[cs] if cs else z3.And([h != hashes[x] for x in systems]))
                    if zcheck(s) == z3.unsat:
                        continue
                    val = s.model()[h].as_long()
                    bad = None
                    if cs is None:
                        if calls or code is None or (dag.isc(code) and code.a[0] == 0):
                            bad = f"{nm} with a hash of no registered system calls {[n for n, _ in calls]} and {'returns' if code is None else 'exits with status 0'}"
                    elif code is not None or [n for n, _ in calls] != [f"{nm}__rfm__{cs}"]:
                        bad = f"{nm} for {cs} calls {[n for n, _ in calls]}" + (" and exits" if code is not None else "")
                    elif len(calls[0][1]) != len(args) or not all(same(a, b) for a, b in zip(calls[0][1], args)):
                        bad = f"{nm} for {cs} does not pass its arguments through in order"
                    if bad:
                        r = replay(ex, unit, src, funcs, nm, val, f"{nm}__rfm__{cs}" if cs else None)
                        if r is None:
                            raise Inconclusive(f"{key}: {bad}: the compiled code does not show it")
                        report(f"{key}:{nm}", f"{key}: {bad}; compiled with CoordSystem_hash = {val}: {r}", {})
                        return
        sample({"case": key, "functions": sorted(funcs), "hashes": hashes})
    finally:
        rmtree(unit.dir)


def cond(n, h):
    if n is dag.TRUE:
        return z3.BoolVal(True)
    if n.op == "not":
        return z3.Not(cond(n.a[0], h))
    if n.op in ("and", "or"):
        return (z3.And if n.op == "and" else z3.Or)([cond(x, h) for x in n.a])
    t = lambda x: h if x is V("hash") else z3.IntVal(int(x.a[0])) if dag.isc(x) else None
    if n.op in ("==", "<", "<="):
        a, b = t(n.a[0]), t(n.a[1])
        if a is not None and b is not None:
            return a == b if n.op == "==" else a < b if n.op == "<" else a <= b
    raise Inconclusive("condition " + dag.show(n))


def feasible(conds, h):
    s = z3.Solver()
    s.add(h >= -(2**31), h < 2**31)
    s.add([cond(c, h) for c in conds])
    return zcheck(s) == z3.sat


def replay(ex, unit, src, funcs, nm, val, want):
    """The compiled wrapper with printing callees."""
    t = src + "\n#include <stdint.h>\nstatic unsigned char mem[64][4096];\n"
    for n2, (_p, systems) in funcs.items():
        q = ex.funcs[n2].decl.type.args.params
        sig = re.search(rf"void {n2}__rfm__{systems[0]}\((.*?)\);", src, re.S).group(1)
        for cs in systems:
            t += f'void {n2}__rfm__{cs}({sig}) {{ printf("{n2}__rfm__{cs}"'
            t += ");"
            for k in q:
                ty = ex.ty(k.type).k
                t += f' printf(" %.17g", (double){k.name});' if ty in ("int", "flt") else f' printf(" %zu", (size_t)(uintptr_t){k.name});'
            t += ' printf("\\n"); }\n'
    t += "int main(void) {\n  static params_struct pp; pp.CoordSystem_hash = %d;\n  size_t base = (size_t)mem;\n" % val
    call, show = [], ""
    for j, k in enumerate(ex.funcs[nm].decl.type.args.params):
        ty = ex.ty(k.type).k
        if ty in ("int", "flt"):
            v = (j % 2) if "bool" in re.sub(r"\s", "", str(src)) and ty == "int" else j + 2
            call.append(str(v))
            show += f' printf(" %.17g", (double){v});'
        else:
            v = "&pp" if k.name == "params" else f"mem[{j}]"
            call.append(f"(void *){v}")
            show += f' printf(" %zu", (size_t)(uintptr_t){v});'
    t += f'  printf("{want or "EXIT"}");{show if want else ""} printf("\\n");\n  {nm}({", ".join(call)});\n  printf("RETURNED\\n");\n  return 0;\n}}\n'
    r = bhah.crun(unit, t)
    if r is None or "does not compile" in r:
        raise Inconclusive("replay: " + str(r)[:300])
    l = r.splitlines()
    if want is None:
        return None if r.startswith("exits with status") else f"prints {l[1:]} instead of stopping"
    if r.startswith("exits with status"):
        return r[:150]
    return None if l[1:] == [l[0], "RETURNED"] else f"got {l[1:]}, expected {l[0]!r}"


def main():
    ck = Check(
        "P24",
        "other",
        assumptions=["wrapped functions take params and return void; at most one function parameter; array sizes are numbers or macros"],
        bounds="every int value of CoordSystem_hash; nine parameter-list shapes, two real functions, all 14 coordinate systems at once and in subsets",
        explanation="Each generated wrapper is executed with a symbolic CoordSystem_hash; z3 decides on each path that the one call made is the function of the system with that hash, with the same arguments in order, and that other values stop the program",
    )
    cases = []
    A = lambda n, f: cases.append((n, case, ("dispatch:" + n, f)))
    for n, ps in SHAPES.items():
        A("shape-" + n, {"f": (ps, ["SinhSpherical", "Spherical", "Cartesian"])})
    A("all", {"f": (SHAPES["point"], ALL), "g": (SHAPES["params_only"], ALL[::-1])})
    A("overlap", {"f": (SHAPES["point"], ["Spherical", "SinhSpherical"]), "f2": (SHAPES["swapped"], ["SinhSpherical", "SinhSphericalv2n2"]), "g_f": (SHAPES["function"], ["Cartesian"]), "f_g": (SHAPES["params_last"], ["SinhSymTP", "SymTP", "Spherical"])})
    A("one", {"f": (SHAPES["point"], ["Spherical"])})
    A("real", {"xx_to_Cart": (None, ["Spherical", "SinhSpherical", "Cartesian", "SymTP"]), "Cart_to_xx_and_nearest_i0i1i2": (None, ["Spherical", "Cartesian"])})
    ck.run(cases, timeout=200)
    ck.finish()


if __name__ == "__main__":
    main()
