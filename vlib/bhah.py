"""Assemble real generated BHaH functions into one translation unit."""
import contextlib
import io
import os
import re
import subprocess

from vlib import cexec, dag
from vlib.core import REPO, nrpy_call, scratch, unlimit
from vlib.dag import C, V

HELPERS = REPO + "/nrpy/helpers"


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


class Unit:
    """Project directory with the real headers for the currently registered state."""

    def __init__(self, simd=False, header_kw=None, key="BHaH"):
        from nrpy.infrastructures.BHaH import BHaH_defines_h, CodeParameters

        self.dir = scratch("proj_")
        self.simd = simd
        nrpy_call(key + ":set_CodeParameters", quiet, CodeParameters.write_CodeParameters_h_files, project_dir=self.dir)
        nrpy_call(key + ":BHaH_defines", quiet, BHaH_defines_h.output_BHaH_defines_h, project_dir=self.dir, enable_intrinsics=simd, **(header_kw or {}))
        if simd:
            os.makedirs(self.dir + "/intrinsics", exist_ok=True)
            os.symlink(HELPERS + "/simd_intrinsics.h", self.dir + "/intrinsics/simd_intrinsics.h")
        import nrpy.c_function as cfc

        self.protos = "".join(sorted(f.function_prototype + "\n" for f in cfc.CFunction_dict.values()))
        with open(self.dir + "/BHaH_function_prototypes.h", "w", encoding="utf-8") as f:
            f.write(self.protos)

    def source(self, names, pre="", post=""):
        import nrpy.c_function as cfc

        s = '#include "BHaH_defines.h"\n#include "BHaH_function_prototypes.h"\n' + pre + "\n"
        seen = set()
        for n in names:
            t = cfc.CFunction_dict[n].full_function
            # file-scope statics of separate files may share a name: keep them apart in one unit
            st = sorted(set(re.findall(r"^static\s[^;{}()=]*?\b(\w+)\s*\(", t, re.M)))
            dup = [x for x in st if x in seen]
            seen.update(st)
            s += "".join(f"#define {x} {x}__{n}\n" for x in dup) + t + "\n" + "".join(f"#undef {x}\n" for x in dup)
        return s + post

    @property
    def incdirs(self):
        os.makedirs(self.dir + "/sub", exist_ok=True)
        return [self.dir, self.dir + "/sub", HELPERS]


def wrappers(key):
    """Register the real rfm wrapper (dispatch) functions for everything registered so far."""
    from nrpy.infrastructures.BHaH import rfm_wrapper_functions

    nrpy_call(key + ":wrappers", quiet, rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs)


def rfm_typedef():
    from nrpy.infrastructures.BHaH.BHaH_defines_h import register_BHaH_defines

    register_BHaH_defines("after_general", "typedef struct __rfmstruct__ { int dummy; } rfm_struct;\n")


def symbolic_struct(st, prefix, skip=()):
    """Give every scalar field of a struct object an unconstrained symbolic value."""
    for f in st.t.fields:
        o = st.field(f)
        if isinstance(o, cexec.Cell) and o.t.k in ("int", "flt") and f not in skip:
            o.v = cexec.S(o.t, V(f"{prefix}{f}"))
    return st


def consts(st):
    """PI and SQRT1_2 are code parameters holding constants."""
    for f, v in (("PI", V("M_PI")), ("SQRT1_2", dag.root(C(dag.Fraction(1, 2)), 2))):
        if f in st.t.fields:
            st.field(f).v = cexec.S(cexec.DBL, v)


def structs(ex, cd="cd.", par=""):
    c = symbolic_struct(ex.newobj(ex.typedefs["commondata_struct"], "commondata"), cd)
    p = symbolic_struct(ex.newobj(ex.typedefs["params_struct"], "params"), par)
    consts(p)
    consts(c)
    return c, p


def darr(ex, vals, t=cexec.DBL):
    a = cexec.Arr(ex, t, "arr", len(vals))
    for i, v in enumerate(vals):
        if v is not None:
            a.conc[i] = cexec.S(t, v)
    return a


def hashof(ex, cs):
    from nrpy.infrastructures.BHaH.rfm_wrapper_functions import get_CoordSystem_hash

    return C(get_CoordSystem_hash(cs))


def crun(unit, text, flags=(), asan=False):
    """Compile and run on the real headers; returns the output, or a description of what went wrong."""
    p = unit.dir + "/sub/main.c"
    with open(p, "w", encoding="utf-8") as f:
        f.write(text)
    fl = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-g"] if asan else []
    r = subprocess.run(["gcc", "-std=gnu99", "-w", "-O1", "-D_GNU_SOURCE", *fl, *flags] + ["-I" + d for d in unit.incdirs] + [p, "-lm", "-o", unit.dir + "/main"], capture_output=True, text=True, check=False)
    if r.returncode:
        return "does not compile: " + r.stderr[:400]
    kw = {"preexec_fn": unlimit, "env": dict(os.environ, ASAN_OPTIONS="detect_leaks=0")} if asan else {}
    r = subprocess.run([unit.dir + "/main"], capture_output=True, text=True, check=False, timeout=60, cwd=unit.dir, **kw)
    if r.returncode:
        bad = [l for l in r.stderr.splitlines() if "ERROR" in l or "runtime error" in l][:1]
        return f"exits with status {r.returncode}: {bad[0] if bad else r.stderr[:200]}"
    return r.stdout.strip() or None
