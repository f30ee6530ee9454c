"""Finite-difference kernels: harness around c_codegen(enable_fd_codegen=True) output for each infrastructure."""
import os
from fractions import Fraction

from vlib import cexec, dag, tv
from vlib.core import REPO, Inconclusive, report, scratch, rmtree
from vlib.dag import C, V

HDR = REPO + "/nrpy/helpers"
OUTER = """
#include <math.h>
#include <stdlib.h>
#ifndef REAL
#define REAL double
#endif
#define CCTK_REAL REAL
#ifndef MAYBE_UNUSED
#define MAYBE_UNUSED
#endif
"""


# ---------------------------------------------------------------- independent stencils
def lagrange(points, order):
    """Exact weights w_j with sum_j w_j p(x_j) = p^(order)(0) for every polynomial of degree < len(points)."""
    n = len(points)
    # moment equations sum_j w_j x_j^k = k! [k == order]
    A = [[Fraction(x) ** k for x in points] + [Fraction(0)] for k in range(n)]
    f = Fraction(1)
    for k in range(1, order + 1):
        f *= k
    A[order][n] = f
    for c in range(n):
        piv = next(r for r in range(c, n) if A[r][c] != 0)
        A[c], A[piv] = A[piv], A[c]
        A[c] = [v / A[c][c] for v in A[c]]
        for r in range(n):
            if r != c and A[r][c] != 0:
                A[r] = [x - A[r][c] * y for x, y in zip(A[r], A[c])]
    return [A[r][n] for r in range(n)]


def stencil(op, dirs, order):
    """{(o0,o1,o2): weight}; the result is multiplied by invdxx of each direction."""
    h = order // 2
    if op == "dDD" and dirs[0] != dirs[1]:
        w = lagrange(range(-h, h + 1), 1)
        out = {}
        for a, wa in zip(range(-h, h + 1), w):
            for b, wb in zip(range(-h, h + 1), w):
                if wa * wb:
                    o = [0, 0, 0]
                    o[dirs[0]], o[dirs[1]] = a, b
                    out[tuple(o)] = wa * wb
        return out
    if op == "dKOD":
        m = order + 2
        s = 1 if ((m + 2) // 2) % 2 == 0 else -1
        pts = range(-(h + 1), h + 2)
        w = [s * x / 2**m for x in lagrange(pts, m)]
    else:
        shift = {"dD": 0, "dDD": 0, "dupD": 1, "ddnD": -1}[op]
        pts = range(-h + shift, h + shift + 1)
        w = lagrange(pts, 2 if op == "dDD" else 1)
    out = {}
    for p, x in zip(pts, w):
        if x:
            o = [0, 0, 0]
            o[dirs[0]] = p
            out[tuple(o)] = x
    return out


# ---------------------------------------------------------------- memory model
def key_of(idx):
    p = cexec.poly(idx)
    return tuple(sorted((tuple(sorted(m)), c) for m, c in p.items()))


class Mem:
    """Symbolic array: one real variable per index polynomial."""

    def __init__(self, ex, name, elem=cexec.DBL):
        self.name, self.names, self.idx = name, {}, {}
        self.arr = cexec.Arr(ex, elem, name, None, self.init)

    def init(self, idx):
        return cexec.S(cexec.DBL, self.at(idx))

    def at(self, idx):
        k = key_of(idx)
        if k not in self.names:
            self.names[k] = V(f"{self.name}#{len(self.names)}")
            self.idx[self.names[k].a[0]] = idx
        return self.names[k]


def hashval(name, i):
    """Deterministic field value used in concrete replays."""
    s = sum(ord(c) * (k + 1) for k, c in enumerate(name)) % 97
    x = (i * 0.6180339887498949 + s * 0.37) % 1.0
    return x - 0.4


# ---------------------------------------------------------------- harness
class Harness:
    """C function around one kernel; the same text is executed symbolically and compiled for replay."""

    def __init__(self, infra, gfs, params, code, prefunc, simd, extra_header="", incdirs=()):
        # gfs: list of (name, group); params: list of REAL parameter names
        self.infra, self.gfs, self.params, self.code, self.prefunc, self.simd = infra, gfs, params, code, prefunc, simd
        self.incdirs = list(incdirs) + [HDR]
        self.header = extra_header

    def arrays(self):
        if self.infra == "BHaH":
            return ["in_gfs", "auxevol_gfs", "aux_gfs"]
        return [g for g, _ in self.gfs]

    def source(self):
        s = OUTER if self.infra != "BHaH" else ""
        s += self.header
        if self.simd and self.infra != "BHaH":
            s += "\n#undef MAYBE_UNUSED\n" + '#include "simd_intrinsics.h"\n'
        rt = "REAL_SIMD_ARRAY" if self.simd else "REAL"
        if self.infra != "BHaH":
            s += "#define NO_INLINE\n#define CCTK_DEVICE\n#define CCTK_HOST\n"
            if not self.simd:
                s += "#define UPWIND_ALG(UpwindVecU) ((UpwindVecU) > 0.0 ? 1.0 : 0.0)\n"
        if self.infra == "ETLegacy":
            s += "#define CCTK_GFINDEX3D(gh,i,j,k) ((i) + lsh0*((j) + lsh1*(k)))\n"
        if self.infra == "CarpetX":
            s += "typedef struct { int I; int DI[3]; } ptdesc;\n"
            for g, _ in self.gfs:
                s += f"#define {g}GF(idx) {g}_data[idx]\n"
        s += self.prefunc + "\n"
        args = [f"const double *{a}_in" if self.infra != "BHaH" else f"const REAL *{a}" for a in self.arrays()]
        args += ["double *out"] + [f"const int {n}" for n in ("i0", "i1", "i2", "N0", "N1", "N2")] + [f"const double {p}_s" for p in self.params]
        s += f"void kern({', '.join(args)}) {{\n"
        for d in range(3):
            s += f"  const int Nxx_plus_2NGHOSTS{d} = N{d}; const int lsh{d} = N{d};\n" if self.infra != "CarpetX" else ""
        if self.infra == "CarpetX":
            s += "  ptdesc p; p.I = i0 + N0*(i1 + N1*i2); p.DI[0] = 1; p.DI[1] = N0; p.DI[2] = N0*N1;\n"
        if self.infra != "BHaH":
            for g, _ in self.gfs:
                s += f"  const double *{g}{'GF' if self.infra == 'ETLegacy' else '_data'} = {g}_in;\n"
        for p in self.params:
            s += f"  const {rt} {p} = ConstSIMD({p}_s);\n" if self.simd else f"  const {rt} {p} = {p}_s;\n"
        s += self.code + "\n}\n"
        return s

    def gfindex(self, name):
        """Storage slot of a BHaH gridfunction: position in the sorted group list."""
        grp = dict(self.gfs)[name]
        lst = sorted([g for g, gg in self.gfs if gg == grp], key=str.lower)
        return {"EVOL": "in_gfs", "AUXEVOL": "auxevol_gfs", "AUX": "aux_gfs"}[grp], lst.index(name)

    def index(self, name, off):
        i = [dag.add(V(f"i{d}"), C(off[d])) for d in range(3)]
        n0, n1, n2 = V("N0"), V("N1"), V("N2")
        if self.infra == "BHaH":
            arr, slot = self.gfindex(name)
            return arr, dag.add(i[0], dag.mul(n0, dag.add(i[1], dag.mul(n1, dag.add(i[2], dag.mul(n2, C(slot)))))))
        return name, dag.add(i[0], dag.mul(n0, dag.add(i[1], dag.mul(n1, i[2]))))

    def cindex(self, name, off, pt, N):
        i = [pt[d] + off[d] for d in range(3)]
        if self.infra == "BHaH":
            arr, slot = self.gfindex(name)
            return arr, i[0] + N[0] * (i[1] + N[1] * (i[2] + N[2] * slot))
        return name, i[0] + N[0] * (i[1] + N[1] * i[2])

    def run(self, isa="scalar"):
        from vlib import simdtv

        defs, w, _ = simdtv.ISAS[isa]
        ex = cexec.Exec(self.source(), defines=defs, incdirs=self.incdirs, width=w)
        mems = {a: Mem(ex, a) for a in self.arrays()}
        out = cexec.Arr(ex, cexec.DBL, "out", None, None)
        args = [m.arr for m in mems.values()] + [out]
        args += [cexec.S(cexec.INT, V(n)) for n in ("i0", "i1", "i2", "N0", "N1", "N2")]
        args += [cexec.S(cexec.DBL, V(p)) for p in self.params]
        ex.call("kern", args)
        return ex, mems, out, w

    def concrete(self, nout, params, pt, N, isa="scalar"):
        """Compile and run the real code on hashed field values."""
        from vlib import simdtv

        _, w, flags = simdtv.ISAS[isa]
        sz = (len(self.gfs) if self.infra == "BHaH" else 1) * N[0] * N[1] * N[2] + 64
        s = self.source()
        names = self.arrays()
        s += "void kern_0(const double *in, double *outp) {\n"
        for k, a in enumerate(names):
            s += f"  const double *a{k} = in + {k * sz};\n"
        s += "  kern(" + ", ".join(f"a{k}" for k in range(len(names))) + f", outp, {pt[0]}, {pt[1]}, {pt[2]}, {N[0]}, {N[1]}, {N[2]}" + "".join(f", {v!r}" for v in params) + ");\n}\n"
        data = []
        for a in names:
            data += [hashval(a, i) for i in range(sz)]
        return tv.run_real(s, 0, data, nout * w, flags, self.incdirs)


def bhah_header(dirname, simd, extra=None, **kw):
    """The real BHaH_defines.h for the currently registered state."""
    import contextlib
    import io

    from nrpy.infrastructures.BHaH.BHaH_defines_h import output_BHaH_defines_h

    with contextlib.redirect_stdout(io.StringIO()):
        output_BHaH_defines_h(project_dir=dirname, enable_intrinsics=simd, **kw)
    if simd:
        os.makedirs(dirname + "/intrinsics", exist_ok=True)
        if not os.path.exists(dirname + "/intrinsics/simd_intrinsics.h"):
            os.symlink(HDR + "/simd_intrinsics.h", dirname + "/intrinsics/simd_intrinsics.h")
    return '#include "BHaH_defines.h"\n'
