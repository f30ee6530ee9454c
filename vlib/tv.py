"""Translation validation of c_codegen output: compile-check, symbolic execution,
z3 equality per output, ctypes replay of any counterexample."""
import ctypes
import math
import os
import random
import subprocess

import mpmath
import sympy as sp

from vlib import cexec, dag
from vlib.core import SEED, STATS, Inconclusive, REPO, report, rmtree, sample, scratch
from vlib.dag import V

PRELUDE = """#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdbool.h>
#ifndef REAL
#define REAL double
#endif
#define CCTK_REAL REAL
#ifndef MAYBE_UNUSED
#define MAYBE_UNUSED
#endif
"""


class Kernel:
    """One generated code fragment with its intended outputs."""

    def __init__(self, key, code, outs, exprs, syms, fp="double", predecl=""):
        self.key, self.code, self.outs, self.exprs, self.syms, self.fp, self.predecl = key, code, outs, exprs, syms, fp, predecl


def scalar_source(kernels, prelude=PRELUDE):
    src = prelude
    for i, k in enumerate(kernels):
        body = ""
        for j, s in enumerate(k.syms):
            body += f"  const {k.fp} {s} = in[{j}];\n"
        for o in k.outs:
            body += f"  {k.fp} {o};\n"
        src += f"void kern_{i}(const {k.fp} *in, {k.fp} *outp) {{\n{body}{k.predecl}\n{k.code}\n"
        for j, o in enumerate(k.outs):
            src += f"  outp[{j}] = {o};\n"
        src += "}\n"
    return src


def filter_compiling(kernels, mksrc, flags=(), incdirs=(), what="generated C does not compile"):
    """Report kernels gcc rejects; return the rest."""
    err = cexec.syntax_check(mksrc(kernels), flags, incdirs)
    if not err:
        return kernels
    if len(kernels) == 1:
        k = kernels[0]
        report(k.key + ":compile", f"{what}: {err.splitlines()[0][:200] if err else ''} for {str(k.exprs)[:200]}", {"code": k.code, "gcc": err, "exprs": str(k.exprs)})
        STATS.obligations += 1
        return []
    h = len(kernels) // 2
    return filter_compiling(kernels[:h], mksrc, flags, incdirs, what) + filter_compiling(kernels[h:], mksrc, flags, incdirs, what)


def run_real(src, idx, invals, nout, flags=(), incdirs=(), fp="double"):
    """Compile the real code with gcc and run kernel idx."""
    d = scratch("rep_")
    try:
        c = os.path.join(d, "k.c")
        so = os.path.join(d, "k.so")
        with open(c, "w", encoding="utf-8") as f:
            f.write(src)
        cmd = ["gcc", "-std=gnu99", "-D_GNU_SOURCE", "-O0", "-w", "-shared", "-fPIC", "-ffp-contract=off"] + sum([["-I", i] for i in incdirs], []) + list(flags) + ["-o", so, c, "-lm"]
        subprocess.run(cmd, check=True, capture_output=True)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            lib = ctypes.CDLL(so)
            ct = {"double": ctypes.c_double, "float": ctypes.c_float, "long double": ctypes.c_longdouble}[fp]
            a = (ct * max(1, len(invals)))(*[float(v) for v in invals])
            o = (ct * nout)()
            getattr(lib, f"kern_{idx}")(a, o)
            os.write(w, " ".join(float(v).hex() for v in o).encode())
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as fh:
            txt = fh.read()
        _, st = os.waitpid(pid, 0)
        if st != 0:
            raise OSError("replay process failed")
        return [float.fromhex(v) for v in txt.split()]
    finally:
        rmtree(d)


def expected_value(e, syms, vals):
    """Independent high-precision value of the sympy expression."""
    sub = {s: sp.Float(repr(float(v)), 40) for s, v in zip(syms, vals)}
    nrpyAbs = sp.Function("nrpyAbs")
    e = e.replace(nrpyAbs, sp.Abs)
    return complex(e.xreplace(sub).evalf(30))


def replay(src, idx, k, bad, flags=(), incdirs=(), tries=6, model_vals=None):
    """True if the real compiled code differs from the expression at some point."""
    rnd = random.Random(f"replay{SEED}")
    tol = {"double": 1e-9, "float": 2e-3, "long double": 1e-9}[k.fp]
    cands = []
    if model_vals:
        cands.append(model_vals)
    for _ in range(tries):
        cands.append([rnd.uniform(0.5, 1.5) for _ in k.syms])
    for _ in range(tries):
        cands.append([rnd.uniform(-2, 2) for _ in k.syms])
    for vals in cands:
        try:
            got = run_real(src, idx, vals, len(k.outs), flags, incdirs, k.fp)
        except OSError:
            return None
        for j in bad:
            try:
                exp = expected_value(k.exprs[j], k.syms, vals)
            except Exception:  # pylint: disable=broad-except
                continue
            if abs(exp.imag) > 1e-12 or math.isnan(exp.real) or math.isinf(exp.real):
                continue
            g = got[j]
            if math.isnan(g) or abs(g - exp.real) > tol * (1 + abs(exp.real)):
                return dict(inputs=dict(zip(map(str, k.syms), vals)), output=j, got=g, expected=exp.real)
    return None


def validate_scalar(kernels, flags=(), incdirs=()):
    """All kernels of a batch: compile check, symbolic execution, z3."""
    kernels = filter_compiling(kernels, scalar_source, flags, incdirs)
    if not kernels:
        return
    src = scalar_source(kernels)
    ex = cexec.Exec(src, incdirs=incdirs, defines=[f[2:] for f in flags if f.startswith("-D")])
    for i, k in enumerate(kernels):
        inarr = ex.newobj(cexec.T("arr", elem=cexec.DBL), "in")
        for j, s in enumerate(k.syms):
            inarr.conc[j] = cexec.S(cexec.DBL, V(s.name))
        out = ex.newobj(cexec.T("arr", elem=cexec.DBL), "outp")
        try:
            ex.call(f"kern_{i}", [inarr, out])
        except cexec.ExecError as e:
            report(k.key + ":exec", f"{e} in code for {str(k.exprs)[:200]}", {"code": k.code})
            continue
        got = [ex.read(ex.elem_obj(out, dag.C(j))).n for j in range(len(k.outs))]
        decide_outputs(k, got, src, i, flags, incdirs)


def decide_outputs(k, got, src, i, flags=(), incdirs=(), symmap=None, expected=None):
    pr = dag.Prover()
    memo = {}
    bad = []
    for j, e in enumerate(k.exprs):
        want = expected[j] if expected else dag.from_sympy(e, memo, symmap=symmap)
        r = pr.equal(got[j], want)
        if not r:
            bad.append(j)
    if i == 0:
        sample({"exprs": [str(e)[:200] for e in k.exprs], "code": k.code[:400]})
    if bad:
        rep = replay(src, i, k, bad, flags, incdirs)
        if rep is None:
            raise Inconclusive(f"z3 counterexample not reproduced: {k.key} {k.exprs} :: {k.code}")
        report(k.key + ":value", f"generated C computes {rep['got']!r} instead of {rep['expected']!r} at {rep['inputs']} for {str(k.exprs[rep['output']])[:200]}", {"replay": rep, "code": k.code, "exprs": str(k.exprs)})
