"""Seeded corpus of sympy expressions: every operator, exponent and sign pattern the
code generator distinguishes, plus random trees. The inputs of each expression stay
symbolic; only the shape of the program is enumerated."""
import itertools
import random

import sympy as sp

from vlib.core import SEED

x, y, z, w, a, b = SYMS = sp.symbols("x y z w a b", real=True)
R = sp.Rational


def scalar_feature_list():
    nrpyAbs = sp.Function("nrpyAbs")
    L = []
    for n in list(range(-7, 8)):
        L += [x**n, (x + y) ** n * z, 3 * x**n - y, -(x**n)]
    for q in [R(1, 2), R(-1, 2), R(1, 3), R(-1, 3), R(1, 6), R(-1, 6), R(3, 2), R(-3, 2), R(5, 2), R(-5, 2), R(2, 3), R(-2, 3), R(1, 4), R(-1, 4), R(7, 2), R(4, 3), R(-4, 3), R(5, 6)]:
        L += [x**q, (x * y + z) ** q, R(3, 7) * x**q - y, (x + 2) ** q / y]
    L += [x**y, (x + 1) ** (y - z), x ** (2 * y)]
    for f in (sp.sin, sp.cos, sp.tan, sp.sinh, sp.cosh, sp.tanh, sp.exp, sp.log, sp.sqrt, sp.Abs, nrpyAbs, sp.asin, sp.atan, sp.asinh):
        L += [f(x), f(x * y) - f(y) ** 2, 1 / f(x + y), R(2, 3) * f(2 * x) * f(x), f(-x + R(1, 3)), f(f(x) + 1)]
    L += [sp.sign(x - y), sp.Max(x, y), sp.Min(x * y, z), sp.atan2(x, y)]
    L += [sp.Integer(0), sp.Integer(1), sp.Integer(-1), sp.Integer(7), R(-3, 5), sp.pi, sp.pi * x, sp.sqrt(2) * x, x / sp.sqrt(3), 2 / sp.pi * x, sp.exp(1) * x, sp.exp(-x**2), R(1, 3), 2 * sp.sqrt(sp.pi) * x]
    L += [x, -x, x - y, y - x, -x - y, x * y, -x * y, x / y, -x / y, 1 / (x * y), -1 / (x + y), x / (y * z), x / (y / z)]
    L += [(x - y) * (x + y), (x - y) / (x + y), -(x - y) * (z - w), x - (y - z), x - y * z, x * y - z * w, -x * y - z * w, -x * y + z * w]
    L += [x * y * z * w, x * y * z + w, x + y + z + w + a + b, x * y + z * w + a * b, x * y - z * w - a * b, R(1, 2) * x * y - R(1, 3) * z * w + R(3, 4) * a]
    L += [x * (y + z * (w + a * (b + 1))), 1 / (1 + 1 / (1 + 1 / x)), sp.sqrt(x + sp.sqrt(y + sp.sqrt(z))), (x**2 + y**2) ** R(3, 2)]
    L += [2 * x + 3 * y - 5 * z, 2 * (x + y) ** 2 - 3 * (x + y) + 1, R(-1, 12) * x + R(4, 3) * y - R(5, 2) * z + R(4, 3) * w - R(1, 12) * a]
    L += [1.5 * x + 0.25, 0.1 * x, 3.0 * x**2, x**0.5 if False else sp.Float("0.5") * y, sp.Float("2.5e-3") * x]
    L += [(-1) ** 2 * x, (-x) ** 3, (-x * y) ** 2 + z, -((x - y) ** 2), (-(x + y)) ** 5]
    L += [sp.sin(x) ** 2 + sp.cos(x) ** 2, sp.sin(2 * x) * sp.cos(2 * x), sp.exp(x) * sp.exp(-y), sp.log(x * y) - sp.log(x)]
    return L


def sum_patterns(seed, count):
    """Signed sums/products of terms covering the FMA/sub pattern rewrites."""
    rnd = random.Random(f"sum{seed}")
    T = [x, y, z, x * y, y * z, z * w, x * y * z, 2 * x, R(1, 3) * y, 3 * x * y, x**2, x**2 * y, x**3, 1 / x, y / x, x * y / z, (x - y), z * (x - y), (x + y) * (z - w), (x * y + z), w * (x * y - z), x**-2, y * z / x**2, sp.sqrt(x), y * sp.sqrt(x), sp.Integer(1), R(5, 2), 4 * x * (y - 2 * z), a * b, a, b, w, (a - 1), x * (a + 1)]
    out = []
    for _ in range(count):
        n = rnd.choice([2, 2, 3, 3, 3, 4, 4, 5, 6])
        e = 0
        for _ in range(n):
            t = rnd.choice(T)
            if rnd.random() < 0.35:
                t = t * rnd.choice(T)
            e += rnd.choice([1, -1]) * t
        out.append(e)
    return out


def all_sign_patterns():
    out = []
    P1 = [x, x * y, 2 * x * y, x**2 * y]
    P2 = [z, z * w, R(1, 2) * z * w]
    P3 = [a, a * b, 3 * a * b]
    for s1, s2, s3 in itertools.product([1, -1], repeat=3):
        for p, q, r in itertools.product(P1, P2, P3):
            out.append(s1 * p + s2 * q + s3 * r)
    return out


def random_trees(seed, count, funcs, rational_pows=(), depth=4):
    rnd = random.Random(f"tree{seed}")

    def tree(d):
        if d == 0 or rnd.random() < 0.15:
            if rnd.random() < 0.75:
                return rnd.choice(SYMS)
            return rnd.choice([sp.Integer(1), sp.Integer(2), sp.Integer(3), R(1, 2), R(2, 3), R(-1, 4), sp.Integer(-1), R(7, 5)])
        k = rnd.random()
        if k < 0.33:
            return sum(rnd.choice([1, -1]) * tree(d - 1) for _ in range(rnd.choice([2, 2, 3, 4])))
        if k < 0.66:
            e = tree(d - 1) * tree(d - 1)
            if rnd.random() < 0.3:
                e = e * tree(d - 2 if d > 1 else 0)
            return -e if rnd.random() < 0.3 else e
        if k < 0.78:
            t = tree(d - 1)
            if t == 0:
                t = x
            return t ** rnd.choice([2, 3, 4, -1, -2, -3, 5])
        if k < 0.88 and funcs:
            return rnd.choice(funcs)(tree(d - 1))
        if rational_pows:
            return (1 + tree(d - 1) ** 2) ** rnd.choice(rational_pows)
        return tree(d - 1) / (1 + rnd.choice(SYMS) ** 2)

    out = []
    while len(out) < count:
        e = sp.sympify(tree(depth))
        if e.has(sp.zoo, sp.nan, sp.oo) or e.has(sp.I) or not e.is_real and e.is_real is not None:
            continue
        if sp.count_ops(e) > 120:
            continue
        out.append(e)
    return out


def groups(exprs, seed, shared=True):
    """Bundle expressions into multi-output lists of size 1..4."""
    rnd = random.Random(f"grp{seed}")
    out = []
    i = 0
    while i < len(exprs):
        n = rnd.choice([1, 1, 2, 3, 4])
        g = list(exprs[i : i + n])
        if shared and len(g) > 1 and rnd.random() < 0.5:
            g.append(g[0] * g[1] + g[0] ** 2 if sp.count_ops(g[0]) + sp.count_ops(g[1]) < 40 else g[0])
        out.append(g)
        i += n
    return out
