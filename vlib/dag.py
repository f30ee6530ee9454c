"""Hash-consed expression DAG shared by the C executor and the sympy translator,
its numeric evaluation (mpmath, used only to find candidates and to replay) and its
translation into z3 real arithmetic.

Equality of two DAG nodes is decided by z3 (class Prover): functions, roots and
reciprocals are opaque reals; two opaque nodes are identified only after z3 has
proved their arguments equal.
"""
import random
import time
from fractions import Fraction

import mpmath

from vlib.core import STATS, Inconclusive, SEED

try:
    import z3
except ImportError:
    import sys

    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3


class N:
    """A node. op in c v + * inv pow(int) root fn ite < <= == and or not idiv mod."""

    __slots__ = ("op", "a", "id", "__weakref__")
    table = {}
    count = 0

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op,) + tuple(x.id if isinstance(x, N) else ("k", x) for x in a)
    n = N.table.get(key)
    if n is None:
        n = N.__new__(N)
        n.op = op
        n.a = a
        N.count += 1
        n.id = N.count
        N.table[key] = n
    return n


def C(x):
    return mk("c", Fraction(x))


def V(name):
    return mk("v", name)


ZERO = C(0)
ONE = C(1)
TRUE = mk("true")
FALSE = mk("false")


def isc(n):
    return n.op == "c"


def add(a, b):
    if isc(a) and isc(b):
        return C(a.a[0] + b.a[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    return mk("+", a, b)


def mul(a, b):
    if isc(a) and isc(b):
        return C(a.a[0] * b.a[0])
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    if a is b and a.op == "root" and a.a[1] == 2:
        return a.a[0]
    return mk("*", a, b)


def neg(a):
    return mul(C(-1), a)


def sub(a, b):
    return add(a, neg(b))


def inv(a):
    """1/a, for a != 0 (recorded assumption: divisors are nonzero)."""
    if isc(a):
        if a.a[0] == 0:
            return mk("fn", "1/0")
        return C(1 / a.a[0])
    if a.op == "*":
        return mul(inv(a.a[0]), inv(a.a[1]))
    if a.op == "inv":
        return a.a[0]
    if a.op == "pow":
        return ipow(inv(a.a[0]), a.a[1])
    return mk("inv", a)


def div(a, b):
    return mul(a, inv(b))


def ipow(a, n):
    if n == 0:
        return ONE
    if n == 1:
        return a
    if n < 0:
        return ipow(inv(a), -n)
    if isc(a):
        return C(a.a[0] ** n)
    if a.op == "root" and n >= a.a[1]:
        q, r = divmod(n, a.a[1])
        return mul(ipow(a.a[0], q), ipow(a, r))
    if a.op == "inv" and a.a[0].op == "root" and n >= a.a[0].a[1]:
        q, r = divmod(n, a.a[0].a[1])
        return mul(ipow(inv(a.a[0].a[0]), q), ipow(a, r))
    if a.op == "pow":
        return ipow(a.a[0], a.a[1] * n)
    return mk("pow", a, n)


def root(a, n):
    """Real n-th root of a >= 0."""
    if isc(a) and a.a[0] in (0, 1):
        return a
    if a.op == "root":
        return root(a.a[0], a.a[1] * n)
    if a.op == "inv":
        return inv(root(a.a[0], n))
    if isc(a) and n == 2 and a.a[0] > 0:
        from math import isqrt

        p, q = a.a[0].numerator, a.a[0].denominator
        if isqrt(p) ** 2 == p and isqrt(q) ** 2 == q:
            return C(Fraction(isqrt(p), isqrt(q)))
    return mk("root", a, n)


def rpow(a, q):
    """a**q for rational q."""
    q = Fraction(q)
    if q.denominator == 1:
        return ipow(a, q.numerator)
    return ipow(root(a, q.denominator), q.numerator)


def power(a, b):
    if isc(b):
        if b.a[0].denominator <= 24:
            return rpow(a, b.a[0])
    return fn("pow", a, b)


def fn(name, *args):
    if name == "fabs" and isc(args[0]):
        return C(abs(args[0].a[0]))
    if name == "fabs" and (args[0].op == "root" or (args[0].op == "fn" and args[0].a[0] in ("fabs", "exp", "cosh"))):
        return args[0]
    if name == "fabs" and args[0].op == "*":
        return mul(fn("fabs", args[0].a[0]), fn("fabs", args[0].a[1]))
    if name == "fabs" and args[0].op == "inv":
        return inv(fn("fabs", args[0].a[0]))
    if name == "fabs" and args[0].op == "pow":
        b, k = args[0].a
        return args[0] if k % 2 == 0 else ipow(fn("fabs", b), k)
    if name in ("sin", "tan", "sinh", "tanh", "asin", "atan", "asinh", "atanh", "erf") and args[0] is ZERO:
        return ZERO
    if name in ("cos", "cosh", "exp") and args[0] is ZERO:
        return ONE
    if name in ("log",) and args[0] is ONE:
        return ZERO
    if name == "exp" and args[0].op in ("+", "*"):
        return _exp(args[0])
    if name in ("sin", "cos") and args[0].op == "fn":
        x = args[0]
        if x.a[0] == {"sin": "asin", "cos": "acos"}[name]:
            return x.a[1]
        if x.a[0] in ("asin", "acos"):
            return root(sub(ONE, ipow(x.a[1], 2)), 2)
        if x.a[0] == "atan2":
            return div(x.a[1 if name == "sin" else 2], root(add(ipow(x.a[1], 2), ipow(x.a[2], 2)), 2))
    if name == "sinh" and args[0].op == "fn" and args[0].a[0] == "asinh":
        return args[0].a[1]
    return mk("fn", name, *args)


def _exp(a):
    """exp(sum c_i u_i) = prod exp(u_i)^c_i: one canonical form for exp of sums, negatives and multiples."""
    lin = {}

    def coef(n):
        if isc(n):
            return n.a[0], ONE
        if n.op == "*":
            k1, u1 = coef(n.a[0])
            k2, u2 = coef(n.a[1])
            return k1 * k2, mul(u1, u2)
        return Fraction(1), n

    def go(n, c):
        if n.op == "+":
            go(n.a[0], c)
            go(n.a[1], c)
        elif n.op == "*":
            k, u = coef(n)
            if u.op == "+":
                go(u, c * k)
            else:
                lin[u] = lin.get(u, 0) + c * k
        elif isc(n):
            lin[ONE] = lin.get(ONE, 0) + c * n.a[0]
        else:
            lin[n] = lin.get(n, 0) + c

    go(a, Fraction(1))
    r = ONE
    for u, c in lin.items():
        if c != 0:
            u = cancel(u)
            if u.op == "fn" and u.a[0] == "asinh" and c.denominator == 1:
                s = root(add(ONE, ipow(u.a[1], 2)), 2)
                r = mul(r, ipow(add(s, u.a[1]), int(c)) if c > 0 else ipow(sub(s, u.a[1]), -int(c)))
                continue
            r = mul(r, rpow(mk("fn", "exp", u), c))
    return r


def cancel(n):
    """Cancel x * 1/x inside a product."""
    if n.op != "*":
        return n
    fs = _flat(n, "*")
    for x in list(fs):
        if x.op == "inv" and x.a[0] in fs and x in fs:
            fs.remove(x)
            fs.remove(x.a[0])
    r = ONE
    for x in fs:
        r = mul(r, x)
    return r


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return mk("ite", c, a, b)


def lt(a, b):
    if isc(a) and isc(b):
        return TRUE if a.a[0] < b.a[0] else FALSE
    return mk("<", a, b)


def le(a, b):
    if isc(a) and isc(b):
        return TRUE if a.a[0] <= b.a[0] else FALSE
    return mk("<=", a, b)


def eq(a, b):
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return TRUE if a.a[0] == b.a[0] else FALSE
    return mk("==", a, b)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.a[0]
    return mk("not", a)


def and_(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    return mk("and", a, b)


def or_(a, b):
    return not_(and_(not_(a), not_(b)))


def idiv(a, b):
    """C integer division (truncation)."""
    if isc(a) and isc(b) and b.a[0] != 0:
        p, q = int(a.a[0]), int(b.a[0])
        r = abs(p) // abs(q)
        return C(r if (p >= 0) == (q >= 0) else -r)
    return mk("idiv", a, b)


def imod(a, b):
    if isc(a) and isc(b) and b.a[0] != 0:
        return sub(a, mul(idiv(a, b), b))
    return mk("imod", a, b)


def show(n, depth=6):
    if depth == 0:
        return "..."
    o = n.op
    if o == "c":
        return str(n.a[0])
    if o == "v":
        return str(n.a[0])
    s = [show(x, depth - 1) if isinstance(x, N) else str(x) for x in n.a]
    if o in "+*<" or o in ("<=", "=="):
        return "(" + (" %s " % o).join(s) + ")"
    if o == "fn":
        return s[0] + "(" + ", ".join(s[1:]) + ")"
    return o + "(" + ", ".join(s) + ")"


def topo(roots, skip=()):
    """Nodes below the roots, children first; nodes whose id is in skip are not entered."""
    seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen or n.id in skip:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for x in n.a:
            if isinstance(x, N) and x.id not in seen:
                stack.append((x, False))
    return out


def variables(roots):
    return sorted({n.a[0] for n in topo(roots) if n.op == "v"}, key=str)


# --------------------------------------------------------------------------
# numeric evaluation (candidates and replay only)
# --------------------------------------------------------------------------
MPFN = {
    "sin": mpmath.sin, "cos": mpmath.cos, "tan": mpmath.tan, "sinh": mpmath.sinh, "cosh": mpmath.cosh,
    "tanh": mpmath.tanh, "exp": mpmath.exp, "log": mpmath.log, "fabs": abs, "asin": mpmath.asin,
    "acos": mpmath.acos, "atan": mpmath.atan, "asinh": mpmath.asinh, "acosh": mpmath.acosh,
    "atanh": mpmath.atanh, "erf": mpmath.erf, "pow": lambda a, b: mpmath.power(a, b),
    "sec": mpmath.sec, "csc": mpmath.csc, "cot": mpmath.cot,
}


def _uf_value(name, args):
    h = hash((name,) + tuple(mpmath.nstr(a, 18) for a in args)) & 0xFFFFFFFF
    r = random.Random(h ^ 0x5BD1E995)
    return mpmath.mpf(r.uniform(0.5, 1.5))


def evaluate(roots, env, dps=30, cache=None):
    """Evaluate nodes at a point; returns dict id -> mpf/mpc/bool. Unknown functions hash to a value."""
    val = {} if cache is None else cache
    with mpmath.workdps(dps):
        for n in topo(roots, val):
            if n.id in val:
                continue
            o, a = n.op, n.a
            try:
                if o == "c":
                    r = mpmath.mpf(a[0].numerator) / a[0].denominator
                elif o == "v":
                    r = env[a[0]] if a[0] in env else _default_value(a[0])
                    if not isinstance(r, bool):
                        r = mpmath.mpmathify(r)
                elif o == "+":
                    r = val[a[0].id] + val[a[1].id]
                elif o == "*":
                    r = val[a[0].id] * val[a[1].id]
                elif o == "inv":
                    r = 1 / val[a[0].id]
                elif o == "pow":
                    r = val[a[0].id] ** a[1]
                elif o == "root":
                    x = val[a[0].id]
                    r = mpmath.sqrt(x) if a[1] == 2 else mpmath.root(x, a[1])
                elif o == "fn":
                    args = [val[x.id] for x in a[1:]]
                    if a[0] in MPFN:
                        r = MPFN[a[0]](*args)
                    else:
                        r = _uf_value(a[0], args)
                elif o == "ite":
                    r = val[a[1].id] if val[a[0].id] else val[a[2].id]
                elif o == "<":
                    r = _re(val[a[0].id]) < _re(val[a[1].id])
                elif o == "<=":
                    r = _re(val[a[0].id]) <= _re(val[a[1].id])
                elif o == "==":
                    r = val[a[0].id] == val[a[1].id]
                elif o == "and":
                    r = bool(val[a[0].id]) and bool(val[a[1].id])
                elif o == "not":
                    r = not val[a[0].id]
                elif o == "true":
                    r = True
                elif o == "false":
                    r = False
                elif o == "idiv":
                    p, q = int(val[a[0].id]), int(val[a[1].id])
                    r = mpmath.mpf(abs(p) // abs(q) * (1 if (p >= 0) == (q >= 0) else -1))
                elif o == "imod":
                    p, q = int(val[a[0].id]), int(val[a[1].id])
                    d = abs(p) // abs(q) * (1 if (p >= 0) == (q >= 0) else -1)
                    r = mpmath.mpf(p - d * q)
                else:
                    raise Inconclusive(f"evaluate: {o}")
            except ZeroDivisionError:
                r = mpmath.nan
            except (TypeError, KeyError) as e:
                raise Inconclusive(f"evaluate {o}: {e}") from e
            val[n.id] = r
    return val


def _re(x):
    return x.real if isinstance(x, mpmath.mpc) else x


def _default_value(name):
    if name == "M_PI":
        return mpmath.pi()
    if name == "M_E":
        return mpmath.e()
    r = random.Random(str(name) + "#default")
    return mpmath.mpf(r.uniform(0.5, 1.5))


def close(a, b, tol=1e-18):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if mpmath.isnan(a) or mpmath.isnan(b):
        return mpmath.isnan(a) and mpmath.isnan(b)
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


# --------------------------------------------------------------------------
# deciding equality with z3
# --------------------------------------------------------------------------
ODD_EVEN = {k: False for k in ("sin", "sinh", "tan", "tanh", "asin", "atan", "asinh", "atanh", "erf")}
ODD_EVEN.update({"cos": True, "cosh": True, "fabs": True})


def linear(n, names, memo=None):
    """{variable or None: coefficient node} when n is syntactically affine in the named variables; else None."""
    memo = {} if memo is None else memo
    for x in topo([n], memo):
        if x.id in memo:
            continue
        o, a = x.op, x.a
        r = None
        if o == "v" and a[0] in names:
            r = {a[0]: ONE}
        else:
            sub_ = [memo[y.id] for y in a if isinstance(y, N)]
            if all(q is not None and set(q) <= {None} for q in sub_):
                r = {None: x} if x is not ZERO else {}
            elif any(q is None for q in sub_):
                r = None
            elif o == "+":
                r = dict(sub_[0])
                for k, c in sub_[1].items():
                    r[k] = add(r[k], c) if k in r else c
            elif o == "*":
                p, q = sub_
                if set(p) - {None}:
                    p, q = q, p
                if not set(p) - {None}:
                    r = {k: mul(a[0] if p is sub_[0] else a[1], c) for k, c in q.items()}
        memo[x.id] = r
    return memo[n.id]


def norm(n, memo=None):
    """n with every product flattened and the powers, reciprocals and roots of a base combined."""
    memo = {} if memo is None else memo
    for x in topo([n], memo):
        if x.id in memo:
            continue
        b = [memo[y.id] if isinstance(y, N) else y for y in x.a]
        o = x.op
        if o == "+":
            r = add(*b)
        elif o in ("*", "inv", "pow", "root"):
            r = _monomial({"*": lambda: [(b[0], 1), (b[1], 1)], "inv": lambda: [(b[0], -1)], "pow": lambda: [(b[0], b[1])], "root": lambda: [(b[0], Fraction(1, b[1]))]}[o]())
        elif all(p is q for p, q in zip(x.a, b)):
            r = x
        else:
            r = {"fn": fn, "ite": ite, "<": lt, "<=": le, "==": eq, "and": and_, "not": not_}.get(o, lambda *q, op=o: mk(op, *q))(*b)
        memo[x.id] = r
    return memo[n.id]


def _monomial(fs):
    exps, order, c = {}, {}, Fraction(1)
    stack = list(fs)
    while stack:
        x, e = stack.pop()
        if x.op == "c" and Fraction(e).denominator == 1 and (x.a[0] != 0 or e > 0):
            c *= x.a[0] ** int(e)
        elif x.op == "*" and Fraction(e).denominator == 1:
            stack += [(x.a[0], e), (x.a[1], e)]
        elif x.op == "inv":
            stack.append((x.a[0], -e))
        elif x.op == "pow" and Fraction(e).denominator == 1:
            stack.append((x.a[0], e * x.a[1]))
        elif x.op == "root" and e != 1:
            stack.append((x.a[0], Fraction(e) / x.a[1]))
        elif x.op == "root":
            exps[x.a[0].id] = exps.get(x.a[0].id, 0) + Fraction(1, x.a[1])
            order[x.a[0].id] = x.a[0]
        else:
            exps[x.id] = exps.get(x.id, 0) + e
            order[x.id] = x
    r = C(c)
    for k in sorted(exps):
        e, x = Fraction(exps[k]), order[k]
        if not e:
            continue
        q, f = divmod(abs(e), 1)
        t = ipow(x, int(q)) if q else ONE
        if f:
            t = mul(t, ipow(root(x, f.denominator), f.numerator))
        r = mul(r, t if e > 0 else inv(t))
    return r


class Prover:
    def __init__(self, points=2, env_fn=None, timeout_ms=60000, int_vars=()):
        self.points = points
        self.env_fn = env_fn or (lambda k: {})
        self.timeout_ms = timeout_ms
        self.rep = {}  # opaque node id -> (rep node, Fraction factor)
        self.sigs = {}
        self.caches = [dict() for _ in range(points)]
        self.topcount = 0
        self.envs = None
        self.axioms_used = {}
        self.int_vars = set(int_vars)
        self.zmemo = {}
        self.sumcls = {}
        self.sumreps = {}
        self.opq = {}
        self.inprog = set()
        self.matched = {}
        self.cex = None
        self.max_mono = 30000

    # ---- numeric signature
    def _envs(self, roots):
        if self.envs is None:
            self.envs = []
            for k in range(self.points):
                self.envs.append(dict(self.env_fn(k)))
        vs = {n.a[0] for n in topo(roots) if n.op == "v"}
        for k, e in enumerate(self.envs):
            for v in vs:
                if v in ("M_PI", "M_E"):
                    e[v] = _default_value(v)
                elif v not in e:
                    r = random.Random(f"{v}|{k}|{SEED}")
                    e[v] = mpmath.mpf(r.uniform(0.5, 1.5))

    def sig(self, n):
        if n.id not in self.sigs:
            self._envs([n])
            s = []
            for k in range(self.points):
                evaluate([n], self.envs[k], cache=self.caches[k])
                s.append(self.caches[k][n.id])
            self.sigs[n.id] = s
        return self.sigs[n.id]

    def numeric_equal(self, a, b, tol=1e-15):
        return all(close(x, y, tol) for x, y in zip(self.sig(a), self.sig(b)))

    # ---- z3 translation
    # mode "cut": every sum that is an operand of a product/power is an opaque "sum" variable;
    # mode frozenset(ids): only sums of those classes are; mode "full": none.
    def z(self, roots, mode="full"):
        return [self.zt(r, mode) for r in roots]

    def zt(self, n, mode):
        memo = self.zmemo.setdefault(mode, {})
        r = memo.get(n.id)
        if r is not None:
            return r
        # iterative over sum spines to keep recursion shallow
        o, a = n.op, n.a
        if o == "c":
            r = z3.RealVal(str(a[0]))
        elif o == "v":
            r = z3.Bool(str(a[0])) if str(a[0]).startswith("bool:") else z3.Real(str(a[0]))
        elif o == "+":
            terms = []
            stack = [n]
            while stack:
                m = stack.pop()
                if m.op == "+" and (m is n or m.id not in memo):
                    stack.append(m.a[1])
                    stack.append(m.a[0])
                else:
                    terms.append(self.zt(m, mode))
            r = z3.Sum(terms) if len(terms) > 2 else terms[0] + terms[1]
        elif o == "*":
            if isc(a[0]) or isc(a[1]):
                r = self.zt(a[0], mode) * self.zt(a[1], mode)
            else:
                r = self.zf(a[0], mode) * self.zf(a[1], mode)
        elif o == "pow":
            b = self.zf(a[0], mode)
            r = b
            for _ in range(a[1] - 1):
                r = r * b
        elif o in ("inv", "root", "fn", "idiv", "imod"):
            r = self._opaque(n)
        elif o == "ite":
            r = z3.If(self.zt(a[0], mode), self.zt(a[1], mode), self.zt(a[2], mode))
        elif o == "<":
            r = self.zt(a[0], mode) < self.zt(a[1], mode)
        elif o == "<=":
            r = self.zt(a[0], mode) <= self.zt(a[1], mode)
        elif o == "==":
            r = self.zt(a[0], mode) == self.zt(a[1], mode)
        elif o == "and":
            r = z3.And(self.zt(a[0], mode), self.zt(a[1], mode))
        elif o == "not":
            r = z3.Not(self.zt(a[0], mode))
        elif o == "true":
            r = z3.BoolVal(True)
        elif o == "false":
            r = z3.BoolVal(False)
        else:
            raise Inconclusive(f"z3: {o}")
        memo[n.id] = r
        return r

    def zf(self, n, mode):
        """Translate a factor."""
        if n.op == "+" and mode != "full":
            cls, q, zvar = self._sumclass(n)
            if mode == "cut" or cls in mode:
                return zvar if q == 1 else zvar * z3.RealVal(str(q))
        if n.op == "*" and mode != "full":
            memo = self.zmemo.setdefault(("f", mode), {})
            r = memo.get(n.id)
            if r is None:
                r = memo[n.id] = self.zf(n.a[0], mode) * self.zf(n.a[1], mode)
            return r
        return self.zt(n, mode)

    def _sumclass(self, n):
        """(class id, rational factor, z3 variable) of a sum node; merged only when proved proportional."""
        r = self.sumcls.get(n.id)
        if r is not None:
            return r
        sn = self.sig(n)
        key = self._sigkey(sn)
        for rep, cls, zvar in self.sumreps.get(key, ()):
            q = _ratio(sn, self.sig(rep))
            if q is None:
                continue
            other = mul(C(q), rep)
            if n is rep or self._poly(n, other, "cut", timeout=3000) or self._poly(n, other, "full", timeout=3000):
                r = (cls, q, zvar)
                break
        else:
            zvar = z3.Real(f"sum_{n.id}")
            r = (n.id, Fraction(1), zvar)
            self.sumreps.setdefault(key, []).append((n, n.id, zvar))
        self.sumcls[n.id] = r
        return r

    def _sigkey(self, s):
        """Bucket key invariant under rational scaling: ratio of the two sample values."""
        try:
            if len(s) < 2 or s[0] == 0 or s[1] == 0:
                return "z"
            return mpmath.nstr(s[0] / s[1], 14)
        except (TypeError, ZeroDivisionError, ValueError):
            return "z"

    def _opaque(self, n):
        """An opaque real, merged with an earlier opaque whose arguments z3 proves equal."""
        r = self.opq.get(n.id)
        if r is not None:
            return r
        if n.id in self.inprog:
            return z3.Real(f"{n.op}_{n.a[0] if n.op=='fn' else ''}_{n.id}")
        self.inprog.add(n.id)
        try:
            r = self._opaque1(n)
        finally:
            self.inprog.discard(n.id)
        self.opq[n.id] = r
        return r

    def _opaque1(self, n):
        o, a = n.op, n.a
        tag = (o, a[0]) if o == "fn" else (o, a[1]) if o == "root" else (o,)
        args = [x for x in a if isinstance(x, N)]
        cands = self.axioms_used.setdefault(tag, [])
        for other, oargs, zvar in cands:
            if len(oargs) != len(args):
                continue
            if o == "inv":
                # equal up to a rational factor
                sa, sb = self.sig(args[0]), self.sig(oargs[0])
                q = _ratio(sa, sb)
                if q is None:
                    continue
                if self._prove(mul(C(q), oargs[0]), args[0], deep=False):
                    return zvar if q == 1 else zvar * z3.RealVal(str(1 / q))
                continue
            if o == "fn" and a[0] in ODD_EVEN and len(args) == 1:
                if self.numeric_equal(args[0], neg(oargs[0])) and self._prove(args[0], neg(oargs[0]), deep=False):
                    return zvar if ODD_EVEN[a[0]] else -zvar
            if all(self.numeric_equal(x, y) for x, y in zip(args, oargs)):
                if all(x is y or self._prove(x, y, deep=False) for x, y in zip(args, oargs)):
                    return zvar
        zvar = z3.Real(f"{o}_{a[0] if o=='fn' else ''}_{n.id}")
        cands.append((n, args, zvar))
        return zvar

    def est(self, n, mode):
        """Upper bound on the number of monomials after expansion."""
        memo = {}

        def fac(x):
            if x.op == "+" and mode != "full":
                if mode == "cut" or self._sumclass(x)[0] in mode:
                    return 1
            return memo[x.id]

        for x in topo([n]):
            o, a = x.op, x.a
            if o == "+":
                memo[x.id] = memo[a[0].id] + memo[a[1].id]
            elif o == "*":
                memo[x.id] = fac(a[0]) * fac(a[1])
            elif o == "pow":
                k = fac(a[0])
                r = 1
                for i in range(a[1]):
                    r = r * (k + i) // (i + 1)
                memo[x.id] = r
            else:
                memo[x.id] = 1
        return memo[n.id]

    def axioms(self):
        """Defining facts of the opaque nodes (x*inv(x)=1, root^n = x, sin^2+cos^2=1)."""
        ax = []
        trig = {}
        for tag, lst in list(self.axioms_used.items()):
            for n, args, zvar in list(lst):
                if tag[0] == "inv":
                    ax.append(self.zt(args[0], "full") * zvar == 1)
                elif tag[0] == "root":
                    p = zvar
                    for _ in range(tag[1] - 1):
                        p = p * zvar
                    ax.append(p == self.zt(args[0], "full"))
                    ax.append(zvar >= 0)
                elif tag[0] == "fn" and tag[1] in ("sin", "cos", "sinh", "cosh"):
                    trig.setdefault(args[0].id, {})[tag[1]] = zvar
                elif tag[0] == "fn" and tag[1] == "exp":
                    ax.append(zvar > 0)
                elif tag[0] == "fn" and tag[1] == "fabs":
                    x = self.zt(args[0], "full")
                    ax.append(zvar == z3.If(x >= 0, x, -x))
        for d in trig.values():
            if "sin" in d and "cos" in d:
                ax.append(d["sin"] * d["sin"] + d["cos"] * d["cos"] == 1)
            if "sinh" in d and "cosh" in d:
                ax.append(d["cosh"] * d["cosh"] - d["sinh"] * d["sinh"] == 1)
        return ax

    def _check(self, constraints, timeout=None, tactic=None):
        s = z3.Solver() if tactic is None else tactic.solver()
        s.set("timeout", int(timeout or self.timeout_ms))
        for c in constraints:
            s.add(c)
        t = time.time()
        r = s.check()
        STATS.solver_s += time.time() - t
        STATS.queries += 1
        if r == z3.unsat:
            STATS.unsat += 1
        elif r == z3.sat:
            STATS.sat += 1
        return r, (s.model() if r == z3.sat else None)

    def _poly(self, a, b, mode, assume=(), timeout=10000):
        """z3 verdict on a != b in the given cut mode: True (unsat) / False."""
        za, zb = self.z([a, b], mode)
        if z3.is_bool(za):
            cs = [za != zb]
        else:
            if self.est(a, mode) + self.est(b, mode) > self.max_mono:
                return False
            t = time.time()
            cs = [z3.simplify(za - zb, som=True, som_blowup=1 << 30) != 0]
            STATS.solver_s += time.time() - t
        r, m = self._check(cs + list(assume), timeout=min(self.timeout_ms, timeout))
        if m is not None:
            self.last_model = m
        return r == z3.unsat

    def _prove(self, a, b, assume=(), deep=True):
        """True: z3 refutes a != b. False: numerically different. None: undecided."""
        if a is b:
            return True
        if not self.numeric_equal(a, b):
            # let the solver confirm that a difference is possible (it is: the sample point is one)
            self._poly(a, b, "cut", assume, timeout=2000)
            return False
        if self._poly(a, b, "cut", assume, timeout=3000):
            return True
        m = self._match(a, b)
        if m:
            return True
        ca, cb = [{self._sumclass(f)[0] for n in topo([r]) if n.op in ("*", "pow") for f in n.a if isinstance(f, N) and f.op == "+"} for r in (a, b)]
        shared = frozenset(ca & cb)
        if shared and self._poly(a, b, shared, assume):
            return True
        if self._poly(a, b, "full", assume):
            return True
        # numerically equal but not a polynomial identity over the opaques: use the axioms
        num, _den = self.rationalize(sub(a, b))
        for mode in (shared, "full") if shared else ("full",):
            if self.est(num, mode) > self.max_mono:
                continue
            zn = self.z([num], mode)[0]
            d = z3.simplify(zn, som=True, som_blowup=1 << 30)
            r, _m = self._check([d != 0] + list(assume), timeout=3000)
            if r == z3.unsat:
                return True
        if not deep:
            return None
        zn = self.z([num], "full")[0]
        r, _m = self._check([zn != 0] + self.axioms() + list(assume))
        if r == z3.unsat:
            return True
        za, zb = self.z([a, b], "full")
        r, m = self._check([za != zb] + self.axioms() + list(assume))
        if r == z3.unsat:
            return True
        return self._refute(a, b, m, assume)

    def _match(self, a, b, depth=0):
        """Congruence: pair addends / factors with equal values and prove each pair; True or None."""
        key = (a.id, b.id)
        r = self.matched.get(key, 0)
        if r != 0:
            return r
        self.matched[key] = None
        r = self._match1(a, b, depth)
        self.matched[key] = r
        return r

    def _match1(self, a, b, depth):
        if a is b:
            return True
        if depth > 12 or not self.numeric_equal(a, b):
            return None

        def sub_prove(x, y):
            if x is y or self._match(x, y, depth + 1):
                return True
            if self.est(x, "cut") + self.est(y, "cut") < 2000 and self._poly(x, y, "cut", timeout=2000):
                return True
            return self.est(x, "full") + self.est(y, "full") < 4000 and self._poly(x, y, "full", timeout=3000)

        if a.op == b.op and a.op in ("inv", "root", "pow", "fn") and a.a[-1 if a.op in ("root", "pow") else 0] == b.a[-1 if a.op in ("root", "pow") else 0] and a.op != "inv":
            xs, ys = [[z for z in n.a if isinstance(z, N)] for n in (a, b)]
            if len(xs) == len(ys) and all(self.numeric_equal(x, y) for x, y in zip(xs, ys)):
                return True if all(sub_prove(x, y) for x, y in zip(xs, ys)) else None
        if a.op == b.op == "inv":
            return True if self.numeric_equal(a.a[0], b.a[0]) and sub_prove(a.a[0], b.a[0]) else None
        for op in ("+", "*"):
            if a.op != op and b.op != op:
                continue
            fa, fb = _flat(a, op), _flat(b, op)
            rest = list(fb)
            left = []
            for x in fa:
                for i, y in enumerate(rest):
                    if x is y or (self.numeric_equal(x, y) and sub_prove(x, y)):
                        del rest[i]
                        break
                else:
                    left.append(x)
            if not left and not rest:
                return True
            if len(left) < len(fa) and len(left) + len(rest) <= 12 and (left or rest):
                unit = ZERO if op == "+" else ONE
                comb = add if op == "+" else mul
                la, lb = unit, unit
                for x in left:
                    la = comb(la, x)
                for x in rest:
                    lb = comb(lb, x)
                if self.numeric_equal(la, lb) and sub_prove(la, lb):
                    return True
        return None

    def _refute(self, a, b, model, assume):
        """Concrete point (solver model first, then other signs, zeros and ties) at which a and b differ."""
        names = sorted({n.a[0] for n in topo([a, b]) if n.op == "v" and n.a[0] not in ("M_PI", "M_E")})
        envs = []
        if model is not None:
            e = {}
            for d in model.decls():
                v = model[d]
                if d.name() in names:
                    if z3.is_rational_value(v):
                        e[d.name()] = mpmath.mpf(v.numerator_as_long()) / v.denominator_as_long()
                    elif z3.is_int_value(v):
                        e[d.name()] = mpmath.mpf(v.as_long())
                    elif z3.is_algebraic_value(v):
                        e[d.name()] = mpmath.mpf(v.approx(30).as_fraction().numerator) / v.approx(30).as_fraction().denominator
            for nm in names:
                e.setdefault(nm, mpmath.mpf(0))
            envs.append(e)
        if not assume:
            rnd = random.Random(f"refute{SEED}")
            for t in range(40):
                draw = (lambda: rnd.uniform(-2, 2)) if t % 2 else (lambda: rnd.choice([0, 0, 1, -1, 2, -2]))
                envs.append({nm: mpmath.mpf(int(abs(draw())) if nm in self.int_vars else draw()) for nm in names})
        for e in envs:
            try:
                val = evaluate([a, b], e)
            except (Inconclusive, ValueError):
                continue
            x, y = val[a.id], val[b.id]
            if isinstance(x, bool) or isinstance(y, bool):
                if bool(x) != bool(y):
                    self.cex = e
                    return False
                continue
            if isinstance(x, mpmath.mpc) or isinstance(y, mpmath.mpc) or mpmath.isnan(x) or mpmath.isnan(y) or mpmath.isinf(x) or mpmath.isinf(y):
                continue
            if not close(x, y, 1e-15):
                self.cex = e
                return False
        return None

    def rationalize(self, n):
        """(num, den) with n = num/den, no reciprocal left outside opaque arguments."""
        memo = {}
        for x in topo([n]):
            o, a = x.op, x.a
            if o == "+":
                (p, q), (r, s) = memo[a[0].id], memo[a[1].id]
                if q is s:
                    memo[x.id] = (add(p, r), q)
                else:
                    memo[x.id] = (add(mul(p, s), mul(r, q)), mul(q, s))
            elif o == "*":
                (p, q), (r, s) = memo[a[0].id], memo[a[1].id]
                memo[x.id] = (mul(p, r), mul(q, s))
            elif o == "pow":
                p, q = memo[a[0].id]
                memo[x.id] = (ipow(p, a[1]), ipow(q, a[1]))
            elif o == "inv":
                p, q = memo[a[0].id]
                memo[x.id] = (q, p)
            else:
                memo[x.id] = (x, ONE)
        return memo[n.id]

    def within(self, a, b, tol, assume=()):
        """True iff z3 shows |a-b| <= tol for all values; False with a model otherwise."""
        STATS.obligations += 1
        za, zb, zt = self.z([a, b, tol], "full")
        r, _m = self._check([z3.Or(za - zb > zt, zb - za > zt)] + self.axioms() + list(assume))
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
        raise Inconclusive(f"undecided bound |{show(a,4)} - {show(b,4)}| <= {show(tol,3)}")

    def equal(self, a, b, assume=()):
        """'yes' (proved), 'no' (numerically different: counterexample candidate), else Inconclusive."""
        STATS.obligations += 1
        r = self._prove(a, b, assume)
        if r:
            return True
        if r is False:
            return False
        raise Inconclusive(f"undecided equality (numerically equal): {show(a,4)} vs {show(b,4)}")


def _flat(n, op):
    out, stack = [], [n]
    while stack:
        x = stack.pop()
        if x.op == op:
            stack.append(x.a[1])
            stack.append(x.a[0])
        elif op == "*" and x.op == "pow":
            out += [x.a[0]] * x.a[1]
        else:
            out.append(x)
    return out


def _ratio(sa, sb):
    try:
        if any(mpmath.isnan(x) or mpmath.isnan(y) or y == 0 or x == 0 for x, y in zip(sa, sb)):
            return None
        r = [x / y for x, y in zip(sa, sb)]
    except (TypeError, ZeroDivisionError):
        return None
    if not all(close(x, r[0], 1e-18) for x in r):
        return None
    x = r[0]
    if isinstance(x, mpmath.mpc):
        if abs(x.imag) > 1e-18:
            return None
        x = x.real
    q = Fraction(str(mpmath.nstr(x, 25))).limit_denominator(10**6)
    if q == 0 or abs(mpmath.mpf(q.numerator) / q.denominator - x) > 1e-16 * abs(x):
        return None
    return q


# --------------------------------------------------------------------------
# sympy -> DAG
# --------------------------------------------------------------------------
def from_sympy(e, memo=None, symmap=None, fnmap=None):
    """Translate a sympy expression. symmap(symbol)->N ; fnmap(func application, args)->N or None."""
    import sympy as sp

    memo = {} if memo is None else memo
    symmap = symmap or (lambda s: V(s.name))

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = conv(x)
        memo[x] = r
        return r

    def conv(x):
        if x.is_Symbol:
            return symmap(x)
        if x.is_Integer or x.is_Rational:
            return C(Fraction(int(x.p), int(x.q)))
        if x.is_Float:
            return C(Fraction(str(x)))
        if x is sp.pi:
            return V("M_PI")
        if x is sp.E:
            return V("M_E")
        if x.is_NumberSymbol:
            return V(str(x))
        if x.is_Add:
            r = None
            for y in x.args:
                r = go(y) if r is None else add(r, go(y))
            return r
        if x.is_Mul:
            r = None
            for y in x.args:
                r = go(y) if r is None else mul(r, go(y))
            return r
        if x.is_Pow or isinstance(x, sp.exp):
            b, ex = x.as_base_exp()
            if b is sp.E or b == sp.E:
                return fn("exp", go(ex))
            if isinstance(x, sp.exp):
                return fn("exp", go(x.args[0]))
            if ex.is_Rational:
                return rpow(go(b), Fraction(int(ex.p), int(ex.q)))
            return power(go(b), go(ex))
        if isinstance(x, sp.Abs):
            return fn("fabs", go(x.args[0]))
        if isinstance(x, sp.sign):
            y = go(x.args[0])
            return ite(lt(ZERO, y), ONE, ite(lt(y, ZERO), C(-1), ZERO))
        if isinstance(x, sp.Max) or isinstance(x, sp.Min):
            r = None
            for y in x.args:
                y = go(y)
                if r is None:
                    r = y
                elif isinstance(x, sp.Max):
                    r = ite(lt(r, y), y, r)
                else:
                    r = ite(lt(y, r), y, r)
            return r
        if isinstance(x, sp.Piecewise):
            r = fn("piecewise_undefined")
            for ex, cond in reversed(x.args):
                r = ite(go(cond), go(ex), r)
            return r
        if x is sp.true:
            return TRUE
        if x is sp.false:
            return FALSE
        if isinstance(x, sp.core.relational.Relational):
            a, b = go(x.lhs), go(x.rhs)
            return {
                "<": lambda: lt(a, b), "<=": lambda: le(a, b), ">": lambda: lt(b, a), ">=": lambda: le(b, a),
                "==": lambda: eq(a, b), "!=": lambda: not_(eq(a, b)),
            }[x.rel_op]()
        if isinstance(x, sp.And):
            r = TRUE
            for y in x.args:
                r = and_(r, go(y))
            return r
        if isinstance(x, sp.Or):
            r = FALSE
            for y in x.args:
                r = or_(r, go(y))
            return r
        if isinstance(x, sp.Not):
            return not_(go(x.args[0]))
        if isinstance(x, sp.atan2):
            return fn("atan2", go(x.args[0]), go(x.args[1]))
        if x.is_Function:
            if fnmap is not None:
                r = fnmap(x, [go(y) for y in x.args])
                if r is not None:
                    return r
            name = x.func.__name__
            name = {"Abs": "fabs"}.get(name, name)
            args = [go(y) for y in x.args]
            if name == "nrpyAbs":
                return fn("fabs", *args)
            if name in ("sec", "csc", "cot"):
                if name == "sec":
                    return inv(fn("cos", *args))
                if name == "csc":
                    return inv(fn("sin", *args))
                return mul(fn("cos", *args), inv(fn("sin", *args)))
            return fn(name, *args)
        raise Inconclusive(f"from_sympy: {type(x)} {x}")

    return go(e)


def subst(n, env, memo=None):
    """Replace variables by nodes: env maps names to nodes."""
    memo = {} if memo is None else memo
    for x in topo([n]):
        if x.id in memo:
            continue
        o, a = x.op, x.a
        b = [memo[y.id] if isinstance(y, N) else y for y in a]
        if o == "v":
            r = env.get(a[0], x)
        elif all(p is q for p, q in zip(a, b)):
            r = x
        elif o == "+":
            r = add(*b)
        elif o == "*":
            r = mul(*b)
        elif o == "inv":
            r = inv(*b)
        elif o == "pow":
            r = ipow(*b)
        elif o == "root":
            r = root(*b)
        elif o == "fn":
            r = fn(*b)
        elif o == "ite":
            r = ite(*b)
        elif o == "<":
            r = lt(*b)
        elif o == "<=":
            r = le(*b)
        elif o == "==":
            r = eq(*b)
        elif o == "and":
            r = and_(*b)
        elif o == "not":
            r = not_(*b)
        elif o == "idiv":
            r = idiv(*b)
        elif o == "imod":
            r = imod(*b)
        else:
            r = mk(o, *b)
        memo[x.id] = r
    return memo[n.id]


def abstract_exp(n, chain, memo=None):
    """exp(u), 1/exp(u) -> independent variables P, Q; 1/(sum over exps of coordinate-free u) -> variable.

    Sound for proving: an identity in independent P, Q holds for P = exp(u), Q = exp(-u).
    chain maps the new variable names to a function giving their derivative node.
    """
    memo = {} if memo is None else memo
    for x in topo([n]):
        if x.id in memo:
            continue
        o, a = x.op, x.a
        if o == "inv" and a[0].op == "fn" and a[0].a[0] == "exp":
            u = a[0].a[1]
            nm = f"Q:{u.id}"
            chain[nm] = (lambda var, u=u, nm=nm: neg(mul(V(nm), diff(u, var))))
            memo[x.id] = V(nm)
        elif o == "fn" and a[0] == "exp":
            u = a[1]
            nm = f"P:{u.id}"
            chain[nm] = (lambda var, u=u, nm=nm: mul(V(nm), diff(u, var)))
            memo[x.id] = V(nm)
        elif not any(isinstance(y, N) for y in a):
            memo[x.id] = x
        else:
            b = [memo[y.id] if isinstance(y, N) else y for y in a]
            if all(p is q for p, q in zip(a, b)):
                memo[x.id] = x
            elif o == "+":
                memo[x.id] = add(*b)
            elif o == "*":
                memo[x.id] = mul(*b)
            elif o == "inv":
                memo[x.id] = inv(*b)
            elif o == "pow":
                memo[x.id] = ipow(*b)
            elif o == "root":
                memo[x.id] = root(*b)
            elif o == "fn":
                memo[x.id] = fn(*b)
            elif o == "ite":
                memo[x.id] = ite(*b)
            else:
                memo[x.id] = mk(o, *b)
    return memo[n.id]


def diff(n, var, memo=None, chain=None):
    """Derivative of a node with respect to the variable named var (memo shared per var)."""
    memo = {} if memo is None else memo
    chain = chain or {}
    for x in topo([n]):
        if x.id in memo:
            continue
        o, a = x.op, x.a
        if o == "c":
            r = ZERO
        elif o == "v":
            r = ONE if a[0] == var else chain[a[0]](var) if a[0] in chain else ZERO
        elif o == "+":
            r = add(memo[a[0].id], memo[a[1].id])
        elif o == "*":
            r = add(mul(memo[a[0].id], a[1]), mul(a[0], memo[a[1].id]))
        elif o == "inv":
            d = memo[a[0].id]
            r = ZERO if d is ZERO else neg(mul(d, ipow(inv(a[0]), 2)))
        elif o == "pow":
            d = memo[a[0].id]
            r = ZERO if d is ZERO else mul(mul(C(a[1]), ipow(a[0], a[1] - 1)), d)
        elif o == "root":
            d = memo[a[0].id]
            r = ZERO if d is ZERO else mul(mul(C(Fraction(1, a[1])), mul(x, inv(a[0]))), d)
        elif o == "fn":
            ds = [memo[y.id] for y in a[1:]]
            if all(d is ZERO for d in ds):
                r = ZERO
            elif len(ds) == 1 and a[0] in DERIV:
                r = mul(DERIV[a[0]](a[1]), ds[0])
            elif a[0] == "atan2":
                y, xx = a[1], a[2]
                q = inv(add(ipow(xx, 2), ipow(y, 2)))
                r = mul(q, sub(mul(xx, ds[0]), mul(y, ds[1])))
            else:
                raise Inconclusive(f"diff: {a[0]}")
        elif o == "ite":
            r = ite(a[0], memo[a[1].id], memo[a[2].id])
        else:
            r = ZERO
        memo[x.id] = r
    return memo[n.id]


DERIV = {
    "sin": lambda a: fn("cos", a),
    "cos": lambda a: neg(fn("sin", a)),
    "tan": lambda a: add(ONE, ipow(fn("tan", a), 2)),
    "sinh": lambda a: fn("cosh", a),
    "cosh": lambda a: fn("sinh", a),
    "tanh": lambda a: sub(ONE, ipow(fn("tanh", a), 2)),
    "exp": lambda a: fn("exp", a),
    "log": lambda a: inv(a),
    "asinh": lambda a: inv(root(add(ONE, ipow(a, 2)), 2)),
    "asin": lambda a: inv(root(sub(ONE, ipow(a, 2)), 2)),
    "acos": lambda a: neg(inv(root(sub(ONE, ipow(a, 2)), 2))),
    "atan": lambda a: inv(add(ONE, ipow(a, 2))),
    "erf": lambda a: mul(mul(C(2), inv(root(V("M_PI"), 2))), fn("exp", neg(ipow(a, 2)))),
}
