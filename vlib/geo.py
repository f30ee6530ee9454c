"""Exact execution of coordinate-map code on cell-centred grids.

Angles are rational multiples of pi, radial spacings and parameters symbolic positive
reals. Each square root, arc function, rounding and comparison met during the symbolic
execution is resolved to the value suggested by two numeric samples and then proved by
the solver for all parameter values; without a proof the run is inconclusive.
"""
from vlib import cexec, dag
from vlib.core import STATS, Inconclusive
from vlib.dag import C, Fraction, V, ZERO, add, mul, neg, sub

z3 = dag.z3
mpmath = dag.mpmath
PI = V("M_PI")


def piq(n):
    """Rational q with n == q*pi, or None."""
    p = cexec.poly(n)
    if p is None:
        return None
    if not p:
        return Fraction(0)
    if set(p) == {(PI.id,)}:
        return p[(PI.id,)]
    return None


def trig(name, q):
    """sin/cos of q*pi in terms of sin, cos of angles in (0, pi/4]."""
    if name == "cos":
        q = q + Fraction(1, 2)
    q = q % 2
    s = 1
    if q > 1:
        q, s = q - 1, -1
    if q > Fraction(1, 2):
        q = 1 - q
    # s * sin(q pi), 0 <= q <= 1/2
    if q == 0:
        return ZERO
    if q == Fraction(1, 2):
        return C(s)
    if q == Fraction(1, 6):
        return C(Fraction(s, 2))
    if q == Fraction(1, 4):
        return mul(C(Fraction(s, 2)), dag.root(C(2), 2))
    if q == Fraction(1, 3):
        return mul(C(Fraction(s, 2)), dag.root(C(3), 2))
    if q < Fraction(1, 4):
        r = dag.fn("sin", mul(C(q), PI))
    else:
        r = dag.fn("cos", mul(C(Fraction(1, 2) - q), PI))
    return r if s > 0 else neg(r)


def acc(d, m, c):
    v = d.get(m, 0) + c
    if v:
        d[m] = v
    else:
        d.pop(m, None)


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items(), key=lambda q: q[0].id))


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            acc(r, mmul(m, n), c * d)
    return r


def polynomial(n):
    """{((atom, exponent), ...): coefficient} of a node without reciprocals at the top."""
    memo = {}
    for x in dag.topo([n]):
        o, a = x.op, x.a
        if o == "c":
            r = {(): a[0]} if a[0] else {}
        elif o == "+":
            r = dict(memo[a[0].id])
            for m, c in memo[a[1].id].items():
                acc(r, m, c)
        elif o == "*":
            r = pmul(memo[a[0].id], memo[a[1].id])
        elif o == "pow":
            b = memo[a[0].id]
            r = {(): Fraction(1)}
            for _ in range(a[1]):
                r = pmul(r, b)
        else:
            r = {((x, 1),): Fraction(1)}
        memo[x.id] = r
    return memo[n.id]


def node(p):
    r = ZERO
    for m, c in sorted(p.items(), key=lambda q: [(x.id, e) for x, e in q[0]]):
        t = C(c)
        for x, e in m:
            t = mul(t, dag.ipow(x, e) if x.op != "root" else dag.mk("pow", x, e) if e > 1 else x)
        r = add(r, t)
    return r


def factors(n):
    """{factor: exponent} of a product."""
    if n is dag.ONE:
        return {}
    if n.op == "*":
        r = factors(n.a[0])
        for f, e in factors(n.a[1]).items():
            r[f] = r.get(f, 0) + e
        return r
    if n.op == "pow":
        return {n.a[0]: n.a[1]}
    return {n: 1}


def ratio(n):
    """(num, den) with n == num/den; common denominators are least common multiples of their factors."""
    memo = {}

    def prod(f):
        r = dag.ONE
        for x, e in sorted(f.items(), key=lambda q: q[0].id):
            if e:
                r = mul(r, dag.ipow(x, e))
        return r

    for x in dag.topo([n]):
        o, a = x.op, x.a
        if o == "+":
            (p, q), (r, s) = memo[a[0].id], memo[a[1].id]
            l = {f: max(q.get(f, 0), s.get(f, 0)) for f in {**q, **s}}
            memo[x.id] = (add(mul(p, prod({f: e - q.get(f, 0) for f, e in l.items()})), mul(r, prod({f: e - s.get(f, 0) for f, e in l.items()}))), l)
        elif o == "*":
            (p, q), (r, s) = memo[a[0].id], memo[a[1].id]
            memo[x.id] = (mul(p, r), {f: q.get(f, 0) + s.get(f, 0) for f in {**q, **s}})
        elif o == "pow":
            p, q = memo[a[0].id]
            memo[x.id] = (dag.ipow(p, a[1]), {f: e * a[1] for f, e in q.items()})
        elif o == "inv":
            p, q = memo[a[0].id]
            memo[x.id] = (prod(q), factors(p))
        else:
            memo[x.id] = (x, {})
    p, q = memo[n.id]
    return p, prod(q)


class Geo:
    def __init__(self, ex, lengths=(), angle_den=1):
        """lengths: candidate values of square roots; angle_den: angles are multiples of pi/angle_den."""
        self.ex, self.lengths, self.den = ex, list(lengths), angle_den
        self.pr = dag.Prover(timeout_ms=20000)
        self.memo = {}
        for s in ("", "l"):
            ex.stubs["sin" + s] = ex.stubs["cos" + s] = self.trig
            ex.stubs["sqrt" + s] = self.sqrt
            ex.stubs["acos" + s] = self.acos
            ex.stubs["atan2" + s] = self.atan2
            ex.stubs["fabs" + s] = self.fabs
            ex.stubs["sinh" + s] = ex.stubs["asinh" + s] = ex.stubs["tanh" + s] = self.odd
        ex.decide = self.decide
        ex.trunc_hook = self.trunc

    # ---- proofs
    def val(self, n):
        v = self.pr.sig(n)
        return [mpmath.mpf(x.real) if hasattr(x, "real") else x for x in v]

    def same(self, a, b):
        if a is b:
            return True
        a, b = self.resolve(a), self.resolve(b)
        k = ("=", a.id, b.id)
        if k not in self.memo:
            self.memo[k] = self.pr.numeric_equal(a, b) and (self.rational(a, b) or self.pr.equal(a, b))
        return self.memo[k]

    def rational(self, a, b):
        """a == b as rational functions, with sin, cos = 2t/(1+t^2), (1-t^2)/(1+t^2) and root^2 = argument.

        The reduction modulo the root relations is done here and yields cofactors; the solver
        decides num == sum cofactor_k * (root_k^2 - argument_k).
        """
        num, _den = ratio(self.half(sub(a, b)))
        if self.pr.est(num, "full") > 200000:
            return False
        p = polynomial(num)
        rest, cof = p, {}
        for _ in range(200):
            hit = None
            for m in rest:
                for x, e in m:
                    if x.op == "root" and e >= x.a[1]:
                        hit = x
                        break
                if hit:
                    break
            if hit is None:
                break
            k = hit.a[1]
            arg = polynomial(hit.a[0])
            new, co = {}, cof.setdefault(hit.id, (hit, {}))[1]
            for m, c in rest.items():
                d = dict(m)
                if d.get(hit, 0) >= k:
                    d[hit] -= k
                    m2 = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda q: q[0].id))
                    acc(co, m2, c)
                    for m3, c3 in arg.items():
                        acc(new, mmul(m2, m3), c * c3)
                else:
                    acc(new, m, c)
            rest = new
        if rest:
            return False
        zz = lambda n: self.pr.z([n])[0]
        q = zz(node(p))
        for x, co in cof.values():
            q = q - zz(node(co)) * (zz(x) ** x.a[1] - zz(node(polynomial(x.a[0]))))
        zn = z3.simplify(zz(num) - zz(node(p)), som=True, som_blowup=1 << 30)
        zq = z3.simplify(q, som=True, som_blowup=1 << 30)
        STATS.obligations += 1
        r, _m = self.pr._check([z3.Or(zn != 0, zq != 0)], timeout=5000)
        return r == z3.unsat

    def half(self, n):
        for x in dag.topo([n]):
            k = ("h", x.id)
            if k in self.memo:
                continue
            b = [self.memo[("h", y.id)] if isinstance(y, dag.N) else y for y in x.a]
            r = x
            if x.op == "fn" and x.a[0] in ("sin", "cos") and piq(x.a[1]) is not None:
                t = V(f"t[{piq(x.a[1])}]")
                t2 = dag.ipow(t, 2)
                r = mul(mul(C(2), t) if x.a[0] == "sin" else sub(C(1), t2), dag.inv(add(C(1), t2)))
            elif x.op == "fn" and x.a[0] == "exp":
                # exp(c m) as a power of exp(m/4)
                p, q = ratio(x.a[1])
                p = polynomial(p)
                if len(p) == 1 and not dag.isc(q) and self.positive_form(q) == 1 and all(y.op == "v" for m in p for y, _e in m):
                    (m, c), = p.items()
                    c = 4 * c
                    if c.denominator == 1:
                        E = V(f"exp[{'*'.join(f'{y.id}^{e}' for y, e in m)}/{q.id}]")
                        r = dag.ipow(E, int(c)) if c > 0 else dag.inv(dag.ipow(E, int(-c)))
            elif x.op == "root" and b[0].op == "pow" and b[0].a[0].op == "v" and b[0].a[1] % x.a[1] == 0:
                r = dag.ipow(b[0].a[0], b[0].a[1] // x.a[1])
            elif x.op in ("+", "*", "inv", "pow"):
                r = {"+": add, "*": mul, "inv": dag.inv, "pow": dag.ipow}[x.op](*b)
            elif x.op == "root" and x.a[1] == 2 and dag.isc(b[0]):
                f = b[0].a[0]
                r = mul(C(Fraction(1, f.denominator)), dag.root(C(f.numerator * f.denominator), 2))
            elif x.op == "root" and x.a[1] == 2:
                p, q = ratio(b[0])
                if q is dag.ONE:
                    r = dag.root(node(polynomial(p)), 2)
                elif self.positive_form(q) == 1 or self.even(q):
                    h = dag.ONE
                    for f, e in factors(q).items():
                        h = mul(h, dag.ipow(f, (e + 1) // 2))
                        if e % 2:
                            p = mul(p, f)
                    r = mul(dag.root(node(polynomial(p)), 2), dag.inv(h))
            self.memo[k] = r
        return self.memo[("h", n.id)]

    def even(self, q):
        """Every factor of q is positive (exponentials of positive arguments exceed 1)."""
        for f in factors(q):
            if self.positive_form(f) == 1:
                continue
            k = ("e", f.id)
            if k not in self.memo:
                zf = self.pr.z([f])[0]
                hyp = [self.pr.z([x])[0] > (1 if x.a[0].startswith("exp[") else 0) for x in dag.topo([f]) if x.op == "v"]
                STATS.obligations += 1
                self.memo[k] = self.pr._check([zf <= 0] + hyp, timeout=5000)[0] == z3.unsat
            if not self.memo[k]:
                return False
        return True

    def sign(self, n):
        """-1, 0, 1: proved for all positive parameter values."""
        k = ("s", n.id)
        if k in self.memo:
            return self.memo[k]
        v = self.val(n)
        s = {0 if abs(x) < mpmath.mpf(10) ** -18 else (1 if x > 0 else -1) for x in v}
        if len(s) != 1:
            raise Inconclusive(f"sign depends on the parameters: {dag.show(n)}")
        s = s.pop()
        if s == 0:
            if not self.same(n, ZERO):
                raise Inconclusive(f"sign of {dag.show(n)}")
        else:
            STATS.obligations += 1
            f = self.positive_form(n)
            if f is None:
                zn = self.pr.z([n])[0]
                pos = [self.pr.z([V(x)])[0] > 0 for x in dag.variables([n])]
                pos += [z > 0 for z in self.trigs(n)]
                r, _m = self.pr._check([zn <= 0 if s > 0 else zn >= 0] + pos + self.pr.axioms(), timeout=20000)
                if r != z3.unsat:
                    raise Inconclusive(f"sign of {dag.show(n)}")
            elif f != s:
                raise Inconclusive(f"sign of {dag.show(n)}")
        self.memo[k] = s
        return s

    def trigs(self, n):
        """z3 terms of the first-octant sines and cosines and of reciprocals below n: all positive."""
        return [self.pr.z([x])[0] for x in dag.topo([n]) if self.atom_positive(x)]

    def atom_positive(self, x):
        if x.op == "v":
            return True
        if x.op == "fn" and x.a[0] in ("sin", "cos"):
            q = piq(x.a[1])
            return q is not None and 0 < q < Fraction(1, 2)
        if x.op == "fn" and x.a[0] in ("sinh", "exp", "cosh", "asinh", "tanh"):
            return x.a[0] in ("exp", "cosh") or self.positive_form(x.a[1]) == 1
        if x.op in ("inv", "root"):
            return self.positive_form(x.a[0]) == 1
        return False

    def positive_form(self, n):
        """1 / -1 when n is a sum of products of positive atoms all of one sign; else None."""
        k = ("p", n.id)
        if k in self.memo:
            return self.memo[k]
        o, a = n.op, n.a
        r = None
        if o == "c":
            r = (a[0] > 0) - (a[0] < 0) or None
        elif o == "+":
            l, m = self.positive_form(a[0]), self.positive_form(a[1])
            r = l if l == m else None
        elif o == "*":
            l, m = self.positive_form(a[0]), self.positive_form(a[1])
            r = l * m if l and m else None
        elif o == "pow":
            l = self.positive_form(a[0])
            r = l ** a[1] if l else None
        elif o == "inv":
            r = self.positive_form(a[0])
        elif self.atom_positive(n):
            r = 1
        self.memo[k] = r
        return r

    def fold(self, n):
        """n itself, or the small rational it is proved to equal."""
        if dag.isc(n):
            return n
        v = self.val(n)
        if max(v) - min(v) > mpmath.mpf(10) ** -18:
            return n
        q = Fraction(mpmath.nstr(v[0], 20)).limit_denominator(720)
        if abs(v[0] - mpmath.mpf(q.numerator) / q.denominator) > mpmath.mpf(10) ** -15:
            return n
        return C(q) if self.same(n, C(q)) else n

    # ---- stubs
    def trig(self, _ex, name, args):
        name = name.rstrip("l")
        n = self.resolve(args[0].n)
        q = piq(n)
        if q is not None:
            return cexec.S(args[0].t, trig(name, q))
        if n.op == "fn" and n.a[0] == "acos" and name == "cos":
            return cexec.S(args[0].t, n.a[1])
        return cexec.S(args[0].t, dag.fn(name, n))

    def odd(self, _ex, name, args):
        name, n = name.rstrip("l"), self.resolve(args[0].n)
        if self.positive_form(n) == -1:
            return cexec.S(args[0].t, neg(dag.fn(name, neg(n))))
        return cexec.S(args[0].t, dag.fn(name, n))

    def sqrt(self, _ex, _name, args):
        n = self.resolve(args[0].n)
        k = ("q", n.id)
        if k not in self.memo:
            r = None
            for L in self.lengths:
                if self.pr.numeric_equal(n, dag.ipow(L, 2)) and self.positive_form(L) == 1 and self.same(n, dag.ipow(L, 2)):
                    r = L
                    break
            self.memo[k] = r if r is not None else dag.root(n, 2)
        return cexec.S(args[0].t, self.memo[k])

    def _qs(self, x):
        q = Fraction(mpmath.nstr(x / mpmath.pi * self.den, 25)).limit_denominator(1)
        return q / self.den if abs(x - mpmath.mpf(q.numerator) / self.den * mpmath.pi) < mpmath.mpf(10) ** -12 else None

    def acos(self, _ex, _name, args):
        n = self.resolve(args[0].n)
        if ("ac", n.id) not in self.memo:
            r = dag.fn("acos", n)
            v = [mpmath.acos(x) for x in self.val(n)]
            q = self._qs(v[0].real) if all(abs(mpmath.im(x)) < 1e-20 for x in v) else None
            if q is not None and abs(v[1] - v[0]) < 1e-15 and self.same(n, trig("cos", q)):
                r = mul(C(q), PI)
            self.memo[("ac", n.id)] = r
        return cexec.S(args[0].t, self.memo[("ac", n.id)])

    def atan2(self, _ex, _name, args):
        y, x = self.resolve(args[0].n), self.resolve(args[1].n)
        k = ("at", y.id, x.id)
        if k not in self.memo:
            r = dag.fn("atan2", y, x)
            v = [mpmath.atan2(a, b) for a, b in zip(self.val(y), self.val(x))]
            q = self._qs(v[0])
            if q is not None and abs(v[0] - v[1]) < 1e-15:
                s, c = trig("sin", q), trig("cos", q)
                if self.same(mul(y, c), mul(x, s)) and self.sign(add(mul(x, c), mul(y, s))) == 1:
                    r = mul(C(q), PI)
            self.memo[k] = r
        return cexec.S(args[0].t, self.memo[k])

    def fabs(self, _ex, _name, args):
        n = self.fold(self.resolve(args[0].n))
        if dag.isc(n):
            return cexec.S(args[0].t, C(abs(n.a[0])))
        s = self.sign(n)
        return cexec.S(args[0].t, n if s > 0 else neg(n))

    def trunc(self, n):
        n = self.fold(self.resolve(n))
        return C(int(n.a[0])) if dag.isc(n) else dag.fn("trunc", n)

    def decide(self, c):
        o, a = c.op, c.a
        if o == "not":
            return not self.decide(a[0])
        if o == "and":
            return self.decide(a[0]) and self.decide(a[1])
        if o == "true" or o == "false":
            return o == "true"
        if o in ("<", "<=", "=="):
            d = sub(a[0], a[1])
            s = self.sign(self.resolve(d))
            return s < 0 if o == "<" else s <= 0 if o == "<=" else s == 0
        raise Inconclusive(f"branch on {dag.show(c)}")

    def resolve(self, n):
        """Replace conditionals below n by the arm their (decided) condition selects."""
        if not any(x.op == "ite" for x in dag.topo([n])):
            return n
        memo = {}
        for x in dag.topo([n]):
            b = [memo.get(y.id, y) if isinstance(y, dag.N) else y for y in x.a]
            if x.op == "ite":
                memo[x.id] = b[1] if self.decide(b[0]) else b[2]
            elif all(p is q for p, q in zip(x.a, b)):
                memo[x.id] = x
            else:
                memo[x.id] = {"+": add, "*": mul, "inv": dag.inv, "pow": dag.ipow, "root": dag.root, "fn": dag.fn, "<": dag.lt, "<=": dag.le, "==": dag.eq, "and": dag.and_, "not": dag.not_}.get(x.op, lambda *q, op=x.op: dag.mk(op, *q))(*b)
        return memo[n.id]
