"""Symbolic summaries of C loop nests: every loop variable is init + step*k for a symbolic k >= 0.

Integers are unbounded mathematical integers; the loop condition must be monotone in k
(checked), so "iteration k is executed" is exactly the condition at iteration k.
"""
from vlib import cexec, dag
from vlib.core import STATS, Inconclusive
from vlib.dag import V

z3 = dag.z3


def zint(n, memo=None):
    """DAG node over integers -> z3 term."""
    memo = {} if memo is None else memo
    for x in dag.topo([n]):
        if x.id in memo:
            continue
        a = [memo[y.id] if isinstance(y, dag.N) else y for y in x.a]
        o = x.op
        if o == "v":
            r = z3.Int(x.a[0])
        elif o == "c":
            if x.a[0].denominator != 1:
                raise Inconclusive(f"non-integer constant {x}")
            r = z3.IntVal(x.a[0].numerator)
        elif o == "+":
            r = a[0] + a[1]
        elif o == "*":
            r = a[0] * a[1]
        elif o == "pow":
            r = a[0]
            for _ in range(a[1] - 1):
                r = r * a[0]
        elif o == "ite":
            r = z3.If(a[0], a[1], a[2])
        elif o == "<":
            r = a[0] < a[1]
        elif o == "<=":
            r = a[0] <= a[1]
        elif o == "==":
            r = a[0] == a[1]
        elif o == "and":
            r = z3.And(*a)
        elif o == "or":
            r = z3.Or(*a)
        elif o == "not":
            r = z3.Not(a[0])
        elif o == "true":
            r = z3.BoolVal(True)
        elif o == "false":
            r = z3.BoolVal(False)
        elif o == "idiv":
            q = a[0] / a[1]
            r = z3.If(z3.And(a[0] < 0, a[0] - q * a[1] != 0), z3.If(a[1] > 0, q + 1, q - 1), q)
        elif o == "imod":
            q = a[0] / a[1]
            q = z3.If(z3.And(a[0] < 0, a[0] - q * a[1] != 0), z3.If(a[1] > 0, q + 1, q - 1), q)
            r = a[0] - a[1] * q
        elif o == "fn":
            r = z3.Function(x.a[0], *[z3.IntSort()] * (len(a) - 1), z3.IntSort())(*a[1:])
        else:
            raise Inconclusive(f"integer term {x}")
        memo[x.id] = r
    return memo[n.id]


def check(cs, timeout=60000):
    import time

    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*cs)
    t = time.time()
    r = s.check()
    STATS.solver_s += time.time() - t
    STATS.queries += 1
    STATS.unsat += r == z3.unsat
    STATS.sat += r == z3.sat
    return r, (s.model() if r == z3.sat else None)


class Visit:
    def __init__(self, ks, cons, args, heads):
        self.ks, self.cons, self.args, self.heads = list(ks), list(cons), args, list(heads)


class Summary:
    """Runs a function of an Exec with all for-loops summarised; calls of `mark` are recorded as visits."""

    def __init__(self, ex, mark="VISIT", assume=()):
        self.ex = ex
        self.ks, self.cons, self.heads = [], list(assume), []
        self.visits = []
        self.n = 0
        ex.loop_hook = self.hook
        ex.stubs[mark] = self.visit

    def visit(self, _ex, _n, args):
        self.visits.append(Visit(self.ks, self.cons, args, self.heads))

    def hook(self, ex, s):
        c_ast = cexec.c_ast
        ex.scopes.append({})
        nk, nc = len(self.ks), len(self.cons)
        try:
            if isinstance(s.init, c_ast.DeclList) and len(s.init.decls) == 1:
                name = s.init.decls[0].name
            elif isinstance(s.init, c_ast.Assignment) and isinstance(s.init.lvalue, c_ast.ID):
                name = s.init.lvalue.name
            else:
                raise Inconclusive("loop without a single loop variable")
            ex.stmt(s.init)
            cell = ex.lookup(name)
            t, init = cell.t, cell.v.n
            self.n += 1
            x = V(f"_step{self.n}")
            cell.v = cexec.S(t, x)
            ex.eval(s.next)
            step = dag.sub(cell.v.n, x)
            if step.op == "+" and x in step.a or True:
                zs = z3.simplify(zint(step))
                if str(x.a[0]) in {str(v) for v in _vars(zs)}:
                    raise Inconclusive("loop step depends on the loop variable")
                step = _back(zs)
            k = V(f"_k{self.n}")
            zk = z3.Int(k.a[0])

            def cond(kk):
                cell.v = cexec.S(t, dag.add(init, dag.mul(step, kk)))
                return zint(ex.cond(ex.eval(s.cond)))

            k1 = V(f"_k{self.n}n")
            c, c1 = cond(k), z3.substitute(cond(k1), (z3.Int(k1.a[0]), zk + 1))
            r, _m = check(self.cons + [zk >= 0, c1, z3.Not(c)])
            if r != z3.unsat:
                raise Inconclusive("loop condition not monotone")
            self.ks.append(k.a[0])
            self.heads.append((init, step))
            self.cons += [zk >= 0, c]
            cell.v = cexec.S(t, dag.add(init, dag.mul(step, k)))
            ex.stmt(s.stmt)
        finally:
            ex.scopes.pop()
            del self.ks[nk:]
            del self.heads[nk:]
            del self.cons[nc:]
        return True


def _vars(z):
    out, todo = set(), [z]
    while todo:
        x = todo.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x)
        todo += x.children()
    return out


def _back(z):
    if z3.is_int_value(z):
        return dag.C(z.as_long())
    if z3.is_const(z):
        return V(str(z))
    raise Inconclusive(f"loop step {z}")


def rename(v, tag):
    """z3 substitution pairs giving the visit its own iteration variables."""
    return [(z3.Int(k), z3.Int(k + tag)) for k in v.ks]


def visited_once(visits, region, dims, width=1, assume=()):
    """Every point of region(p) is visited exactly once and nothing else is. Returns None or (kind, model).

    dims: number of leading visit arguments forming the point; width: lanes along the first argument.
    """
    p = [z3.Int(f"_p{i}") for i in range(dims)]

    def at(v, tag=""):
        prs = rename(v, tag) if tag else []
        cs = [z3.substitute(c, *prs) if prs else c for c in v.cons]
        pt = [zint(a.n) for a in v.args[:dims]]
        pt = [z3.substitute(x, *prs) if prs else x for x in pt]
        return cs, pt

    def covers(pt):
        return z3.And(pt[0] <= p[0], p[0] < pt[0] + width, *[pt[i] == p[i] for i in range(1, dims)])

    for v in visits:
        cs, pt = at(v)
        r, m = check(list(assume) + cs + [z3.Not(region(pt))])
        if r != z3.unsat:
            return ("outside", m) if m is not None else ("unknown", None)
    if not _covered_by_witness(visits, region, dims, width, assume, p, at, covers):
        r = _covered(visits, region, assume, p, at, covers)
        if r is not None:
            return r
    for i, v in enumerate(visits):
        for w in visits[i:]:
            cs, pt = at(v)
            ds, qt = at(w, "'")
            same = z3.And(*[z3.Int(k) == z3.Int(k + "'") for k in v.ks]) if v is w else z3.BoolVal(False)
            r, m = check(list(assume) + cs + ds + [covers(pt), covers(qt), z3.Not(same)])
            if r != z3.unsat:
                return ("twice", m) if m is not None else ("unknown", None)
    return None


def _covered_by_witness(visits, region, dims, width, assume, p, at, covers):
    """Iteration numbers (p - init) div step of the loops each coordinate depends on reach p."""
    hits = []
    for v in visits:
        subs = []
        dep = [dag.variables([a.n]) for a in v.args[:dims]]
        for k, (init, step) in zip(v.ks, v.heads):
            ds = [d for d in range(dims) if k in dep[d]]
            if len(ds) != 1:
                return False
            ini = z3.substitute(zint(init), *subs) if subs else zint(init)
            subs.append((z3.Int(k), (p[ds[0]] - ini) / zint(step)))
        cs, pt = at(v)
        b = z3.And(*cs, covers(pt))
        hits.append(z3.substitute(b, *subs) if subs else b)
    return bool(hits) and check(list(assume) + [region(p), z3.Not(z3.Or(*hits))], 20000)[0] == z3.unsat


def _covered(visits, region, assume, p, at, covers):
    hit = []
    for v in visits:
        cs, pt = at(v)
        b = z3.And(*cs, covers(pt))
        hit.append(z3.Exists([z3.Int(k) for k in v.ks], b) if v.ks else b)
    r, m = check(list(assume) + [region(p), z3.Not(z3.Or(*hit)) if hit else z3.BoolVal(True)])
    if r != z3.unsat:
        return ("missed", m) if m is not None else ("unknown", None)
    return None
