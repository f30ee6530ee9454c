"""P06: CSE pre-/post-processing preserves values and keeps definitions before uses."""
import itertools
import random

import sympy as sp

from vlib import corpus, dag
from vlib.core import QUICK, SEED, STATS, Check, Inconclusive, encoded, nrpy_call, report, sample
from vlib.dag import C, V


def to_dag(e, defs, memo):
    def symmap(s):
        return defs[s] if s in defs else V(s.name)

    return dag.from_sympy(e, memo, symmap=symmap)


def replay(orig, new, env, rng):
    """Evaluate both with sympy's own numeric evaluation at rational points."""
    for _ in range(6):
        pt = {s: sp.Rational(rng.randint(1, 40), rng.randint(7, 23)) * rng.choice([1, 1, -1]) for s in orig.free_symbols | new.free_symbols if s not in env}
        a = complex(sp.N(orig.subs(pt), 30))
        b = complex(sp.N(new.subs(env).subs(pt), 30))
        if abs(a - b) > 1e-12 * (1 + abs(a)):
            return {"point": {str(k): str(v) for k, v in pt.items()}, "original": str(a), "result": str(b)}
    return None


def decide(pr, key, what, want, got, mkreplay):
    try:
        same = pr.equal(got, want)
    except dag.Inconclusive:
        r = mkreplay()
        if r is None:
            raise
        same = False
    if same:
        return
    r = mkreplay()
    if r is None:
        raise Inconclusive(f"{key}: counterexample not reproduced")
    report(key, what + f": {r}", r)


FLAGS = [dict(declare_neg1_as_symbol=n, factor=f, negative=g, prefix=p) for n, f, g, p in itertools.product([False, True], [True, False], [False, True], ["", "FDPart3"]) if not (p and not f)]


def case(arg):
    gid, lists = arg
    from nrpy.helpers.cse_preprocess_postprocess import cse_postprocess, cse_preprocess

    encoded("nrpy.helpers.cse_preprocess_postprocess.cse_preprocess", "nrpy.helpers.cse_preprocess_postprocess.cse_postprocess", "nrpy.helpers.expr_tree.ExprTree")
    rng = random.Random(f"{gid}{SEED}")
    for li, exprs in enumerate(lists):
        exprs = [sp.sympify(e) for e in exprs]
        key0 = f"cse:{gid}:{[str(e)[:60] for e in exprs]}"[:200]
        inputs = set().union(*[e.free_symbols for e in exprs])
        memo0 = {}
        want = [to_dag(e, {}, memo0) for e in exprs]
        flagsets = FLAGS if li % 4 == 0 or not QUICK else rng.sample(FLAGS, 3)
        for fl in flagsets:
            key = key0 + ":" + "".join(str(int(bool(v))) for v in fl.values())
            new, sdict = nrpy_call(key, cse_preprocess, list(exprs), **fl)
            # the dictionary maps fresh symbols to numbers
            for s, v in sdict.items():
                if s in inputs or not (isinstance(v, sp.Rational) or v == -1):
                    report(key + ":dict", f"cse_preprocess returned the pair {s} -> {v}", {"exprs": [str(e) for e in exprs]})
            defs = {s: C(v) for s, v in sdict.items()}
            pr = dag.Prover()
            memo = {}
            und = [s for e in new for s in e.free_symbols if s not in inputs and s not in sdict]
            if und:
                report(key + ":undeclared", f"cse_preprocess({[str(e) for e in exprs]}, {fl}) introduces {und[0]} without declaring its value", {})
                continue
            if len(new) != len(exprs):
                report(key + ":len", "cse_preprocess dropped expressions", {})
                continue
            for i, e in enumerate(new):
                decide(pr, f"{key}:{i}", f"cse_preprocess({exprs[i]}, {fl}) changes the value", want[i], to_dag(e, defs, memo), lambda e=e, i=i: replay(exprs[i], e, sdict, rng))
            # CSE + postprocess, as c_codegen drives it
            for src, sd in ((new, sdict), (exprs, {})):
                cse = sp.cse(list(src), sp.numbered_symbols("tmp"), order=rng.choice(["canonical", "none"]))
                reps, red = nrpy_call(key + ":post", cse_postprocess, (list(cse[0]), list(cse[1])))
                defs = {s: C(v) for s, v in sd.items()}
                pdefs = {}
                memo = {}
                ok = len(red) == len(src)
                seen = set()
                for s, e in reps:
                    if s in seen:
                        report(key + ":dup", f"cse_postprocess defines {s} twice", {"exprs": [str(x) for x in exprs]})
                    for t in e.free_symbols:
                        if t not in inputs and t not in defs and t not in seen:
                            ok = False
                            report(key + ":order", f"cse_postprocess output uses {t} before (or without) its definition; expressions {[str(x) for x in exprs]}", {"replaced": str(reps), "reduced": str(red)})
                    seen.add(s)
                    if ok:
                        defs[s] = to_dag(e, dict(defs), {})
                for e in red:
                    for t in e.free_symbols:
                        if t not in inputs and t not in defs:
                            ok = False
                            report(key + ":undef", f"cse_postprocess output uses undefined {t}; expressions {[str(x) for x in exprs]}", {"replaced": str(reps), "reduced": str(red)})
                if not ok:
                    continue
                memo = {}
                full = dict(reps)

                def back(e):
                    for s, v in reversed(reps):
                        e = e.xreplace({s: v})
                    return e

                for i, e in enumerate(red):
                    decide(pr, f"{key}:post:{i}", f"cse_postprocess changes the value of {exprs[i]}", want[i], to_dag(e, defs, memo), lambda e=e, i=i: replay(exprs[i], back(e), sd, rng))
                # SCMM form: equalities among the reduced list
                if len(src) > 1 and not pdefs:
                    pass
    sample({"group": gid, "lists": len(lists), "first": [str(e) for e in lists[0]]})


def eqcase(_):
    """Equalities among the reduced expressions become replacements, in dependency order."""
    from nrpy.helpers.cse_preprocess_postprocess import cse_postprocess

    encoded("nrpy.helpers.cse_preprocess_postprocess.cse_postprocess")
    t = sp.symbols("t0:6")
    x, y, z = corpus.x, corpus.y, corpus.z
    P = [
        ([(t[1], t[0] + t[2])], [sp.Eq(t[0], x**2 + y, evaluate=False), sp.Eq(t[2], sp.sin(z) * t[0], evaluate=False), t[1] ** 3 + t[0]]),
        ([(t[0], x * y), (t[1], t[3] * t[0])], [sp.Eq(t[3], x - z, evaluate=False), t[1] + t[3] + t[0] ** 2, t[1] ** 2]),
        ([(t[2], t[1] + x), (t[1], t[0] * y * z), (t[0], x**3 + 1)], [t[2] ** 2 + t[2] * t[1] + t[0]]),
        ([(t[0], sp.Integer(3)), (t[1], t[0] * x), (t[2], t[0] + 2)], [t[1] + t[2] * y, t[2]]),
        ([(t[0], -x), (t[1], -t[0]), (t[2], -t[1])], [t[2] * y + t[0] * z + t[1], t[2] ** 3]),
        ([(t[0], x**2), (t[1], t[0] ** 2), (t[2], t[1] + t[0])], [t[2] * t[1] + t[0], t[2] * 5]),
        ([(t[0], x + y), (t[1], x * y)], [t[0] * t[1], t[0] - t[1]]),
        ([(t[0], x + y), (t[1], x * y)], [t[0] * t[1] + t[0] ** 2 + t[0] ** 3, t[0] - t[1]]),
    ]
    for k, (reps, red) in enumerate(P):
        exp_red = [e for e in red if not isinstance(e, sp.Equality)]
        d = dict(reps) | {e.lhs: e.rhs for e in red if isinstance(e, sp.Equality)}

        def full(e):
            while any(s in d for s in e.free_symbols):
                e = e.xreplace(d)
            return e

        r2, e2 = nrpy_call(f"eq{k}", cse_postprocess, (list(reps), list(red)))
        pr = dag.Prover()
        defs = {}
        bad = False
        for s, e in r2:
            for q in e.free_symbols:
                if q in t and q not in defs:
                    bad = True
                    report(f"eq{k}:order", f"cse_postprocess({reps}, {red}) uses {q} before its definition", {"out": str((r2, e2))})
            defs[s] = to_dag(e, dict(defs), {})
        for e in e2:
            for q in e.free_symbols:
                if q in t and q not in defs:
                    bad = True
                    report(f"eq{k}:undef", f"cse_postprocess({reps}, {red}) uses undefined {q}", {"out": str((r2, e2))})
        if bad:
            continue
        if len(e2) != len(exp_red):
            report(f"eq{k}:len", f"cse_postprocess({reps}, {red}) returns {len(e2)} expressions", {})
            continue
        for i, e in enumerate(e2):

            def back(e=e):
                for s, v in reversed(r2):
                    e = e.xreplace({s: v})
                return e

            decide(pr, f"eq{k}:{i}", f"cse_postprocess({reps}, {red}) changes output {i}", to_dag(full(exp_red[i]), {}, {}), to_dag(e, defs, {}), lambda e=e, i=i: replay(full(exp_red[i]), back(e), {}, random.Random(1)))


def main():
    ck = Check(
        "P06",
        "translation_validation",
        assumptions=["real-number semantics (no rounding)", "sympy's cse() is exercised as the producer of the post-processor's input"],
        bounds="every operator/exponent/sign pattern of the feature list and seeded random expression lists (up to 5 expressions, 120 operations each), all flag combinations",
        explanation="the real pre-/post-processors run on each expression list; the returned expressions, with symbols replaced by the returned definitions, are proved equal to the originals by z3 for every value of the free symbols",
    )
    n = 60 if QUICK else 600
    exprs = corpus.scalar_feature_list() + corpus.sum_patterns(SEED, 2 * n) + corpus.all_sign_patterns()[:: 3 if QUICK else 1]
    exprs += corpus.random_trees(SEED, n, [sp.sin, sp.cos, sp.exp, sp.sqrt], [sp.Rational(1, 2), sp.Rational(-3, 2), sp.Rational(1, 3)])
    lists = corpus.groups(exprs, SEED)
    k = 24
    cases = [(f"group{i}", case, (f"g{i}", lists[i::k])) for i in range(k)] + [("equalities", eqcase, None)]
    ck.run(cases)
    ck.finish()


if __name__ == "__main__":
    main()
