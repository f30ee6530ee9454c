"""Rooted trees and Runge-Kutta order conditions."""
from functools import lru_cache


def trees(p):
    """{order: [tree]} with tree = sorted tuple of subtrees."""
    out = {1: [()]}
    for q in range(2, p + 1):
        out[q] = sorted(set(_forests(q - 1, out)))
    return out


def _forests(n, by):
    """All multisets of trees with total order n, as sorted tuples."""
    alltrees = [(o, t) for o in range(1, n + 1) for t in by.get(o, [])]

    def go(rest, start):
        if rest == 0:
            yield ()
            return
        for i in range(start, len(alltrees)):
            o, t = alltrees[i]
            if o <= rest:
                for f in go(rest - o, i):
                    yield (t,) + f

    return [tuple(sorted(f)) for f in go(n, 0)]


@lru_cache(None)
def order(t):
    return 1 + sum(order(x) for x in t)


@lru_cache(None)
def gamma(t):
    r = order(t)
    for x in t:
        r *= gamma(x)
    return r


def weight(t, A, b, one):
    s = len(b)

    def stage(t):
        """vector over stages: product over children of (A . stage(child))"""
        v = [one] * s
        for x in t:
            cv = stage(x)
            av = []
            for i in range(s):
                acc = None
                for j in range(i):
                    term = A[i][j] * cv[j]
                    acc = term if acc is None else acc + term
                av.append(acc if acc is not None else one * 0)
            v = [p * q for p, q in zip(v, av)]
        return v

    v = stage(t)
    r = b[0] * v[0]
    for i in range(1, s):
        r = r + b[i] * v[i]
    return r


def show(t):
    return "[" + "".join(show(x) for x in t) + "]"
