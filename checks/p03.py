"""P03: the matrix/vector reshaping algebra used by the covariance and the Fisher evaluation."""
import numpy as np

from seyfert.fisher import fisher_utils as fu
from seyfert.fisher import linalg_tools as lt

PROPERTY = "P03"
LEVEL = "exploration"
RULE = ("every size 1..N and every rectangular shape up to MxM with random real matrices; linear identities are "
        "decided both on random data and on the full unit basis; non-trivial = size of at least 2")
ASSUMPTIONS = []
NEEDS = {"oracle.square": 500, "oracle.rectangular": 200, "oracle.stacks": 40}


def _colmajor(a):
    return np.array([a[i, j] for j in range(a.shape[1]) for i in range(a.shape[0])])


def _half(a):
    n = a.shape[0]
    return np.array([a[i, j] for j in range(n) for i in range(j + 1)])


def square(ctx):
    top = ctx.n(24, 60)
    for n in range(1, top + 1):
        for rep in range(ctx.n(3, 6)):
            a = ctx.rng.normal(size=(n, n)) * 10.0 ** ctx.rng.integers(-6, 7)
            s = (a + a.T) / 2
            keep = s.copy()
            ctx.case((n, rep), sample=n, nontrivial=n > 1)
            ctx.same(lt.vec(a), _colmajor(a), "vec", n=n)
            ctx.same(lt.unvec(lt.vec(a)), a, "unvec", n=n)
            ctx.same(lt.vecp(s), _half(s), "vecp", n=n)
            ctx.same(lt.unvecp(lt.vecp(s)), s, "unvecp", n=n)
            v = ctx.rng.normal(size=n * (n + 1) // 2)
            u = lt.unvecp(v)
            ctx.check(np.array_equal(u, u.T), "unvecp-symmetric", n=n)
            ctx.same(lt.vecp(u), v, "vecp-unvecp", n=n)
            ctx.same(s, keep, "input-mutated")
            if n <= ctx.n(14, 24):
                D, L = lt.duplication_matrix(n), lt.elimination_matrix(n)
                m = n * (n + 1) // 2
                ctx.same((D.shape, L.shape), ((n * n, m), (m, n * n)), "shapes", n=n)
                ctx.close(D @ lt.vecp(s), lt.vec(s), "duplication", rtol=1e-12, n=n)
                ctx.close(L @ lt.vec(s), lt.vecp(s), "elimination", rtol=1e-12, n=n)
                ctx.close(L @ lt.vec(a), _half(a), "elimination-general", rtol=1e-12, n=n)
                ctx.same(L @ D, np.eye(m), "eliminate-duplicate", n=n)
                B = lt.transition_matrix(n)
                ctx.close(B.T @ lt.vec(s), lt.vecp(s), "transition", rtol=1e-8, atol=1e-10 * np.abs(s).max(), n=n)
                ctx.close(D @ B.T, D @ np.linalg.inv(D.T @ D) @ D.T, "transition-projector", rtol=1e-8, atol=1e-9, n=n)
        e = lt.get_enumeration_map((n, n), True)
        f = lt.get_enumeration_map((n, n), False)
        ctx.check(len(e) == n * (n + 1) // 2 and sorted(e.values()) == list(range(len(e))), "enumeration-bijective", n=n)
        ctx.check(len(f) == n * n and sorted(f.values()) == list(range(n * n)), "enumeration-full-bijective", n=n)
        s = np.arange(n * n, dtype=float).reshape(n, n)
        s = s + s.T
        w = lt.vecp(s)
        ctx.check(all(i <= j and w[idx] == s[i, j] for (i, j), idx in e.items()), "enumeration-matches-half-vectorisation", n=n)
        w = lt.vec(s)
        ctx.check(all(w[idx] == s[i, j] for (i, j), idx in f.items()), "enumeration-matches-vectorisation", n=n)
        for fn, cond in ((lt.triu_idxs_by_col, lambda i, j: i <= j), (lt.tril_idxs_by_col, lambda i, j: i >= j),
                         (lt.diag_idxs, lambda i, j: i == j)):
            i, j = fn(n)
            want = [(a, b) for b in range(n) for a in range(n) if cond(a, b)]
            ctx.same([(int(x), int(y)) for x, y in zip(i, j)], want, "index-order-" + fn.__name__, n=n)


def rectangular(ctx):
    top = ctx.n(9, 16)
    for p in range(1, top + 1):
        for q in range(1, top + 1):
            a = ctx.rng.normal(size=(p, q))
            ctx.case((p, q), nontrivial=p > 1 and q > 1)
            ctx.same(lt.vec(a), _colmajor(a), "vec", shape=(p, q))
            e = lt.get_enumeration_map((p, q), False)
            w = lt.vec(a)
            ctx.check(len(e) == p * q and all(w[idx] == a[i, j] for (i, j), idx in e.items()), "enumeration", shape=(p, q))
            K = lt.commutation_matrix(p, q)
            ctx.same(K @ lt.vec(a), lt.vec(a.T), "commutation", shape=(p, q))
            ctx.same(lt.commutation_matrix(q, p) @ K, np.eye(p * q), "commutation-inverse", shape=(p, q))
            if p != q:
                ctx.raises(lambda: lt.vecp(a), "half-vectorised-rectangle", shape=(p, q))
                ctx.raises(lambda: lt.get_enumeration_map((p, q), True), "symmetric-enumeration-of-rectangle", shape=(p, q))


def stacks(ctx):
    """multipole stacks are reshaped multipole by multipole, in the covariance's row order"""
    for _ in range(ctx.n(60, 500)):
        nl, p, q = (int(x) for x in ctx.rng.integers(1, 8, size=3))
        x = ctx.rng.normal(size=(nl, p, q))
        s = ctx.rng.normal(size=(nl, p, p))
        s = s + s.transpose(0, 2, 1)
        ctx.case((nl, p, q))
        ctx.same(fu.vecClArray(x), np.array([_colmajor(b) for b in x]), "stack-vec")
        ctx.same(fu.vecpClArray(s), np.array([_half(b) for b in s]), "stack-vecp")


SECTIONS = [square, rectangular, stacks]
