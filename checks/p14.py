"""P14: covariance matrix of a data vector."""
import itertools

import numpy as np

from seyfert.fisher.datavector import ClDataVector
from seyfert.fisher.fisher_evaluator import ClCovarianceMatrix
from vlib import probes as pr
from vlib.fisherlab import Lab

PROPERTY = "P14"
LEVEL = "exploration"
RULE = ("random joint positive definite noisy spectra of one to four probes, stored in either order of each pair, and random data vectors "
        "(any entries, any order, either order of a pair, any notation); every covariance element is compared with the four-field definition; "
        "distinct = (data vector, bins, multipoles)")
ASSUMPTIONS = ["the noisy spectra are jointly positive definite, as those of a real survey"]
NEEDS = {"oracle.covariance": 300, "oracle.sampled": 3, "reversed_entries": 15, "masked": 5, "four_fields": 1}


def _entries(ctx, idx, n=None):
    pairs = list(itertools.combinations_with_replacement(idx, 2))
    n = n or int(ctx.rng.integers(1, len(pairs) + 1))
    sel = [pairs[q] for q in ctx.rng.permutation(len(pairs))[:n]]
    return [e if ctx.rng.random() < .5 else e[::-1] for e in sel]


def _grids(ctx, idx, partial):
    base = np.sort(ctx.rng.choice(np.arange(10, 2000), size=6, replace=False)) + float(ctx.rng.choice([0, .5, .25]))
    if not partial:
        return {i: base for i in idx}
    core = base[2:4]
    return {i: np.array([l for l in base if l in core or ctx.rng.random() < .6]) for i in idx}


def _built(lab, entries, kinds):
    dv = ClDataVector([pr.spell(a, b, k) for (a, b), k in zip(entries, kinds)])
    cov = ClCovarianceMatrix(dv)
    cov.evaluateAllBlocks(lab.delta_cls())
    cov.maskCovBlocksToCommonElls()
    cov.buildMatrix()
    cov.evaluateInverse()
    return cov


def covariance(ctx):
    for it in range(ctx.n(80, 300)):
        idx = [int(x) for x in ctx.rng.permutation(4)[:int(ctx.rng.integers(1, 5))]]
        partial = it % 2 == 1
        lab = Lab(ctx, idx, grids=_grids(ctx, idx, partial))
        entries = _entries(ctx, idx, n=None if it % 5 else 1)
        kinds = [pr.KINDS[int(ctx.rng.integers(3))]] * len(entries) if it % 3 else [pr.KINDS[int(ctx.rng.integers(3))] for _ in entries]
        ctx.saw("reversed_entries", sum(e not in lab.stored for e in entries))
        ctx.saw("four_fields", int(any({*x}.isdisjoint(y) and len({*x, *y}) == 4 for x in entries for y in entries)))
        cov = _built(lab, entries, kinds)
        common = lab.common(entries)
        ctx.saw("masked", int(any(len(lab.grids[i]) > len(common) for e in entries for i in e)))
        ctx.case((tuple(entries), tuple(lab.nb.items()), len(common)), sample=dict(entries=[pr.spell(a, b, "short") for a, b in entries], bins=lab.nb))
        ctx.same(cov.common_ells, np.array(common), "multipoles")
        want = np.array([lab.cov(entries, l) for l in common])
        ctx.same(cov.matrix.shape, want.shape, "shape")
        sd = np.sqrt(np.diagonal(want, axis1=1, axis2=2))
        unit = sd[:, :, None] * sd[:, None, :]
        ctx.close(cov.matrix / unit, want / unit, "four-field-covariance", rtol=1e-10, atol=1e-12)
        ctx.close(cov.matrix / unit, np.swapaxes(cov.matrix, 1, 2) / unit, "symmetric", rtol=1e-12, atol=1e-14)
        for q in range(len(common)):
            ctx.check(np.linalg.eigvalsh(cov.matrix[q] / unit[q])[0] > 0, "positive-definite", entries=entries)
            ctx.close((cov.inverse[q] * unit[q]) @ (cov.matrix[q] / unit[q]), np.eye(want.shape[1]), "inverse", atol=1e-5)
        # noisy spectra are not modified
        d = lab.delta_cls()
        keep = {k: v.copy() for k, v in d.delta_c_lij_array_dict.items()}
        c2 = ClCovarianceMatrix(cov.data_vector)
        c2.evaluateAllBlocks(d)
        c2.maskCovBlocksToCommonElls()
        ctx.check(all(np.array_equal(keep[k], d.single_blocks[k].delta_c_lij) for k in keep), "spectra-mutated")
        # the same data vector written in another order is the same covariance, reordered
        perm = list(ctx.rng.permutation(len(entries)))
        other = _built(lab, [entries[k] for k in perm], [kinds[k] for k in perm])
        sizes = [len(lab.elements(e)) for e in entries]
        starts = np.cumsum([0] + sizes)
        order = np.concatenate([np.arange(starts[k], starts[k + 1]) for k in perm])
        unit = unit[:, order][:, :, order]
        ctx.close(other.matrix / unit, cov.matrix[:, order][:, :, order] / unit, "reordered", rtol=1e-12, atol=1e-14)
    lab = Lab(ctx, [0, 1])
    d = lab.delta_cls()
    del d.single_blocks[list(d.single_blocks)[1]]
    ctx.raises(lambda: _missing(d), "missing-spectrum-accepted", exc=KeyError)


def _missing(d):
    c = ClCovarianceMatrix(ClDataVector(["phph", "spsp", "phsp"]))
    c.evaluateAllBlocks(d)


def sampled(ctx):
    """the covariance is the scatter of spectra estimated from simulated Gaussian skies"""
    for it in range(ctx.n(2, 10)):
        idx = [int(x) for x in ctx.rng.permutation(4)[:2 + it % 2]]
        ell = float(ctx.rng.integers(10, 30))
        lab = Lab(ctx, idx, grids={i: np.array([ell]) for i in idx}, nb={i: 1 + (k == 0) for k, i in enumerate(idx)})
        entries = _entries(ctx, idx)
        cov = _built(lab, entries, ["long"] * len(entries))
        D = lab.joint[ell]
        n_sim, n_m = 20000, int(2 * ell + 1)
        L = np.linalg.cholesky(D)
        W = np.zeros((n_sim, len(D), len(D)))
        for m in range(n_m):
            a = ctx.rng.normal(size=(n_sim, len(D))) @ L.T
            W += a[:, :, None] * a[:, None, :]
        W /= n_m
        els = [(lab.off[a] + i, lab.off[b] + j) for a, b in entries for i, j in lab.elements((a, b))]
        x = np.array([W[:, p, q] for p, q in els])
        emp = np.atleast_2d(np.cov(x))
        s = np.sqrt(np.diag(cov.matrix[0]))
        ctx.case((it, tuple(entries), ctx.round), sample=dict(simulated_skies=n_sim, observables=len(els)))
        ctx.close(emp / np.outer(s, s), cov.matrix[0] / np.outer(s, s), "scatter-of-simulations", atol=.08)
        ctx.close(np.diag(emp) / s ** 2, np.ones(len(s)), "variance-of-simulations", atol=.08)
        ctx.close(x.mean(1), np.array([D[p, q] for p, q in els]), "unbiased-simulations", atol=6 * s.max() / np.sqrt(n_sim))


SECTIONS = [covariance, sampled]
