"""P04: multipole binning partitions the requested range; common-multipole selection is set intersection."""
import itertools

import numpy as np

from seyfert.fisher.fisher_evaluator import mask_cl_blocks_to_common_ells
from seyfert.fisher import fisher_utils as fu
from seyfert.utils import array_utils as au
from seyfert.utils.shortcuts import SmartKeyDict, ClSmartKeyDict, ClKey
from vlib import probes as P

PROPERTY = "P04"
LEVEL = "exploration"
RULE = ("random multipole ranges, spacings and bin numbers; random families of partially overlapping multipole "
        "arrays with tagged blocks whose values encode (observable, multipole); non-trivial = at least two bins / "
        "two arrays that differ")
ASSUMPTIONS = ["multipole limits are positive"]
NEEDS = {"oracle.grids": 300, "oracle.selection": 200, "oracle.block_matrix": 50}


def grids(ctx):
    for _ in range(ctx.n(400, 4000)):
        l_min = float(np.round(ctx.rng.uniform(1, 300), int(ctx.rng.integers(0, 3))))
        l_max = float(l_min + np.round(ctx.rng.uniform(1.5, 4000), int(ctx.rng.integers(0, 3))))
        n = int(ctx.rng.integers(1, 120))
        ctx.case((l_min, l_max, n), sample=(l_min, l_max, n), nontrivial=n > 1)
        for sp in ("log", "logarithmic", "Logarithmic"):
            c, w = au.compute_multipoles_arrays(l_min, l_max, sp, n_ell=n if sp != "log" else float(n))
            if not ctx.same((len(c), len(w)), (n, n), "log-size"):
                continue
            lo, hi = c - w / 2, c + w / 2
            ctx.close([lo[0], hi[-1]], [l_min, l_max], "log-covers-range", rtol=1e-9)
            ctx.close(lo[1:], hi[:-1], "log-bins-adjacent", rtol=1e-9)
            ctx.close(hi / lo, np.full(n, (l_max / l_min) ** (1 / n)), "log-constant-ratio", rtol=1e-9)
            ctx.close(w.sum(), l_max - l_min, "log-total-width", rtol=1e-9)
            if n > 1:
                ctx.close(au.compute_ell_bin_widths_from_log_centers(c), w, "width-from-centres", rtol=1e-7)
        for sp in ("lin", "linear", "Linear"):
            li, la = float(int(l_min)), float(int(l_max))
            if la <= li:
                la = li + 1
            c, w = au.compute_multipoles_arrays(li, la, sp)
            k = int(la - li)
            ctx.close(c, li + 0.5 + np.arange(k), "linear-centres", rtol=1e-12)
            ctx.close(w, np.ones(k), "linear-widths", rtol=1e-12)
        for a, b in ((l_max, l_min), (l_min, l_min)):
            for sp in ("lin", "log"):
                ctx.raises(lambda: au.compute_multipoles_arrays(a, b, sp, n_ell=n), "empty-range-accepted", rng=(a, b))
        ctx.raises(lambda: au.compute_multipoles_arrays(l_min, l_max, "log"), "log-without-number")
        ctx.raises(lambda: au.compute_multipoles_arrays(l_min, l_max, "log", n_ell="10"), "log-with-text-number")
    for sp in ("LOG", "", None, "geometric", "logspace", "LIN"):
        ctx.raises(lambda: au.compute_multipoles_arrays(10, 100, sp, n_ell=4), "unknown-spacing-accepted", spacing=sp)


def _families(ctx):
    """realistic multipole domains: subsets / truncations of one master grid, sometimes disjoint or identical"""
    n = int(ctx.rng.integers(1, 14))
    master = np.sort(np.round(10 ** ctx.rng.uniform(1, 3.5, size=n), 3))
    master = np.unique(master)
    k = int(ctx.rng.integers(1, 6))
    fam = []
    for _ in range(k):
        mode = int(ctx.rng.integers(4))
        if mode == 0:
            sub = master.copy()
        elif mode == 1:
            sub = master[:int(ctx.rng.integers(1, len(master) + 1))]
        elif mode == 2:
            sub = master[int(ctx.rng.integers(0, len(master))):]
        else:
            sub = master[np.sort(ctx.rng.permutation(len(master))[:int(ctx.rng.integers(1, len(master) + 1))])]
        fam.append(sub)
    return fam


def selection(ctx):
    for _ in range(ctx.n(300, 3000)):
        fam = _families(ctx)
        want = sorted(set.intersection(*[set(f.tolist()) for f in fam]))
        uni = sorted(set.union(*[set(f.tolist()) for f in fam]))
        ctx.case(tuple(tuple(f) for f in fam), sample=[len(f) for f in fam], nontrivial=len(fam) > 1 and len(want) != len(uni))
        ctx.same(au.compute_arrays_intersection1d(fam), np.array(want), "intersection")
        perm = [fam[i] for i in ctx.rng.permutation(len(fam))]
        ctx.same(au.compute_arrays_intersection1d(perm), np.array(want), "intersection-order")
        if len(fam) > 1:
            ctx.same(au.compute_arrays_union1d(fam), np.array(uni), "union")
        # blocks tagged with (id, multipole): the kept rows must carry exactly the common multipoles
        keys = [("a", str(i)) for i in range(len(fam))]
        ld, cdct = {}, {}
        for t, (key, f) in enumerate(zip(keys, fam)):
            blk = np.zeros((len(f), 2, 3))
            blk[:] = f[:, None, None] + 1e6 * (t + 1) + np.arange(6).reshape(2, 3) * 0.125
            ld[key], cdct[key] = f, blk
        orig = {k: v.copy() for k, v in cdct.items()}
        ells, masked = mask_cl_blocks_to_common_ells(ld, cdct)
        ctx.same(np.asarray(ells), np.array(want), "common-multipoles")
        ctx.same(set(masked), set(cdct), "masked-keys")
        for t, key in enumerate(keys):
            ref = np.array(want)[:, None, None] + 1e6 * (t + 1) + np.arange(6).reshape(2, 3) * 0.125 if want else np.zeros((0, 2, 3))
            ctx.same(masked[key], ref, "masked-rows", lens=[len(f) for f in fam], t=t)
            ctx.same(cdct[key], orig[key], "source-blocks-mutated")
        x = ctx.rng.normal(size=(len(fam[0]), 4, 4))
        y = au.symmetrize_clij_arr(x)
        ctx.close(y, (x + x.transpose(0, 2, 1)) / 2, "symmetrise", rtol=1e-13)
        ctx.same(y, y.transpose(0, 2, 1), "symmetrised-is-symmetric")
    # smart dictionaries as used by the evaluation
    for _ in range(ctx.n(60, 400)):
        fam = _families(ctx)
        pairs = [(i, j) for i in range(3) for j in range(i, 3)][:len(fam)]
        ld = SmartKeyDict({P.spell(*p, "long"): f for p, f in zip(pairs, fam)})
        cdct = ClSmartKeyDict({P.spell(*p, "long"): f[:, None, None] * np.ones((1, 2, 2)) for p, f in zip(pairs, fam)})
        ells, masked = mask_cl_blocks_to_common_ells(ld, cdct)
        want = np.array(sorted(set.intersection(*[set(f.tolist()) for f in fam])))
        ctx.case(("smart", tuple(map(tuple, fam))))
        ctx.same(np.asarray(ells), want, "smart-common")
        for p in pairs:
            ctx.same(masked[ClKey(P.spell(*p, "short"))][:, 0, 0], want, "smart-rows")


def block_matrix(ctx):
    """block matrix of all probe combinations on the common multipoles: block (p,q) is the (p,q) spectrum"""
    for _ in range(ctx.n(60, 500)):
        npb = int(ctx.rng.integers(1, 4))
        pr = [int(i) for i in ctx.rng.permutation(4)[:npb]]
        names = [P.LONG[i] for i in pr]
        nb = {i: int(ctx.rng.integers(1, 4)) for i in pr}
        master = np.unique(np.round(10 ** ctx.rng.uniform(1, 3.3, size=7), 2))
        md, ld, ref = {}, {}, {}
        for a, b in itertools.combinations_with_replacement(pr, 2):
            i, j = (a, b) if ctx.rng.random() < .5 else (b, a)
            cut = int(ctx.rng.integers(2, len(master) + 1))
            ells = master[:cut]
            x = ctx.rng.normal(size=(cut, nb[i], nb[j]))
            if i == j:
                x = (x + x.transpose(0, 2, 1)) / 2
            md[P.spell(i, j, "long")], ld[P.spell(i, j, "long")] = x, ells
            ref[(i, j)] = x
        common = min((v for v in ld.values()), key=len)
        ells, M = fu.buildXCBlockMatrixForProbes(names, md, ld)
        ctx.case((tuple(pr), len(common)), nontrivial=npb > 1)
        ctx.same(np.asarray(ells), common, "xc-multipoles")
        rows = []
        for a in pr:
            rows.append([(ref[(a, b)] if (a, b) in ref else ref[(b, a)].transpose(0, 2, 1))[:len(common)] for b in pr])
        ctx.same(M, np.block(rows), "xc-blocks", probes=names)
        ctx.check(np.array_equal(M, M.transpose(0, 2, 1)), "xc-symmetric", probes=names)
        # other probes present in the input do not matter
        md2, ld2 = dict(md), dict(ld)
        other = [i for i in range(4) if i not in pr][0]
        md2[P.spell(other, pr[0], "long")] = ctx.rng.normal(size=(2, 2, nb[pr[0]]))
        ld2[P.spell(other, pr[0], "long")] = master[-2:]
        e2, M2 = fu.buildXCBlockMatrixForProbes(names, md2, ld2)
        ctx.check(np.array_equal(M2, M) and np.array_equal(e2, ells), "xc-unrelated-probe", probes=names)
        miss = sorted(md)[int(ctx.rng.integers(len(md)))]
        md3 = {k: v for k, v in md.items() if k != miss}
        ctx.raises(lambda: fu.buildXCBlockMatrixForProbes(names, md3, ld), "xc-missing-spectrum-accepted", missing=miss)


SECTIONS = [grids, selection, block_matrix]
