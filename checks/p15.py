"""P15: Fisher matrix of a data vector."""
import itertools

import numpy as np

from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection
from seyfert.fisher.datavector import ClDataVector
from seyfert.fisher.fisher_evaluator import FisherEvaluator
from seyfert.main import fisher_core
from vlib import probes as pr
from vlib.fisherlab import Lab
from vlib.hdfstub import pickled_hdf

PROPERTY = "P15"
LEVEL = "exploration"
RULE = ("random joint noisy spectra and parameter derivatives of one to four probes on common or per-probe multipoles, stored in either order "
        "of each pair; random data vectors in any entry order and notation; Fisher matrices compared with the information computed by "
        "definition and with the trace form of the joint spectra; distinct = (data vector, bins, multipoles, parameters)")
ASSUMPTIONS = ["derivatives with respect to a probe's own nuisance parameters vanish in spectra not involving it"]
NEEDS = {"oracle.definition": 300, "oracle.trace_form": 54, "oracle.files": 30, "exclusive": 1, "inconsistent": 20, "single_multipole": 1}


def _lab(ctx, idx, partial=False, n_ell=4):
    base = np.sort(ctx.rng.choice(np.arange(10, 2000), size=n_ell, replace=False)) + float(ctx.rng.choice([0, .5]))
    grids = {i: base for i in idx}
    if partial:
        core = base[:2]
        grids = {i: np.array([l for l in base if l in core or ctx.rng.random() < .5]) for i in idx}
        if ctx.rng.random() < .3:
            grids = {i: np.array([base[0]] + [l for l in base[1:] if ctx.rng.random() < .5]) for i in idx}
    lab = Lab(ctx, idx, grids=grids, nb={i: int(ctx.rng.integers(1, 4 if len(idx) < 4 else 3)) for i in idx}, n_par=0)
    lab.grids = grids
    pars, lab.djoint = {}, {}
    names = [f"c{k}" for k in range(int(ctx.rng.integers(1, 4)))]
    spec = [(n, None) for n in names] + [(f"n{i}{k}", i) for i in range(4) for k in range(2)]
    frozen = []
    for q in ctx.rng.permutation(len(spec)):
        n, i = spec[q]
        free = ctx.rng.random() < .75 or n == "c0"
        pars[n] = PhysicalParameter(name=n, fiducial=1.0, kind="CosmologicalParameter" if i is None else "NuisanceParameter",
                                    probe=None if i is None else pr.LONG[i], is_free_parameter=bool(free))
        if not free:
            frozen.append(n)
        elif i is None or i in idx:
            lab.djoint[n] = {}
            for l in lab.joint:
                a = ctx.rng.normal(size=lab.joint[l].shape)
                a = (a + a.T) * lab.sizes
                if i is not None:
                    keep = np.zeros(len(a), bool)
                    keep[lab.off[i]:lab.off[i] + lab.nb[i]] = True
                    a[np.ix_(~keep, ~keep)] = 0
                lab.djoint[n][l] = a
    lab.pars = list(lab.djoint)
    coll = PhysicalParametersCollection(base_stem_disps=np.array([.01, .02]), is_universe_flat=True)
    for n, p in pars.items():
        coll[n] = p
    return lab, coll


def _pars_of(lab, entries):
    inv = {i for e in entries for i in e}
    return [p for p in lab.pars if p[0] == "c" or int(p[1]) in inv]


def _autos(lab, coll, deltas, ders, probes):
    out = {}
    for i in probes:
        ev = FisherEvaluator([pr.spell(i, i, "alias")])
        _, fl = ev.computeFisherMatrix(phys_pars=coll, dcoll_dvar_dict=ders, delta_cls=deltas, return_f_ell=True)
        out[pr.ALIAS[i]] = fl
    return out


def _random_vector(ctx, idx):
    pairs = list(itertools.combinations_with_replacement(idx, 2))
    sel = [pairs[q] for q in ctx.rng.permutation(len(pairs))[:int(ctx.rng.integers(1, len(pairs) + 1))]]
    return [e if ctx.rng.random() < .5 else e[::-1] for e in sel]


def definition(ctx):
    for it in range(ctx.n(40, 260)):
        idx = [int(x) for x in ctx.rng.permutation(4)[:int(ctx.rng.integers(1, 4)) + (it % 8 == 0)]]
        lab, coll = _lab(ctx, idx, partial=it % 2 == 1, n_ell=1 if it % 10 == 4 else 4)
        entries = _random_vector(ctx, idx)
        pars = _pars_of(lab, entries)
        common = lab.common(entries)
        ctx.saw("single_multipole", int(len(common) == 1))
        deltas, ders = lab.delta_cls(), lab.derivatives()
        kind = pr.KINDS[it % 3]
        single = len(entries) == 1 and entries[0][0] == entries[0][1]
        autos = _autos(lab, coll, deltas, ders, lab.idx)
        ev = FisherEvaluator([pr.spell(a, b, kind) for a, b in entries])
        kw = dict(phys_pars=coll, dcoll_dvar_dict=ders, delta_cls=deltas, auto_f_ells=autos)
        if not single:
            ctx.raises(lambda: ev.computeFisherMatrix(**dict(kw, auto_f_ells=None)), "joint-without-autos", exc=ValueError)
        F, fl = ev.computeFisherMatrix(return_f_ell=True, **kw)
        ctx.case((tuple(entries), tuple(lab.nb.items()), len(common), tuple(pars)),
                 sample=dict(entries=[pr.spell(a, b, "short") for a, b in entries], bins=lab.nb, parameters=pars, multipoles=len(common)))
        ctx.same((set(F.index), set(F.columns)), (set(pars), set(pars)), "free-parameters")
        lab.pars, keep = pars, lab.pars
        want = lab.fisher(entries)
        excl = any(len(lab.grids[a]) > len(common) for a, b in entries if a == b) and not single
        ctx.saw("exclusive", int(excl))
        got = F.loc[pars, pars].to_numpy(float)
        scale = np.sqrt(np.outer(np.diag(want), np.diag(want)))
        ctx.close(got / scale, want / scale, "information", atol=1e-7, entries=entries, exclusive=excl)
        ctx.close(got, got.T, "symmetric", rtol=1e-12, atol=1e-12 * np.abs(got).max())
        ctx.check(np.linalg.eigvalsh(got / scale)[0] > -1e-9, "positive-semidefinite")
        ctx.same(np.asarray(fl.index), np.array(common), "per-multipole-index")
        for l in common:
            w = lab.fisher_at(entries, l)
            g = np.array([[fl.loc[l, (a, b)] for b in pars] for a in pars])
            ctx.close(g / scale, w / scale, "information-per-multipole", atol=1e-7)
        # entry order, order of a pair and notation do not matter
        perm = [entries[q] for q in ctx.rng.permutation(len(entries))]
        perm = [e if ctx.rng.random() < .5 else e[::-1] for e in perm]
        G = FisherEvaluator(ClDataVector([pr.spell(a, b, pr.KINDS[int(ctx.rng.integers(3))]) for a, b in perm])).computeFisherMatrix(**kw)
        ctx.close(G.loc[pars, pars].to_numpy(float) / scale, want / scale, "notation-and-order", atol=1e-7)
        # more observables on the same multipoles never lose information
        if not excl and len(entries) > 1:
            sub = entries[:-1]
            inv_all, inv_sub = {i for e in entries for i in e}, {i for e in sub for i in e}
            if lab.common(sub) == common:
                s = sum(lab.fisher_at(sub, l) for l in common)
                H = FisherEvaluator([pr.spell(a, b, kind) for a, b in sub]).computeFisherMatrix(**kw)
                p2 = [p for p in pars if p in H.index]
                ix = [pars.index(p) for p in p2]
                d = (got - s)[np.ix_(ix, ix)] / scale[np.ix_(ix, ix)]
                ctx.check(np.linalg.eigvalsh((d + d.T) / 2)[0] > -1e-7, "information-lost-by-adding-data")
        lab.pars = keep
        # inputs untouched
        ctx.check(all(np.array_equal(d.dc_lij, e.dc_lij) for p in ders for d, e in
                      zip(ders[p].dcl_dict.values(), lab.derivatives(order=[list(lab.stored).index(_pair(k)) for k in ders[p].dcl_dict])[p].dcl_dict.values())),
                  "derivatives-mutated")
        # derivatives living on other multipoles than the covariance, or on several, are refused
        for mode in ("one", "all", "shorter", "last"):
            bad = lab.derivatives()
            victims = [pars[0]] if mode == "one" and len(pars) > 1 else pars
            for p in victims:
                for der in bad[p].dcl_dict.values():
                    e = der.l_bin_centers.copy()
                    if mode == "shorter":
                        der.l_bin_centers, der.dc_lij = e[:-1], der.dc_lij[:-1]
                    elif mode == "last":
                        e[-1] += .5
                        der.l_bin_centers = e
                    else:
                        e[0] += .5
                        der.l_bin_centers = e
            if mode in ("shorter", "last") and len(common) < 2:
                continue
            if mode in ("shorter", "last") and any(max(lab.grids[i]) not in common for e in entries for i in e):
                continue
            if mode in ("one", "all") and any(min(lab.grids[i]) not in common for e in entries for i in e):
                continue
            ctx.raises(lambda: ev.computeFisherMatrix(**dict(kw, dcoll_dvar_dict=bad)), "inconsistent-multipoles-accepted", mode=mode, n=len(common))
            ctx.saw("inconsistent")


def _pair(key):
    a, b = key.split("_")
    return pr.LONG.index(a), pr.LONG.index(b)


def trace_form(ctx):
    """a data vector of all the pairs of its probes: (2l+1)/2 tr(D^-1 dD_a D^-1 dD_b)"""
    for it in range(ctx.n(20, 160)):
        idx = [int(x) for x in ctx.rng.permutation(4)[:1 + it % 4]]
        lab, coll = _lab(ctx, idx)
        deltas, ders = lab.delta_cls(), lab.derivatives()
        entries = list(itertools.combinations_with_replacement(idx, 2))
        entries = [e if ctx.rng.random() < .5 else e[::-1] for e in [entries[q] for q in ctx.rng.permutation(len(entries))]]
        autos = _autos(lab, coll, deltas, ders, idx)
        F = FisherEvaluator([pr.spell(a, b, "short") for a, b in entries]).computeFisherMatrix(
            phys_pars=coll, dcoll_dvar_dict=ders, delta_cls=deltas, auto_f_ells=autos)
        pars = lab.pars
        want = np.zeros((len(pars),) * 2)
        for l, D in lab.joint.items():
            x = [np.linalg.solve(D, lab.djoint[p][l]) for p in pars]
            want += np.array([[np.trace(a @ b) for b in x] for a in x]) * (2 * l + 1) / 2
        s = np.sqrt(np.outer(np.diag(want), np.diag(want)))
        ctx.case((it, tuple(entries), ctx.round), sample=dict(probes=[pr.ALIAS[i] for i in idx], bins=lab.nb))
        ctx.close(F.loc[pars, pars].to_numpy(float) / s, want / s, "trace-form", atol=1e-7)
        # all the sky spectra twice as large, or bins rotated: the information scales / is unchanged
        for blk in deltas.single_blocks.values():
            blk.delta_c_lij = 2 * blk.delta_c_lij
        autos2 = _autos(lab, coll, deltas, ders, idx)
        G = FisherEvaluator([pr.spell(a, b, "short") for a, b in entries]).computeFisherMatrix(
            phys_pars=coll, dcoll_dvar_dict=ders, delta_cls=deltas, auto_f_ells=autos2)
        ctx.close(G.loc[pars, pars].to_numpy(float) / s, want / s / 4, "noise-scaling", atol=1e-7)
        for i in idx:
            ctx.close(autos2[pr.ALIAS[i]].to_numpy(float), autos[pr.ALIAS[i]].to_numpy(float) / 4, "noise-scaling-auto", rtol=1e-7, atol=1e-9)


class _WS:
    def __init__(self, d):
        self.auto_f_ells_file = d / "auto_f_ells.h5"


def files(ctx):
    with pickled_hdf():
        _files(ctx)


def _files(ctx):
    """the Fisher step: all data vectors, files of every one, a second pass, and a pass resumed after an interruption"""
    for it in range(ctx.n(3, 16)):
        idx = [int(x) for x in ctx.rng.permutation(4)[:3]]
        lab, coll = _lab(ctx, idx, partial=bool(it % 2))
        deltas, ders = lab.delta_cls(), lab.derivatives()
        d = ctx.scratch()
        ws = _WS(d)
        all_pairs = list(itertools.combinations_with_replacement(idx, 2))
        joint = [_random_vector(ctx, idx) for _ in range(3)] + [all_pairs]
        joint = [e for e in joint if len(e) > 1 or e[0][0] != e[0][1]]
        names = ["_".join(pr.spell(a, b, "short") for a, b in e) for e in joint]
        autos = [pr.spell(i, i, "short") for i in ctx.rng.permutation(idx)]
        args = dict(ws=ws, phys_pars=coll, delta_cls=deltas, dcoll_dvar_dict=ders)
        got_a = fisher_core.compute_and_save_fishers(autos[:2], d, **args)
        ctx.raises(lambda: fisher_core.compute_and_save_fishers(names[:1], d, **args), "joint-before-autos")
        got_a += fisher_core.compute_and_save_fishers(autos, d, **args)
        ctx.same(len(got_a), 3, "autos-computed-once")
        got = fisher_core.compute_and_save_fishers(names, d, **args)
        ctx.same(len(got), len(set(names)), "joint-number")
        done = {}
        for nm, f in zip(dict.fromkeys(names), got):
            e = joint[names.index(nm)]
            pars = _pars_of(lab, e)
            lab.pars, keep = pars, lab.pars
            want = lab.fisher(e)
            lab.pars = keep
            s = np.sqrt(np.outer(np.diag(want), np.diag(want)))
            ctx.case((nm, len(pars), it, ctx.round), sample=dict(data_vector=nm, parameters=pars))
            ctx.close(f.matrix.loc[pars, pars].to_numpy(float) / s, want / s, "saved-information", atol=1e-7, name=nm)
            ctx.same(f.name, "[" + "+".join(pr.fisher_repr(a, b) for a, b in e) + "]", "name")
            ctx.same((f.cosmological_parameters, f.nuisance_parameters), ({p for p in pars if p[0] == "c"}, {p for p in pars if p[0] == "n"}), "parameter-sets")
            ctx.check((d / f"fisher_{nm}.hdf5").is_file(), "file", name=nm)
            done[nm] = (d / f"fisher_{nm}.hdf5").read_bytes()
        again = fisher_core.compute_and_save_fishers(names, d, **args)
        ctx.same(again, [], "second-pass-recomputes")
        ctx.check(all((d / f"fisher_{n}.hdf5").read_bytes() == b for n, b in done.items()), "second-pass-rewrites")
        # a step interrupted after some autos is resumed to the same result
        nm = names[-1]
        (d / f"fisher_{nm}.hdf5").unlink()
        (d / f"fisher_{autos[0]}.hdf5").unlink()
        fisher_core.compute_and_save_fishers(autos, d, **args)
        res = fisher_core.compute_and_save_fishers([nm], d, **args)
        first = got[list(dict.fromkeys(names)).index(nm)]
        ctx.close(res[0].matrix.loc[first.index, first.index].to_numpy(float), first.matrix.to_numpy(float), "resumed", rtol=1e-12)


SECTIONS = [definition, trace_form, files]
