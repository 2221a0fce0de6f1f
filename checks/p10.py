"""P10: bias models evaluated per bin and redshift."""
import numpy as np
from scipy import integrate as ref_integrate
from scipy.interpolate import CubicSpline

from seyfert.cosmology import bias as bm
from seyfert.cosmology.bias import Bias, BiasError
from seyfert.cosmology.cosmology import Cosmology
from vlib import world

PROPERTY = "P10"
LEVEL = "exploration"
RULE = ("random bin numbers (1-24), parameter values stored in random order, grids inside, outside and on the bin edges, all five models, "
        "against closed forms written from the model definitions; a case is non-trivial when it has at least two bins")
ASSUMPTIONS = ["on an inner bin edge the piecewise model may take either neighbouring value",
               "the void size function model is decided for its stated Simpson rule on the configured radius grid, within 1e-6"]
NEEDS = {"oracle.tabulated": 300, "oracle.analytic": 48, "oracle.voids": 12, "ten_or_more_bins": 10, "edge_points": 30, "rare_fluctuations": 1}
PROBES = {"PhotometricGalaxy": "bgph", "SpectroscopicGalaxy": "bgsp"}


def _bias_file(ctx, d, probe, e, model, nuis, extra=None):
    names = list(nuis)
    names = [names[i] for i in ctx.rng.permutation(len(names))]
    f = d / f"{probe}_{model}.h5"
    world.write_bias(f, probe, e, model, {n: nuis[n] for n in names}, extra)
    return f, names


def _direct(ctx, model, nuis, e, **kw):
    """the same model with its parameters given in random order"""
    names = list(nuis)
    names = [names[i] for i in ctx.rng.permutation(len(names))]
    b = Bias(probe="PhotometricGalaxy", z_bin_edges=e)
    b.model_name = model
    b.nuisance_parameters = {n: nuis[n] for n in names}
    b.additional_parameters = {}
    b.initBiasModel(**kw)
    return b


def _grid(ctx, e):
    g = np.concatenate([ctx.rng.uniform(0, 4, size=20), e, [e[0] - .01, e[-1] + .01], np.nextafter(e, -1), np.nextafter(e, 9)])
    return np.sort(g) if ctx.rng.random() < .7 else ctx.rng.permutation(g)


def tabulated(ctx):
    d = ctx.scratch()
    for it in range(ctx.n(40, 300)):
        nb = int(ctx.rng.integers(1, 25))
        ctx.saw("ten_or_more_bins", nb >= 10)
        e = np.sort(ctx.rng.uniform(.05, 3, size=nb + 1))
        probe = list(PROBES)[it % 2]
        vals = ctx.rng.uniform(.5, 3, size=nb)
        if ctx.rng.random() < .3:
            vals[ctx.rng.integers(nb)] = 0.
        first = int(ctx.rng.integers(0, 2))
        nuis = {f"{PROBES[probe]}{first + i}": float(vals[i]) for i in range(nb)}
        g = _grid(ctx, e)
        keep = g.copy()
        ctx.case((it, nb, ctx.round), sample=dict(bins=nb), nontrivial=nb > 1)
        c = _direct(ctx, "constant", nuis, e)
        c.evaluateBias(g)
        ctx.same(c.b_i_z, np.repeat(vals[:, None], len(g), axis=1), "constant", edges=e, values=nuis)
        p = _direct(ctx, "piecewise", nuis, e)
        p.evaluateBias(g)
        ctx.same(p.b_i_z.shape, (nb, len(g)), "piecewise-shape")
        hi = np.clip(np.searchsorted(e, g, side="right") - 1, 0, nb - 1)
        lo = np.clip(np.searchsorted(e, g, side="left") - 1, 0, nb - 1)
        ctx.saw("edge_points", int((hi != lo).sum()))
        for i in range(nb):
            row = p.b_i_z[i]
            ctx.check(np.all((row == vals[hi]) | (row == vals[lo])), "piecewise", bin=i, edges=e, values=vals, grid=g, got=row)
        ctx.check(np.array_equal(g, keep) and p.has_output, "grid-mutated")
        ctx.same(p.z_grid, g, "grid-kept")
        # through files: stored in another order (HDF5 lists names alphabetically)
        f, names = _bias_file(ctx, d, probe, e, "constant", nuis) if not (d / f"{probe}_constant.h5").exists() else (None, None)
        if f is not None:
            b = Bias.fromHDF5(f)
            ctx.same((b.probe, b.model_name), (probe, "constant"), "file-header")
            ctx.same({k: float(v) for k, v in b.nuisance_parameters.items()}, nuis, "file-values")
            ctx.same(b.z_bin_edges, e, "file-edges")
            b.initBiasModel()
            b.evaluateBias(g)
            ctx.close(b.b_i_z, np.repeat(vals[:, None], len(g), axis=1), "constant-from-file", rtol=1e-12)
            out = d / f"o{it}-{ctx.round}.h5"
            b.saveToHDF5(out)
            back = Bias.fromHDF5(out)
            ctx.check(back == b and b == back, "round-trip-equal")
            ctx.check(np.array_equal(back.b_i_z, b.b_i_z) and np.array_equal(back.z_grid, g) and np.array_equal(back.z_bin_edges, e), "round-trip")
            back.nuisance_parameters[names[0]] = 99.
            ctx.check(not (back == b), "changed-bias-equal")
            f.unlink()
        if nb > 1:
            short = dict(list(nuis.items())[:-1])
            for model in ("constant", "piecewise"):
                ctx.raises(lambda: _direct(ctx, model, short, e).evaluateBias(g), "too-few-values-accepted", exc=BiasError)
        more = dict(nuis, **{f"{PROBES[probe]}{first + nb}": 1.})
        for model in ("constant", "piecewise"):
            ctx.raises(lambda: _direct(ctx, model, more, e).evaluateBias(g), "too-many-values-accepted", exc=BiasError)
        # changing one value changes that bin only
        k = int(ctx.rng.integers(nb))
        ch = dict(nuis)
        ch[f"{PROBES[probe]}{first + k}"] += .5
        c2 = _direct(ctx, "constant", ch, e)
        c2.evaluateBias(g)
        diff = np.any(c2.b_i_z != c.b_i_z, axis=1)
        ctx.same(list(np.where(diff)[0]), [k], "value-belongs-to-its-bin")
        ctx.raises(lambda: _direct(ctx, "magic", nuis, e), "unknown-model-accepted", exc=KeyError)


def analytic(ctx):
    for it in range(ctx.n(40, 200)):
        nb = int(ctx.rng.integers(1, 13))
        e = np.linspace(.1, 2.4, nb + 1)
        A, B, C, D = (float(v) for v in ctx.rng.uniform([-.5, .5, .5, .2], [2, 5, 4, 3]))
        g = np.sort(ctx.rng.uniform(0, 4, size=17))
        b = _direct(ctx, "euclid_flagship_photo", dict(Aph=A, Bph=B, Cph=C, Dph=D), e)
        b.evaluateBias(g)
        ctx.case((it, nb, ctx.round), sample=dict(A=A, B=B, C=C, D=D), nontrivial=nb > 1)
        ctx.close(b.b_i_z, np.repeat((A + B * .5 * (1 + np.tanh(C * (g - D) / 2)))[None], nb, axis=0), "logistic", rtol=1e-10)
        ctx.raises(lambda: _direct(ctx, "euclid_flagship_photo", dict(Aph=A, Bph=B, Cph=C), e).evaluateBias(g), "missing-parameter")


def _cosmo(ctx):
    c = dict(world.COSMO, Omm=float(ctx.rng.uniform(.2, .4)), sigma8=float(ctx.rng.uniform(.6, 1.6)))
    c["OmDE"] = 1 - c["Omm"]
    z, k = np.linspace(.02, 2.5, 40), np.logspace(-4, 1.5, 1500)
    f = ctx.scratch() / "p.h5"
    world.write_cosmology_file(f, z, k, c, params=world.cosmo_params(c, fid=world.COSMO))
    co = Cosmology.fromHDF5(f)
    co.evaluateOverRedshiftGrid()
    return co, c, z, k


def _sigma(k, P, R):
    t = np.clip((k * R - .9) / .2, 0, 1)
    filt = 1 - t ** 4 * (35 - 84 * t + 70 * t ** 2 - 20 * t ** 3)
    return np.sqrt(ref_integrate.simpson(k ** 2 * P * filt ** 2 / (2 * np.pi ** 2), x=k))


def _vdn(k, P, growth, R, dc0, dv0):
    s = np.array([_sigma(k, P, r) for r in R])
    RL = R / 1.7
    step = .5 * (RL[1] - RL[0])
    sL = np.array([_sigma(k, P, r) for r in RL])
    dsL = np.array([(-_sigma(k, P, r + 2 * step) + 8 * _sigma(k, P, r + step) - 8 * _sigma(k, P, r - step) + _sigma(k, P, r - 2 * step))
                    / (12 * step) for r in RL])
    out, branches = [], 0
    for g in growth:
        dc, dv = dc0 / g, dv0 / g
        D = abs(dv) / (abs(dv) + dc)
        x = D / abs(dv) * s
        nu = abs(dv) / s
        branches += int(np.sum(x > .276))
        f = np.where(x <= .276, np.sqrt(2 / np.pi) * nu * np.exp(-nu ** 2 / 2),
                     2 * sum(j * np.pi * x ** 2 * np.sin(j * np.pi * D) * np.exp(-(j * np.pi * x) ** 2 / 2) for j in range(1, 5)))
        n = f / (4 * np.pi * R ** 4 / 3) * (-RL / sL * dsL)
        b = 1 + (nu ** 2 - 1) / dv + dv * D / (4 * dc ** 2 * nu ** 2)
        out.append(ref_integrate.simpson(b * n, x=R) / ref_integrate.simpson(n, x=R))
    return np.array(out), branches


def voids(ctx):
    for it in range(ctx.n(4, 16)):
        co, c, z, k = _cosmo(ctx)
        nb = int(ctx.rng.integers(1, 7))
        e = np.linspace(.2, 2.2, nb + 1)
        mid = (e[1:] + e[:-1]) / 2
        b0 = float(ctx.rng.uniform(-6, -1))
        b = _direct(ctx, "fiducial_growth_void", {"voidbias0": b0}, e, fiducial_cosmology=co)
        b.evaluateBias(z)
        D = world.growth(z, c) / world.growth(z[:1], c)
        ctx.case((it, nb, ctx.round), sample=dict(bins=nb, b0=b0), nontrivial=nb > 1)
        ctx.close(b.b_i_z, np.repeat(CubicSpline(z, b0 / D)(mid)[:, None], len(z), axis=1), "growth-void", rtol=1e-8)
        ctx.raises(lambda: b.evaluateBias(z + .001), "other-grid-accepted", exc=BiasError)
        ctx.raises(lambda: _direct(ctx, "fiducial_growth_void", {"voidbias0": b0}, e), "cosmology-missing", exc=BiasError)
        ctx.raises(lambda: _direct(ctx, "vdn_void", {}, e), "cosmology-missing-vdn", exc=BiasError)
        v = Bias(probe="Void", z_bin_edges=e)
        v.model_name, v.nuisance_parameters = "vdn_void", {}
        lo = float(10 ** ctx.rng.uniform(-.5, 1.1)) if it % 4 else .25
        R = np.linspace(lo, lo * float(ctx.rng.uniform(1.4, 2.5)), 61)
        dc0, dv0 = float(ctx.rng.uniform(1.4, 1.8)), float(-ctx.rng.uniform(.8, 2.))
        v.additional_parameters = dict(R_min_Mpc=R[0], R_max_Mpc=R[-1], R_grid_size=61, delta_c0=dc0, delta_v0=dv0)
        v.initBiasModel(cosmology=co)
        v.evaluateBias(z)
        lin, _ = world.pmm(z, k, c)
        ref, branches = _vdn(k, lin[0], D, R, dc0, dv0)
        ctx.saw("rare_fluctuations", int(branches))
        if not np.all(np.isfinite(ref)):  # no voids of these sizes at some redshift
            ctx.saw("no_voids")
            continue
        want = CubicSpline(z, ref)(mid)
        ctx.close(v.b_i_z, np.repeat(want[:, None], len(z), axis=1), "void-size-function", rtol=1e-6, R=R, dc0=dc0, dv0=dv0)
        ctx.raises(lambda: v.evaluateBias(z + .001), "other-grid-accepted-vdn", exc=BiasError)


SECTIONS = [tabulated, analytic, voids]
