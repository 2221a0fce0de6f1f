"""P28: a loaded run holds the products in its directory, and comparing runs measures how they differ."""
import copy
import json
import logging
import pickle

import h5py
import numpy as np
import pandas as pd

from checks import p19
from seyfert.cosmology.c_ells import AngularCoefficientsCollector
from seyfert.file_io import retro_comp
from seyfert.fisher.final_results_core import create_final_results
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.main import cl_core
from seyfert.numeric import general as ng
from seyfert.utils.comparison_utils import ClDiff
from seyfert.utils.run_loader import ComparisonMetrics, RunComparison, RunLoader
from vlib import probes as pr, scripts, world

PROPERTY = "P28"
LEVEL = "exploration"
RULE = ("run directories with random products of current and earlier layouts (spectra of random displaced parameters, derivatives, power spectra, Fisher matrices and the "
        "final results made from them), some missing, are loaded and compared with copies in which random elements were changed; every metric is recomputed from what was "
        "written; distinct = version x products x change")
ASSUMPTIONS = ["the name of a run directory contains the version that wrote it", "percentage differences are relative to the mean absolute value of the two elements"]
NEEDS = {"oracle.percentages": 100, "oracle.loading": 60, "oracle.comparing": 60, "oracle.spectra": 30, "oracle.parts": 60, "verdict_one": 3, "old_layout": 1, "missing": 1, "verdict_bad": 3, "verdict_good": 3}

SHORT = {"PhotometricGalaxy": "ph", "SpectroscopicGalaxy": "sp", "Lensing": "wl", "Void": "vd"}
MODES = [(c, m) for c in ("w0_wa_CDM", "LCDM") for m in ("marg_before", "marg_after", "nuis_fixed")]


def diff(x, y):
    """percentage difference, zero where both elements are"""
    x, y = np.asarray(x, float), np.asarray(y, float)
    den = np.abs(x + y)
    with np.errstate(all="ignore"):
        return np.where(den > 0, 200 * np.abs(x - y) / den, 0 if np.all(np.abs(x - y)[den == 0] == 0) else 200 * np.abs(x - y))


# ------------------------------------------------------------------------------------------------ percentages
def percentages(ctx):
    rng = ctx.rng
    for it in range(ctx.n(60, 600)):
        shape = tuple(rng.integers(1, 5, size=int(rng.integers(1, 4))))
        x = rng.normal(size=shape) * 10.0 ** rng.integers(-20, 20)
        y = x * (1 + rng.normal(size=shape) * 10.0 ** rng.uniform(-9, .5))
        zero = rng.random(shape) < .2
        x, y = np.where(zero, 0, x), np.where(zero, 0, y)
        want = np.zeros(shape)
        for i in np.ndindex(*shape):
            if x[i] + y[i] != 0:
                want[i] = 200 * abs(x[i] - y[i]) / abs(x[i] + y[i])
        ctx.case((it, ctx.round, shape), sample=shape, nontrivial=bool((x < 0).any()))
        kx, ky = x.copy(), y.copy()
        ctx.close(ng.pad(x, y), want, "array", rtol=1e-12, shape=shape)
        ctx.close(ng.pad(y, x), want, "array-exchanged", rtol=1e-12, shape=shape)
        ctx.check(np.array_equal(x, kx) and np.array_equal(y, ky), "inputs-changed")
        ctx.check(np.all(ng.pad(x, x) == 0), "array-itself")
        for ref, f in (("mean", np.mean), ("max", np.max)):
            n = np.abs(x + y) / 2
            if n.max() > 0:
                ctx.close(ng.odm_weighted_pad(x, y, ref=ref), want * n / f(n), "weighted", rtol=1e-10, ref=ref)
        if x.flat[0] + y.flat[0] != 0:
            ctx.close(ng.pad(float(x.flat[0]), float(y.flat[0])), want.flat[0], "scalar", rtol=1e-12)
            ctx.close(ng.percentage_difference(float(y.flat[0]), float(x.flat[0])) if x.flat[0] else 0, 100 * (y.flat[0] - x.flat[0]) / x.flat[0] if x.flat[0] else 0,
                      "signed", rtol=1e-9)
        if len(shape) == 2:
            idx, col = [f"r{k}" for k in range(shape[0])], [f"c{k}" for k in range(shape[1])]
            a = pd.DataFrame(x, index=idx, columns=col)
            b = pd.DataFrame(y, index=idx, columns=col)
            b = b.loc[[idx[k] for k in rng.permutation(len(idx))], [col[k] for k in rng.permutation(len(col))]]
            ctx.close(ng.pad(a, b).loc[idx, col].to_numpy(), want, "table", rtol=1e-12, shape=shape)
            ctx.close(ng.pad(b, a).loc[idx, col].to_numpy(), want, "table-exchanged", rtol=1e-12, shape=shape)
            ctx.check(np.all(ng.pad(a, a).to_numpy() == 0), "table-itself")
            ctx.raises(lambda: ng.pad(a, b.rename(index={idx[0]: "other"})), "other-rows")
            ctx.raises(lambda: ng.pad(a, b.rename(columns={col[0]: "other"})), "other-columns")


# ------------------------------------------------------------------------------------------------ runs
class Products:
    """everything a run directory can hold, as arrays"""

    def __init__(self, ctx, template):
        rng = ctx.rng
        self.template = template
        pool = ["w0", "wa", "Omm", "sigma8", "bgph1", "bgph10", "aIA"]
        pars = [p for p in pool if rng.random() < .4] or ["w0"]
        jobs = [("central", 0)] + [(p, s) for p in pars for s in sorted({int(k) for k in rng.integers(1, 13, size=2)} | {-int(k) for k in rng.integers(1, 13, size=1)})]
        probes = sorted({k for pair in template for k in pair.split("_")})
        self.pmms = {j: tuple(rng.normal(size=(2, 4, 5))) for j in jobs if not j[0].startswith("b")}
        self.z, self.k = np.sort(rng.uniform(0, 3, 4)), np.sort(rng.uniform(0, 3, 5))
        self.cosmos = {j: tuple(rng.uniform(1, 3, size=(2, 4))) for j in jobs} if rng.random() < .5 else {}
        self.cls, self.weights, self.densities, self.kernels = {}, {}, {}, {}
        for j in jobs:
            one = rng.random() < .5
            self.cls[j] = {p: template[p]["c"] * rng.normal(size=template[p]["c"].shape) for p in template}
            self.kernels[j] = {p: template[p]["k"] * rng.normal(size=template[p]["k"].shape) for p in template}
            self.weights[j] = {q: rng.normal(size=template[f"{q}_{q}"]["w"].shape) for q in probes}
            self.densities[j] = {q: rng.normal(size=template[f"{q}_{q}"]["n"].shape) for q in probes}
        self.dcls = {p: {k: rng.normal(size=template[k]["c"].shape) for k in template} for p in pars}

    def jobs(self):
        return list(self.cls)


def _template(ctx):
    """one real collection of spectra; its arrays give the shapes"""
    s = world.Survey(ctx.scratch("sv"), n_bins={p: int(ctx.rng.integers(1, 4)) for p in world.LONG}, n_ell=int(ctx.rng.integers(2, 5)),
                     probes=[p for p in ("WL", "GCph", "GCsp") if ctx.rng.random() < .7] or ["GCph"])
    s.z_grid, s.k_grid = np.linspace(.02, 2.5, 9), np.logspace(-4, 1, 30)
    ws = s.make_workspace(s.base / "run", pmm=True)
    fc = s.forecast_config()
    cosmo = cl_core.load_cosmology(ws, "central", 0, fc.phys_pars)
    cosmo.evaluateOverRedshiftGrid()
    dens = cl_core.compute_densities(fc.probe_configs, cosmo.z_grid)
    col = cl_core.compute_cls(cosmo, fc.phys_pars, dens, fc, s.angular_config(), fiducial_cosmology=cosmo)
    shapes = {}
    for key, cl in col.cl_dict.items():
        shapes[f"{cl.probe1}_{cl.probe2}"] = dict(c=np.array(cl.c_lij), k=np.array(cl.kernel.k_ijz), w=np.array(cl.weight1.w_bin_z),
                                                  n=np.array(cl.weight1.density.norm_density_iz), e=np.array(cl.l_bin_centers), d=np.array(cl.l_bin_widths))
    return col, shapes


def _job_dir(dvar, step):
    return f"dvar_{dvar}_step_" + ("0" if step == 0 else f"{'m' if step < 0 else 'p'}_{abs(step)}")


def _write(run, prod, col, old, skip=()):
    """the products, in the layout of the current release or of 1.0"""
    for j, (lin, non) in prod.pmms.items() if "PowerSpectrum" not in skip else ():
        d = run / "PowerSpectrum" / _job_dir(*j)
        world.write_cosmology_file(d / "p_mm.h5", prod.z, prod.k, world.COSMO)
        with h5py.File(d / "p_mm.h5", "a") as hf:
            hf["power_spectrum/lin_p_mm_z_k"][...], hf["power_spectrum/nonlin_p_mm_z_k"][...] = lin, non
    for j in prod.jobs() if "Angular" not in skip else ():
        d = run / "Angular" / _job_dir(*j)
        d.mkdir(parents=True)
        if old:
            with h5py.File(d / "cls_old.h5", "w") as hf:
                for key, c in prod.cls[j].items():
                    hf[f"cls/{key}/c_lij"], hf[f"kernels/{key}/k_ijz"] = c, prod.kernels[j][key]
                    hf[f"cls/{key}/l_bin_centers"], hf[f"cls/{key}/l_bin_widths"] = prod.template[key]["e"], prod.template[key]["d"]
                for q in prod.weights[j]:
                    hf[f"weight_functions/{q}"], hf[f"density_functions/{q}/norm_density_i_z"] = prod.weights[j][q], prod.densities[j][q]
        else:
            c = copy.deepcopy(col)
            for cl in c.cl_dict.values():
                key = f"{cl.probe1}_{cl.probe2}"
                cl.c_lij, cl.kernel.k_ijz = prod.cls[j][key], prod.kernels[j][key]
                for w in (cl.weight1, cl.weight2):
                    w.w_bin_z, w.density.norm_density_iz = prod.weights[j][w.probe], prod.densities[j][w.probe]
            for w in getattr(c, "weight_dict", {}).values():
                w.w_bin_z, w.density.norm_density_iz = prod.weights[j][w.probe], prod.densities[j][w.probe]
            c.saveToHDF5(d / "cl_x_y.h5")
        if j in prod.cosmos:
            E, r = prod.cosmos[j]
            if old:
                with h5py.File(d / "cosmology.h5", "w") as hf:
                    hf["cosmology/dimensionless_hubble_parameter"], hf["cosmology/dimensionless_comoving_distance"], hf["cosmology/z_array"] = E, r, prod.z
                    hf["power_spectrum/k_array"] = prod.k
                    hf["power_spectrum/p_mm_values/lin_p_mm_z_k"], hf["power_spectrum/p_mm_values/nonlin_p_mm_z_k"] = np.ones((4, 5)), np.ones((4, 5))
            else:
                world.write_cosmology_file(d / "cosmology.h5", prod.z, prod.k, world.COSMO, evaluated=True)
                with h5py.File(d / "cosmology.h5", "a") as hf:
                    hf["cosmology/dimensionless_hubble_array"][...], hf["cosmology/dimensionless_comoving_distance_array"][...] = E, r
    for p, arr in prod.dcls.items() if "Derivative" not in skip else ():
        d = run / "Derivative" / p
        d.mkdir(parents=True)
        with h5py.File(d / "cl_derivatives_x.h5", "w") as hf:
            for k, v in arr.items():
                hf[k if old else f"{k}/dc_lij"] = v
                if not old:
                    hf[f"{k}/l_bin_centers"] = prod.template[k]["e"]


class Made:
    """a run directory and what is in it"""

    def __init__(self, ctx, path, prod, col, version, skip=(), source=None, change=None):
        self.dir, self.prod, self.version, self.skip = path, prod, version, set(skip)
        self.old = version.startswith("1.0.")
        if source is None:
            self.run = p19.Run(ctx, path, ["Omm", "Omb", "h", "ns", "sigma8", "w0", "wa"], datavectors=["[GCph]", "[WL]", "[WL+GCph+XC(WL,GCph)]"])
            self.base = {n: m.copy() for n, m in self.run.base.items()}
        else:
            import shutil
            self.run = copy.copy(source.run)
            self.run.dir = path
            path.mkdir()
            for x in ("base_fishers", "input_files_dir"):
                shutil.copytree(source.origin / x, path / x)
            for x in ("input_files_dict.json", "run_metadata.json"):
                shutil.copy(source.origin / x, path / x)
            self.base = {n: m.copy() for n, m in source.base.items()}
            if change is not None:
                change(self.base)
            self.run.base = self.base
            for n, m in self.base.items():
                p19._write(ctx, path / "base_fishers" / FisherMatrix(name=n).getFilename(), n, m, *self.run.sets[n])
        self.metadata = {"run_id": path.name, "n": int(ctx.rng.integers(10 ** 6))}
        (path / "run_metadata.json").write_text(json.dumps(self.metadata))
        _write(path, prod, col, self.old, self.skip)
        import shutil
        self.origin = path.parent / ("origin_" + path.name)
        self.origin.mkdir()
        for x in ("base_fishers", "input_files_dir"):
            shutil.copytree(path / x, self.origin / x)
        for x in ("input_files_dict.json", "run_metadata.json"):
            shutil.copy(path / x, self.origin / x)
        if self.old:
            (path / "base_fishers").rename(path / "fisher_matrices")
        self.errs = {}
        if "results" not in self.skip:
            if self.old:
                self._old_results(ctx)
            else:
                create_final_results(path, "final_results")
                for c, m in MODES:
                    free, want = self.run.expected(c, m)
                    self.errs[f"{c}_{m}"] = {n: _errors(f, sorted(free)) for n, f in want.items()}

    def _old_results(self, ctx):
        for c, free in p19.FREE.items():
            d = self.dir / "results" / c
            for x in ("errors", "fishers", "correlations"):
                (d / x).mkdir(parents=True)
            errs, free = {}, sorted(free)
            for n, m in self.base.items():
                name = n.strip("[]").replace("+", "").replace("(", "").replace(")", "").replace(",", "")
                f = m.loc[free, free]
                p19._write(ctx, d / "fishers" / f"fisher_{name}.hdf5", name, f, free, set())
                e = np.sqrt(np.diag(np.linalg.inv(f.to_numpy())))
                errs[name] = pd.Series(e, index=free)
                pd.DataFrame(np.linalg.inv(f.to_numpy()) / np.outer(e, e), index=free, columns=free).to_csv(d / "correlations" / f"x_correlation_{name}.csv")
            t = pd.DataFrame(errs).T
            t.to_csv(d / "errors" / "marginalized_errors_x.csv")
            t.to_csv(d / "errors" / "relative_marginalized_errors_x.csv")
            self.errs[c] = errs


def _errors(f, free):
    cov = pd.DataFrame(np.linalg.inv(f.to_numpy()), index=f.index, columns=f.index)
    out = pd.Series(np.sqrt(np.diag(cov)), index=f.index)[free]
    if {"w0", "wa"} <= set(free):
        out["FoM"] = 1 / np.sqrt(np.linalg.det(cov.loc[["w0", "wa"], ["w0", "wa"]].to_numpy()))
    return out


def _key(pair):
    a, b = pair.split("_")
    return SHORT[a] + SHORT[b]


def _names(jobs):
    return {f"{p}_{s}" for p, s in jobs}


def _check_loaded(ctx, rl, made, tag, where, only=None):
    p = made.prod
    base = lambda v: v.removesuffix("dev")
    ctx.same(base(str(rl.version)), base(made.version), "version-" + tag, where=where)
    ctx.same(rl.metadata, made.metadata, "metadata-" + tag, where=where)
    ctx.same(set(rl.pmms), _names(p.pmms) if "PowerSpectrum" not in made.skip else set(), "power-spectra-" + tag, where=where)
    for j, v in p.pmms.items():
        if f"{j[0]}_{j[1]}" in rl.pmms:
            x = rl.pmms[f"{j[0]}_{j[1]}"]
            ctx.same((x.lin_p_mm_z_k, x.nonlin_p_mm_z_k), v, "power-spectrum-" + tag, where=where, job=j)
    jobs = {j for j in p.jobs() if only is None or j[0] in only} if "Angular" not in made.skip else set()
    ctx.same(set(rl.cls), _names(jobs), "spectra-jobs-" + tag, where=where)
    ctx.same(set(rl.cosmos), _names(jobs & set(p.cosmos)), "cosmology-jobs-" + tag, where=where)
    for j in jobs:
        name = f"{j[0]}_{j[1]}"
        if name not in rl.cls:
            continue
        col = rl.cls[name]
        ctx.same(set(col.short_keys), {_key(k) for k in p.cls[j]}, "pairs-" + tag, where=where, job=j)
        for k in p.cls[j]:
            if _key(k) in set(col.short_keys):
                cl = col[_key(k)]
                a, b = k.split("_")
                ctx.same((cl.c_lij, cl.kernel.k_ijz, cl.weight1.w_bin_z, cl.weight2.w_bin_z, cl.weight1.density.norm_density_iz, cl.weight2.density.norm_density_iz),
                         (p.cls[j][k], p.kernels[j][k], p.weights[j][a], p.weights[j][b], p.densities[j][a], p.densities[j][b]), "spectrum-" + tag, where=where, job=j, pair=k)
        if name in rl.cosmos and j in p.cosmos:
            ctx.same((rl.cosmos[name].E_z, rl.cosmos[name].r_tilde_z), p.cosmos[j], "cosmology-" + tag, where=where, job=j)
    if only is None:
        want = {} if "Derivative" in made.skip else {q: {_key(k): v for k, v in d.items()} for q, d in p.dcls.items()}
        ctx.same(rl.dcls, want, "derivatives-" + tag, where=where)
        ctx.same(set(rl.fishers), set(made.base), "matrices-" + tag, where=where)
        for n, m in made.base.items():
            if n in rl.fishers:
                g = rl.fishers[n]
                ctx.close(g.matrix.loc[m.index, m.index].to_numpy(), m.to_numpy(), "matrix-" + tag, rtol=1e-12, where=where, name=n)
                d = np.sqrt(np.diag(m))
                ctx.close(g.inverse.loc[m.index, m.index].to_numpy() * np.outer(d, d), np.linalg.inv(m.to_numpy()) * np.outer(d, d), "inverse-" + tag, rtol=1e-6, atol=1e-7, where=where, name=n)
        got = rl.marg_errs
        ctx.same(set(got), set(made.errs), "results-" + tag, where=where)
        for c in set(got) & set(made.errs):
            t = got[c]
            for n, e in made.errs[c].items():
                if ctx.check(n in t.index, "errors-missing-" + tag, where=where, cosmology=c, name=n, index=list(t.index)):
                    ctx.close(t.loc[n, list(e.index)].to_numpy(float), e.to_numpy(), "errors-" + tag, rtol=1e-6, where=where, cosmology=c, name=n)


VERSIONS = ["1.3.8", "1.3.8dev", "1.2.0", "1.10.12", "1.1.1", "12.0.3", "1.0.4", "1.0.10"]


def _first(ctx, base, k):
    col, shapes = _template(ctx)
    version = VERSIONS[k % len(VERSIONS)] if k % 4 != 3 else "1.0.4"
    skip = [x for x in ("PowerSpectrum", "Angular", "Derivative", "results") if ctx.rng.random() < .35] if k % 2 else []
    made = Made(ctx, base / f"run_one_{version}_2024-0{k % 9 + 1}-11T10-11-12", Products(ctx, shapes), col, version, skip)
    if made.old:
        ctx.saw("old_layout")
    if skip:
        ctx.saw("missing")
    return made, col


def loading(ctx):
    for it in range(ctx.n(2, 12)):
        base = ctx.scratch("l")
        made, col = _first(ctx, base, 2 * it + 1 + ctx.round if it % 2 else it + ctx.round)
        where = dict(version=made.version, missing=sorted(made.skip), jobs=made.prod.jobs())
        ctx.case((it, ctx.round, made.version, tuple(where["missing"])), where)
        with ctx.op("loading", **where):
            rl = RunLoader(str(made.dir) if it % 2 else made.dir)
            rl.loadRunData()
            _check_loaded(ctx, rl, made, "loaded", where)
            rl.pickle_dump(base / "x.pickle")
            _check_loaded(ctx, RunLoader.pickle_load(base / "x.pickle"), made, "dumped", where)
            # only some parameters
            if "Angular" not in made.skip:
                pars = sorted({j[0] for j in made.prod.jobs()} - {"central"})
                only = {p for p in pars if ctx.rng.random() < .5} | {pars[0]}
                part = RunLoader(made.dir)
                part.loadMetadata()
                part.loadCosmologiesAndCls(params=sorted(only))
                ctx.same(set(part.cls), _names(j for j in made.prod.jobs() if j[0] in only), "some-parameters", where=where, only=sorted(only))
                ctx.raises(lambda: RunLoader.loadCosmologiesAndCls(part, params=[pars[0], "nothing"]), "unknown-parameter", where=where)


# ------------------------------------------------------------------------------------------------ comparing
class _Log(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records = []

    def emit(self, r):
        self.records.append((r.levelno, r.getMessage()))


def _changed(ctx, prod):
    """a copy of the products: elements changed, jobs and parameters missing or added"""
    rng = ctx.rng
    q = copy.deepcopy(prod)

    def touch(a):
        a = np.array(a)
        m = rng.random(a.shape) < .4
        return np.where(m, a * (1 + rng.normal(size=a.shape) * 10.0 ** rng.uniform(-8, 0)), a)

    for d in (q.cls, q.kernels, q.weights, q.densities):
        for j in d:
            d[j] = {k: touch(v) if rng.random() < .5 else v for k, v in d[j].items()}
    for j in q.pmms:
        q.pmms[j] = tuple(touch(v) for v in q.pmms[j])
    for j in q.cosmos:
        q.cosmos[j] = tuple(touch(v) for v in q.cosmos[j])
    for p in q.dcls:
        q.dcls[p] = {k: touch(v) for k, v in q.dcls[p].items() if rng.random() < .9}
    if rng.random() < .5 and len(q.jobs()) > 2:
        j = q.jobs()[int(rng.integers(1, len(q.jobs())))]
        for d in (q.cls, q.kernels, q.weights, q.densities, q.cosmos, q.pmms):
            d.pop(j, None)
    if rng.random() < .5:
        q.dcls["etaIA"] = dict(next(iter(q.dcls.values())))
    return q


def _expected(a, b, pmm):
    """the metrics of two made runs"""
    p, q = a.prod, b.prod
    has = lambda t: t not in a.skip and t not in b.skip
    out = {"pmms": {}, "cosmos": {}, "cls": {}, "dcls": {}, "fisher": {}, "inverse_fisher": {}, "marg_errs": {}}
    if pmm and has("PowerSpectrum"):
        for j in set(p.pmms) & set(q.pmms):
            out["pmms"][f"{j[0]}_{j[1]}"] = {"lin": diff(p.pmms[j][0], q.pmms[j][0]), "nonlin": diff(p.pmms[j][1], q.pmms[j][1])}
    if has("Angular"):
        for j in set(p.cosmos) & set(q.cosmos):
            out["cosmos"][f"{j[0]}_{j[1]}"] = {"E_z": diff(p.cosmos[j][0], q.cosmos[j][0]), "r_tilde_z": diff(p.cosmos[j][1], q.cosmos[j][1])}
        for j in set(p.cls) & set(q.cls):
            out["cls"][f"{j[0]}_{j[1]}"] = {}
            for k in p.cls[j]:
                x, y = k.split("_")
                out["cls"][f"{j[0]}_{j[1]}"][_key(k)] = {
                    "c_lij": diff(p.cls[j][k], q.cls[j][k]), "k_ijz": diff(p.kernels[j][k], q.kernels[j][k]),
                    "w1_iz": diff(p.weights[j][x], q.weights[j][x]), "w2_iz": diff(p.weights[j][y], q.weights[j][y]),
                    "n1_iz": diff(p.densities[j][x], q.densities[j][x]), "n2_iz": diff(p.densities[j][y], q.densities[j][y])}
    if has("Derivative"):
        for n in set(p.dcls) & set(q.dcls):
            out["dcls"][n] = {_key(k): diff(p.dcls[n][k], q.dcls[n][k]) for k in set(p.dcls[n]) & set(q.dcls[n])}
    for n in set(a.base) & set(b.base):
        x, y = a.base[n], b.base[n].loc[a.base[n].index, a.base[n].index]
        out["fisher"][n] = pd.DataFrame(diff(x, y), index=x.index, columns=x.index)
        out["inverse_fisher"][n] = pd.DataFrame(diff(np.linalg.inv(x), np.linalg.inv(y)), index=x.index, columns=x.index)
    for c in set(a.errs) & set(b.errs):
        x, y = pd.DataFrame(a.errs[c]).T, pd.DataFrame(b.errs[c]).T
        y = y.loc[x.index, x.columns]
        out["marg_errs"][c] = pd.DataFrame(diff(x, y), index=x.index, columns=x.columns)
    return out


def _check_metrics(ctx, got, want, tag, where):
    for what in want:
        if not ctx.same(set(got[what]), set(want[what]), f"{what}-keys-{tag}", where=where):
            continue
        for k, w in want[what].items():
            g = got[what][k]
            if isinstance(w, pd.DataFrame):
                ctx.check(set(g.index) == set(w.index) and set(g.columns) == set(w.columns), f"{what}-labels-{tag}", where=where, key=k)
                g = g.loc[w.index, w.columns].to_numpy(float)
                ctx.close(g, w.to_numpy(float), f"{what}-{tag}", rtol=1e-4 if what != "fisher" else 1e-9, atol=1e-5 if what != "fisher" else 1e-11, where=where, key=k)
            elif what == "cls":
                ctx.same(set(g), set(w), f"cls-pairs-{tag}", where=where, key=k)
                for pair in set(g) & set(w):
                    ctx.same(set(g[pair]), set(w[pair]), f"cls-arrays-{tag}", where=where, key=k, pair=pair)
                    for x in w[pair]:
                        ctx.close(g[pair][x], w[pair][x], f"cls-{x}-{tag}", rtol=1e-9, where=where, key=k, pair=pair)
            else:
                ctx.same(set(g), set(w), f"{what}-inner-{tag}", where=where, key=k)
                for x in set(g) & set(w):
                    ctx.close(g[x], w[x], f"{what}-{tag}", rtol=1e-9, where=where, key=k, inner=x)


def comparing(ctx):
    rng = ctx.rng
    for it in range(ctx.n(2, 10)):
        base = ctx.scratch("c")
        a, col = _first(ctx, base, 3 * it + ctx.round)
        size = 10.0 ** (rng.uniform(-1.5, 1) if it % 4 == 1 else rng.uniform(-10, 0)) if it % 2 else 0.0

        def change(mats):
            for n in list(mats):
                m = mats[n].to_numpy(copy=True)
                i, j = (int(v) for v in rng.integers(0, len(m), 2))
                m[i, j] *= 1 + size * 1e-2
                m[j, i] = m[i, j]
                mats[n] = pd.DataFrame(m, index=mats[n].index, columns=mats[n].columns)

        other = "1.0.4" if a.old else str(rng.choice(["1.3.8", "1.4.10"]))
        b = Made(ctx, base / f"run_two_{other}_2025-01-01T00-00-00", _changed(ctx, a.prod) if it % 2 else copy.deepcopy(a.prod), col, other, a.skip, source=a, change=change if it % 2 else None)
        where = dict(first=a.version, second=b.version, missing=sorted(a.skip), size=size)
        ctx.case((it, ctx.round, a.version, size), where)
        pmm = bool(rng.integers(2))
        log = _Log()
        lg = logging.getLogger("seyfert.utils.run_loader")
        with ctx.op("comparing", **where):
            rc = RunComparison(a.dir, b.dir)
            rc.loadRunData()
            ctx.same(rc.metadata, {"run1": a.metadata, "run2": b.metadata}, "metadata", where=where)
            lg.addHandler(log)
            off = logging.root.manager.disable
            logging.disable(logging.NOTSET)
            lg.setLevel(logging.DEBUG)
            try:
                if pmm:
                    rc.metrics = ComparisonMetrics(rc.rl1, rc.rl2, metric_func=ng.pad)
                    rc.metrics.evaluate(eval_pmm_metric=True)
                    rc.metrics.testAllMetrics()
                else:
                    rc.evaluateMetricsAndTest()
            finally:
                lg.removeHandler(log)
                logging.disable(off)
            want = _expected(a, b, pmm)
            _check_metrics(ctx, rc.metrics.metrics, want, "compared", where)
            warned = [m for lv, m in log.records if lv >= logging.WARNING]
            for what, limit in (("fisher", 1e-5), ("inverse_fisher", 1e-5), ("marg_errs", 1e-6)):
                for k, w in want[what].items():
                    top = float(np.nanmax(w.to_numpy(float)))
                    if abs(np.log10(max(top, 1e-300) / limit)) < 1 or (what != "fisher" and size > 0 and top < 1e-3):
                        continue
                    bad = any(f" {what} {k} pads" in m for m in warned)
                    ctx.same(bad, bool(top >= limit), "verdict", where=where, metric=what, key=k, largest=top)
                    ctx.saw("verdict_bad" if bad else "verdict_good")
            # on disk and back
            out = base / "out" / "deep"
            rc.saveComparisonData(out, save_run_pickle=bool(it % 2))
            dirs = list(out.iterdir())
            ctx.same(len(dirs), 1, "one-comparison-directory", where=where)
            ctx.check(a.version.removesuffix("dev") in dirs[0].name and b.version in dirs[0].name, "versions-in-name", where=where, name=dirs[0].name)
            back = RunComparison()
            back.loadComparisonData(dirs[0])
            _check_metrics(ctx, back.metrics.metrics, want, "reloaded", where)
            ctx.same(list(back.metadata), [a.metadata, b.metadata], "metadata-reloaded", where=where)
            if it % 2:
                _check_loaded(ctx, RunLoader.pickle_load(dirs[0] / "run2.pickle"), b, "pickled", where)
            # the program
            scripts.run("compare_runs", [a.dir, b.dir, "-o", base / "prog"], base)
            dirs = list((base / "prog").iterdir())
            ctx.same(len(dirs), 1, "program-directory", where=where)
            with open(dirs[0] / "full_metrics.pickle", "rb") as f:
                _check_metrics(ctx, pickle.load(f), _expected(a, b, False), "program", where)


def _logged(fn):
    log, lg, off = _Log(), logging.getLogger("seyfert.utils.run_loader"), logging.root.manager.disable
    lg.addHandler(log)
    logging.disable(logging.NOTSET)
    lg.setLevel(logging.DEBUG)
    try:
        fn()
    finally:
        lg.removeHandler(log)
        logging.disable(off)
    return [m for lv, m in log.records if lv >= logging.WARNING]


def parts(ctx):
    """single steps: the version in a name, the matrices with unused parameters, runs with nothing in common, the verdict on one element"""
    rng = ctx.rng
    for v in ("1.3.8", "1.3.8dev", "1.2.0a", "1.0.4b", "10.0.12", "1.2.0adev"):
        for text in ("run_{}_x", "{}", "fc_{}_2024-01-11T10-11-12", "run{}"):
            d = ctx.scratch() / text.format(v)
            d.mkdir()
            rl = RunLoader(d)
            with ctx.op("version", name=d.name):
                rl.loadMetadata()
            if v != "1.2.0adev":
                ctx.same(str(rl.version).removesuffix("dev"), v.removesuffix("dev"), "version-of-a-name", name=d.name)
            ctx.check(rl.metadata in (None, {}), "metadata-of-nothing")
            ctx.case((v, text))
    for it in range(ctx.n(4, 20)):
        run = ctx.scratch("m") / "run_1.3.8"
        old = bool(it % 2)
        (run / ("fisher_matrices" if old else "base_fishers")).mkdir(parents=True)
        want = {}
        for name in ("[WL]", "[GCph]"):
            cosmo = set(rng.choice(["w0", "wa", "h", "ns"], size=2, replace=False))
            nuis = set(rng.choice(["b1", "b2", "aIA"], size=int(rng.integers(0, 3)), replace=False))
            rest = [p for p in ("Omm", "z1", "aa", "sigma8") if rng.random() < .5]
            m = p19._psd(ctx, sorted(cosmo | nuis) + rest)
            p19._write(ctx, run / ("fisher_matrices" if old else "base_fishers") / f"f{len(want)}.hdf5", name, m, cosmo, nuis)
            want[name] = m.loc[sorted(cosmo | nuis), sorted(cosmo | nuis)]
        rl = RunLoader(run)
        ctx.case((it, ctx.round, old))
        with ctx.op("matrices-with-unused-parameters"):
            rl.loadFishers()
        ctx.same(set(rl.fishers), set(want), "matrices-found")
        for n, w in want.items():
            g = rl.fishers[n]
            if ctx.same((set(g.matrix.index), set(g.matrix.columns)), (set(w.index), set(w.index)), "parameters-of-the-matrix", name=n):
                ctx.close(g.matrix.loc[w.index, w.index].to_numpy(), w.to_numpy(), "matrix-part", rtol=1e-12)
                d = np.sqrt(np.diag(w))
                ctx.same(set(g.inverse.index), set(w.index), "parameters-of-the-inverse", name=n)
                ctx.close(g.inverse.loc[w.index, w.index].to_numpy() * np.outer(d, d), np.linalg.inv(w.to_numpy()) * np.outer(d, d), "inverse-part", rtol=1e-7, atol=1e-9)
    for it in range(ctx.n(4, 20)):
        a, b = RunLoader(ctx.scratch()), RunLoader(ctx.scratch())
        x = {f"p{k}": {"phph": rng.normal(size=(2, 2, 2))} for k in range(3)}
        y = {f"p{k + it % 5}": {("phph" if rng.random() < .6 else "wlwl"): rng.normal(size=(2, 2, 2))} for k in range(3)}
        a.dcls, b.dcls = x, y
        m = ComparisonMetrics(a, b, metric_func=ng.pad)
        with ctx.op("few-in-common"):
            m.evaluate()
        ctx.case((it, ctx.round, it % 5))
        ctx.same({p: set(v) for p, v in m.dcls.items()}, {p: set(x[p]) & set(y[p]) for p in set(x) & set(y)}, "what-both-have")
        ctx.same([m.cls, m.cosmos, m.pmms, m.fisher, m.inverse_fisher, m.marg_errs], [{}] * 6, "nothing-in-common")
    for it in range(ctx.n(6, 40)):
        # cosmologies in the layouts of the first releases
        f = ctx.scratch("o") / "cosmology.h5"
        z, k = np.sort(rng.uniform(0, 3, 5)), np.sort(rng.uniform(1e-4, 5, 6))
        E, r, lin, non = rng.uniform(1, 4, 5), rng.uniform(0, 2, 5), rng.uniform(1, 9, (5, 6)), rng.uniform(1, 9, (5, 6))
        version = ("1.0.4", "1.0.10", "1.1.0")[it % 3]
        transfer = rng.uniform(size=6)
        pars = {n: dict(fiducial=float(rng.normal()), current=float(rng.normal()), is_present=bool(rng.integers(2))) for n in ("Omm", "h", "w0")}
        with h5py.File(f, "w") as hf:
            if version == "1.1.0":
                hf["cosmology/z_grid"], hf["cosmology/dimensionless_hubble_array"], hf["cosmology/dimensionless_comoving_distance_array"] = z, E, r
                for n, p in pars.items():
                    hf.create_group(f"cosmology/cosmological_parameters/{n}").attrs.update(p)
            else:
                hf["cosmology/dimensionless_hubble_parameter"], hf["cosmology/dimensionless_comoving_distance"], hf["cosmology/z_array"] = E, r, z
                hf["power_spectrum/k_array"], hf["transfer_function"] = k, transfer
                hf["power_spectrum/p_mm_values/lin_p_mm_z_k"], hf["power_spectrum/p_mm_values/nonlin_p_mm_z_k"] = lin, non
        ctx.case((it, ctx.round, version))
        with ctx.op("cosmology-of-a-first-release", version=version):
            c = retro_comp.read_cosmo_file(f, version=version, load_power_spectrum=bool(rng.integers(2)))
            ctx.same((c.z_grid, c.E_z, c.r_tilde_z), (z, E, r), "cosmology-of-a-first-release", version=version)
            if version == "1.1.0":
                ctx.same({n: (float(p.fiducial), float(p.current_value), bool(p.is_free_parameter)) for n, p in c.params.items()},
                         {n: (p["fiducial"], p["current"], p["is_present"]) for n, p in pars.items()}, "parameters-of-a-first-release")
            else:
                P = c.power_spectrum
                ctx.same((P.z_grid, P.k_grid, P.lin_p_mm_z_k, P.nonlin_p_mm_z_k, P.transfer_function), (z, k, lin, non, transfer), "power-spectrum-of-a-first-release", version=version)
        # a comparison by a measure of one's own
        a, b = RunLoader(ctx.scratch()), RunLoader(ctx.scratch())
        a.dcls, b.dcls = {"p": {"phph": rng.normal(size=(2, 2, 2))}}, {"p": {"phph": rng.normal(size=(2, 2, 2))}}
        rc = RunComparison(metric_func=np.subtract)
        rc.rl1, rc.rl2 = a, b
        with ctx.op("measure-of-ones-own"):
            rc.evaluateMetricsAndTest()
            ctx.same(rc.metrics.dcls["p"]["phph"], a.dcls["p"]["phph"] - b.dcls["p"]["phph"], "measure-of-ones-own")
    for it in range(ctx.n(10, 60)):
        n, limit = int(rng.integers(1, 9)), 10.0 ** rng.integers(-8, -2)
        t = pd.DataFrame(rng.uniform(0, limit * .9, size=(n, n)) * 10.0 ** -rng.integers(0, 6, size=(n, n)))
        bad = bool(it % 2)
        if bad:
            t.iloc[int(rng.integers(n)), int(rng.integers(n))] = limit * float(rng.choice([1.01, 2, 1e3]))
        warned = _logged(lambda: ComparisonMetrics.checkPadsDict("fisher", {"one": t, "two": t * 0}, threshold=limit))
        ctx.same([any(" one " in w for w in warned), any(" two " in w for w in warned)], [bad, False], "verdict-on-one-element", limit=limit, largest=float(t.to_numpy().max()))
        ctx.case((it, ctx.round, n, bad))
        ctx.saw("verdict_one", bad)


# ------------------------------------------------------------------------------------------------ differences of spectra
def spectra(ctx):
    rng = ctx.rng
    for it in range(ctx.n(6, 60)):
        ni = int(rng.integers(1, 6))
        nj = ni if rng.random() < .5 else int(rng.integers(1, 6))
        nl = int(rng.integers(1, 7))
        x = rng.uniform(.5, 2, size=(nl, ni, nj)) * 10.0 ** rng.integers(-14, 0)
        y = x * (1 + rng.normal(size=x.shape) * .01)
        kx, ky = x.copy(), y.copy()
        where = dict(shape=x.shape)
        ctx.case((it, ctx.round, x.shape), where)
        with ctx.op("spectra", **where):
            d = ClDiff("wl", x, y, np.arange(nl))
            want = diff(x, y)
            ctx.close(d.cl_pad, want, "pads", rtol=1e-9, where=where)
            keep = np.array([[i <= j or ni != nj for j in range(nj)] for i in range(ni)])
            mean, std = np.where(keep, want.mean(axis=0), np.nan), np.where(keep, want.std(axis=0), np.nan)
            ctx.same(set(d.metrics), {"mean_PAD", "sigma_PAD"}, "metrics", where=where)
            for k, w in (("mean_PAD", mean), ("sigma_PAD", std)):
                g = np.asarray(d.metrics[k], float)
                ctx.check(np.array_equal(np.isnan(g), np.isnan(w)), "which-elements", where=where, metric=k)
                ctx.close(np.nan_to_num(g), np.nan_to_num(w), k, rtol=1e-9, atol=1e-12, where=where)
            ref = (x + y) / 2
            big = np.unravel_index(np.argmax(ref), ref.shape)
            ctx.same((int(d.i_max_ref), int(d.j_max_ref)), tuple(int(v) for v in big[1:]), "largest", where=where)
            rows = {(int(r["i"]), int(r["j"])): (r["mean_pad"], r["cl_order_of_mag"], r["|i-j|"]) for _, r in d.comp_df.iterrows()}
            ctx.same(set(rows), {(i, j) for i in range(ni) for j in range(nj) if keep[i, j]}, "rows", where=where)
            for (i, j), r in rows.items():
                ctx.close(r, (mean[i, j], ref[:, i, j].mean() / ref.max(), abs(i - j)), "row", rtol=1e-9, atol=1e-12, where=where, element=(i, j))
            out = ctx.scratch("w")
            d.writeMetricsToFiles(out)
            ctx.same({f.name for f in out.iterdir()}, {"wl_cl_mean_PAD.npy", "wl_cl_sigma_PAD.npy"}, "files", where=where)
            for k, w in (("mean_PAD", mean), ("sigma_PAD", std)):
                g = np.load(out / f"wl_cl_{k}.npy")
                ctx.check(np.array_equal(np.isnan(g), np.isnan(w)), "which-elements-in-file", where=where, metric=k)
                ctx.close(np.nan_to_num(g), np.nan_to_num(w), "file", rtol=1e-9, atol=1e-12, where=where, metric=k)
            if ctx.quick and it < 2 or not ctx.quick and it < 8:
                import matplotlib.pyplot as plt
                fig, ax = d.doPADHeatMap(outdir=out)
                texts = [t.get_text() for t in ax.texts]
                drawn = np.ma.filled(np.ma.masked_invalid(ax.collections[0].get_array()), np.nan).reshape(mean.shape)
                ctx.close(np.nan_to_num(drawn), np.nan_to_num(mean), "drawn", rtol=1e-9, where=where)
                ok = mean[~np.isnan(mean)]
                ctx.check(any(t == f"Mean: {ok.mean():.3f}\nMax: {ok.max():.3f}\nMin: {ok.min():.3f}" for t in texts), "summary", where=where, texts=texts)
                ctx.check((out / "mean_PAD_wl.png").is_file(), "figure-file", where=where)
                plt.close("all")
            cut = float(np.nanmedian(mean))
            d.cutOffMetrics(cut)
            for k, w in (("mean_PAD", mean), ("sigma_PAD", std)):
                g = np.asarray(d.metrics[k], float)
                ctx.check(np.array_equal(~np.isnan(g), np.nan_to_num(w, nan=np.inf) < cut), "cut", where=where, cut=cut, metric=k)
            ctx.check(np.array_equal(x, kx) and np.array_equal(y, ky), "spectra-changed", where=where)


SECTIONS = [percentages, loading, comparing, parts, spectra]
