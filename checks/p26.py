"""P26: a whole forecast gives the constraints its inputs imply, whatever the route, the interruptions and the external products."""
import ast
import contextlib
import itertools
import json
import pickle
import shutil
import sys
from pathlib import Path
from unittest import mock

import h5py
import numpy as np
import pandas as pd

from checks import p23
from checks.p07 import reference as stem_slope
from checks.p13 import _want_noise
from seyfert.cosmology.cosmology import Cosmology
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.main import cl_core, seyfert_core
from seyfert.utils import filesystem_utils as fsu
from vlib import crash, fisherlab, hdfstub, lsf, probes as pr, scripts, world
from vlib.core import REPO

PROPERTY = "P26"
LEVEL = "exploration"
RULE = ("whole forecasts of random small surveys through run_seyfert, through job_submitter with its real programs, and through a batch job; base matrices are "
        "compared with information computed here from spectra evaluated separately for each displaced parameter; forecasts are killed or failed at sampled lines, resumed and "
        "compared with uninterrupted ones; external products are altered to see them used; distinct = survey x route x interruption point")
ASSUMPTIONS = ["power spectra come from an external directory (no Boltzmann solver)", "spectra of one displaced cosmology evaluated on their own are right: P08-P12 decide them",
               "displacements are within the linear range or decided by P07's window rule"]
NEEDS = {"oracle.whole": 58, "oracle.interrupted": 60, "oracle.external": 40, "oracle.routes": 80, "base_matrices": 7, "interruptions": 7, "resumed": 5, "external_runs": 3}
FEW = ("wlwl", "phph", "spsp", "wlwl phph", "wlwl phph wlph", "wlph", "wlwl phph spsp wlph wlsp phsp", "phph spsp", "spsp wlph", "wlwl phph phsp")
SHORT = {"ph": 0, "sp": 1, "wl": 2, "vd": 3}


def _survey(ctx, base, small=False, void=None, own=None):
    rng = ctx.rng
    pool = ["w0", "wa", "Omm", "Omb", "h", "ns", "sigma8"]
    free = sorted(rng.choice(pool, size=1 if small else int(rng.integers(1, 4)), replace=False))
    probes = ["WL", "GCph", "GCsp"] + (["V"] if (rng.random() < .4 if void is None else void) and not small else [])
    s = world.Survey(base, probes=probes, n_bins={"WL": 2, "GCph": 2, "GCsp": 2, "V": 1} if small else {p: int(rng.integers(2, 4)) for p in world.LONG}, n_ell=8,
                     bases=(.02,) if small else tuple(sorted(rng.uniform(.005, .05, int(rng.integers(1, 3))))), free=free, free_ia=bool(rng.integers(2)) and not small,
                     f_sky=float(rng.uniform(.1, .9)), reduced=False, include_IA=True, offdiag=bool(rng.integers(2)))
    # a cross-correlation alone only knows the product of its two biases, a probe alone only sigma8 times its bias
    which = int(rng.integers(3)) if not small else 2
    s.cfg["probes"]["GCph"]["marginalize_bias_flag"] = which == 0 and "sigma8" not in free
    s.cfg["probes"]["GCsp"]["marginalize_bias_flag"] = which == 1 and "sigma8" not in free
    s.cfg["probes"]["V"]["marginalize_bias_flag"] = bool(rng.integers(2)) and "sigma8" not in free
    s.cfg["synthetic_opts"]["scenario"] = str(rng.choice(["optimistic", "pessimistic"]))
    if not small and (own or rng.random() < .5):
        _own_multipoles(ctx, s)
    if not small and (rng.random() < .4 if own is None else not own):
        _own_noise(ctx, s)
    s.z_grid, s.k_grid = np.linspace(.02, 2.5, 41), np.logspace(-4, 1, 60)
    s.write()
    s.write_power_spectra(s.base / "other" / "PowerSpectrum", s.forecast_config().phys_pars)
    return s


def _own_multipoles(ctx, s):
    """each probe up to a multipole of its own, on bins they share"""
    lims = np.geomspace(10, 1200, 9)
    grid = np.round(np.column_stack([(lims[1:] + lims[:-1]) / 2, np.diff(lims)]), 4)
    first = ctx.rng.random() < .7
    for p in s.probes:
        n = int(ctx.rng.integers(6, 9))
        np.savetxt(s.data / f"multipoles_{p}.txt", grid[:n] if first else grid[8 - n:])
        s.cfg["probes"][p]["ell_external_filename"] = f"multipoles_{p}.txt"
    ctx.saw("own_multipoles")


def _own_noise(ctx, s):
    """shot noise given by the user, of probes with themselves and with one another"""
    d = s.data / "shot_noise"
    d.mkdir()
    noise = {}
    longs = {p: world.LONG[p] for p in s.probes}
    for a, b in itertools.product(s.probes, repeat=2):
        m = 10 ** ctx.rng.uniform(-9, -8, size=(s.n_bins[a], s.n_bins[b])) * .01
        if a == b:
            m = (m + m.T) / 2 + np.diag(10 ** ctx.rng.uniform(-9, -8, size=s.n_bins[a]))
        noise[a, b] = m
    with h5py.File(d / "given.h5", "w") as hf:
        for (a, b), m in noise.items():
            m = m if a == b or (b, a) not in noise or list(s.probes).index(a) < list(s.probes).index(b) else noise[b, a].T
            noise[a, b] = m
            hf[f"{longs[a]}_{longs[b]}"] = m
    s.cfg["survey"]["shot_noise_file"] = "given.h5"
    s.given_noise = noise
    ctx.saw("own_noise")


def _args(s, workdir, **kw):
    t = s.task_files()
    return {"forecast_config": s.fcfg_file, "powerspectrum_config": t["PowerSpectrum"], "angular_config": t["Angular"], "derivative_config": t["Derivative"],
            "fisher_config": t["Fisher"], "input_data_dir": s.data, "workdir": workdir, "powerspectrum_dir": s.base / "other" / "PowerSpectrum", "angular_dir": None,
            "derivative_dir": None, **kw}


def _run_dir(s, name):
    run = s.base / name
    run.mkdir()
    return run


def _vectors():
    """name and observables of the data vectors a run evaluates, from the list the package installs"""
    lines = (fsu.fisher_aux_files_dir() / "selected_datavectors.txt").read_text().splitlines()
    out = [x.rpartition(": ") for x in lines if x.strip() and not x.startswith("#")]
    return [(n.strip(), ast.literal_eval(e)) for n, _, e in out]


def _entries(keys):
    return [(SHORT[k[:2]], SHORT[k[2:]]) for k in keys]


@contextlib.contextmanager
def _lists(ctx, void=False):
    """all data vectors and combinations are many: a few of them; voids are in none, some of theirs"""
    src = fsu.fisher_aux_files_dir()
    d = ctx.scratch("aux")
    for f in src.iterdir():
        shutil.copy(f, d / f.name)
    keep = [f"{n}: {e}" for n, e in _vectors() if " ".join(e) in FEW]
    if void:
        keep += ["[V]: ['vdvd']", "[WL+V]: ['wlwl', 'vdvd']", "[WL+V+XC(WL,V)]: ['wlwl', 'vdvd', 'wlvd']"]
    (d / "selected_datavectors.txt").write_text("# a few\n" + "\n".join(keep) + "\n")
    (d / "a_posteriori_fisher_combs.txt").write_text("[WL] + [GCph]\n[WL+GCph+XC(WL,GCph)] + [GCsp]\n")
    with mock.patch.object(fsu, "fisher_aux_files_dir", lambda *a, **k: d):
        yield


def _forecast(args, log):
    with hdfstub.pickled_hdf():
        seyfert_core.do_forecast(dict(args), log)


def _matrices(run):
    out = {}
    for f in (run / "base_fishers").glob("*.hdf5"):
        F = FisherMatrix.fromHDF5(f)
        m = F.matrix.sort_index().sort_index(axis=1)
        out[F.name] = (list(m.index), m.to_numpy(float), set(F.cosmological_parameters), set(F.nuisance_parameters))
    return out


def _tables(run):
    return {str(f.relative_to(run / "final_results")): pd.read_csv(f, index_col=0) for f in (run / "final_results").rglob("*.csv")}


def _tree(d):
    """every entry and its content, links not followed"""
    return {str(p.relative_to(d)): (p.read_bytes() if p.is_file() and not p.is_symlink() else None) for p in sorted(Path(d).rglob("*"))}


def _names(run):
    return {str(p.relative_to(run)) for p in run.rglob("*") if not p.name.startswith("logfile")}


def _same_matrices(ctx, got, want, code, where, rtol=1e-8):
    ctx.same(sorted(got), sorted(want), code + "-names", where=where)
    for n in want:
        if n not in got:
            continue
        ctx.same((got[n][0],) + got[n][2:], (want[n][0],) + want[n][2:], code + "-parameters", where=where, name=n)
        if got[n][0] == want[n][0]:
            d = np.sqrt(np.abs(np.diag(want[n][1])))
            ctx.close(got[n][1] / np.outer(d, d), want[n][1] / np.outer(d, d), code + "-matrix", atol=rtol, where=where, name=n)


def _same_tables(ctx, got, want, code, where, rtol=1e-6):
    ctx.same(sorted(got), sorted(want), code + "-tables", where=where)
    for n in set(got) & set(want):
        a, b = got[n].sort_index().sort_index(axis=1), want[n].sort_index().sort_index(axis=1)
        ctx.same((list(a.index), list(a.columns)), (list(b.index), list(b.columns)), code + "-table-labels", where=where, table=n)
        if a.shape == b.shape:
            x, y = a.select_dtypes("number").to_numpy(float), b.select_dtypes("number").to_numpy(float)
            ctx.check(x.shape == y.shape and bool(np.all(np.isclose(x, y, rtol=rtol, atol=0, equal_nan=True))), code + "-table", where=where, table=n)


# ------------------------------------------------------------------------------------------------ the reference
class Reference(fisherlab.Lab):
    """information of a survey from spectra evaluated one by one, in objects of their own"""

    def __init__(self, s):
        fc = s.forecast_config()
        par = fc.phys_pars
        self.fid = {n: float(p.fiducial) for n, p in par.items()}
        self.free = [n for n, p in par.items() if p.is_free_parameter]
        self.cosmo = [n for n in self.free if n in world.COSMO]
        self.probe_of = {n: par[n].probe for n in self.free if n not in world.COSMO}
        bases = sorted(s.cfg["derivative_settings"]["base_stem_disps"])
        fields = {d["name"]: d for d in s.cfg["cosmology"]["parameters"]}
        central = self.spectra(s, {}, None, 0)
        self.pairs = {k: (pr.LONG.index(k.split("_")[0]), pr.LONG.index(k.split("_")[1])) for k in central}
        self.idx = sorted({i for p in self.pairs.values() for i in p})
        self.nb = {}
        for k, (a, b) in self.pairs.items():
            self.nb[a], self.nb[b] = central[k][1].shape[1:]
        self.off = dict(zip(self.idx, np.cumsum([0] + [self.nb[i] for i in self.idx])))
        self.grids = {i: central[f"{pr.LONG[i]}_{pr.LONG[i]}"][0] for i in self.idx}
        self.base = sorted({l for g in self.grids.values() for l in g})
        width = {l: w for i in self.idx for l, w in zip(self.grids[i], central[f"{pr.LONG[i]}_{pr.LONG[i]}"][2])}
        self.ells = {k: [l for l in self.grids[a] if l in self.grids[b]] for k, (a, b) in self.pairs.items()}
        for k in central:
            assert list(central[k][0]) == self.ells[k] and list(central[k][2]) == [width[l] for l in self.ells[k]], k
        given = getattr(s, "given_noise", None)
        noise = {(a, b): given[pr.ALIAS[a], pr.ALIAS[b]] if given else _want_noise(s, pr.ALIAS[a], pr.ALIAS[b], False) for a in self.idx for b in self.idx}
        self.joint = self._joint(central)
        for l in self.base:
            for (a, b), m in noise.items():
                if m is not None:
                    self.sub(self.joint[l], a, b)[...] += m
            self.joint[l] /= np.sqrt(width[l] * s.cfg["survey"]["f_sky"])
        self.djoint, self.undecided = {}, False
        for n in self.free:
            f = self.fid[n]
            xs, cols = [f], [central]
            for k, b in enumerate(bases, 1):
                for sg in (1, -1):
                    eps = sg * b * (fields[n]["stem_factor"] if n in fields else float(par[n].stem_factor))
                    v = {n: f * (1 + eps) if f != 0 else eps}
                    if n == "Omm":
                        v["OmDE"] = 1 - v[n]
                    elif n == "OmDE":
                        v["Omm"] = 1 - v[n]
                    xs.append(v[n])
                    cols.append(self.spectra(s, v, n if n in world.COSMO else None, sg * k))
            der = {}
            for key in central:
                y = np.stack([c[key][1] for c in cols])
                flat = y.reshape(len(xs), -1)
                # an element which does not depend on the parameter but for rounding has no slope
                out = np.zeros(flat.shape[1])
                for e in range(flat.shape[1]):
                    r = stem_slope(np.array(xs), flat[:, e])
                    if r is None:
                        self.undecided = True
                    else:
                        out[e] = r[0]
                der[key] = (None, out.reshape(y.shape[1:]), None)
            self.djoint[n] = self._joint(der)

    def spectra(self, s, values, dvar, step):
        fc = s.forecast_config()
        par = fc.phys_pars
        for n, v in values.items():
            par[n].current_value = v
        d = s.base / "other" / "PowerSpectrum"
        name = "dvar_central_step_0" if dvar is None else f"dvar_{dvar}_step_{'p' if step > 0 else 'm'}_{abs(step)}"
        cosmo, fid = Cosmology.fromHDF5(d / name / "p_mm.h5"), Cosmology.fromHDF5(d / "dvar_central_step_0" / "p_mm.h5")
        dens = cl_core.compute_densities(fc.probe_configs, fid.z_grid)
        col = cl_core.compute_cls(cosmo, par, dens, fc, s.angular_config(), fiducial_cosmology=fid)
        return {k: (np.array(c.l_bin_centers), np.array(c.c_lij), np.array(c.l_bin_widths)) for k, c in col.cl_dict.items()}

    def _joint(self, spectra):
        tot = sum(self.nb.values())
        out = {l: np.zeros((tot, tot)) for l in self.base}
        for key, (a, b) in self.pairs.items():
            for q, l in enumerate(self.ells[key]):
                self.sub(out[l], a, b)[...] = spectra[key][1][q]
                if a != b:
                    self.sub(out[l], b, a)[...] = spectra[key][1][q].T
        return out

    def matrix(self, entries):
        inv = {pr.LONG[i] for e in entries for i in e}
        self.pars = sorted(self.cosmo + [n for n in self.free if n in self.probe_of and self.probe_of[n] in inv])
        return self.pars, self.fisher(entries)


def whole(ctx):
    for it in range(ctx.n(2, 6)):
        base = ctx.scratch("w")
        s = _survey(ctx, base / "survey", void=True if it + ctx.round == 0 else None, own=[True, False, None][min(it + 2 * ctx.round, 2)])
        ref = Reference(s)
        if ref.undecided:
            ctx.saw("undecided_survey")
        run = _run_dir(s, "run")
        where = dict(free=ref.free, probes=s.probes, bins=s.n_bins)
        ctx.case((it, ctx.round, tuple(ref.free), s.probes), where)
        log = base / "log.txt"
        log.write_text("log")
        with _lists(ctx, void="V" in s.probes), ctx.op("forecast", **where):
            _forecast(_args(s, run), log)
            vectors = _vectors()
            got = _matrices(run)
            ctx.same(len(got), len(vectors) + 1, "number-of-matrices", where=where, names=sorted(got))
            pk = [m for n, m in got.items() if n not in {v for v, _ in vectors}]
            names, want = p23.ist_pk(s.cfg["synthetic_opts"]["scenario"])
            for m in pk:
                ctx.same(m[0], sorted(names), "published-matrix-parameters", where=where)
                ctx.close(np.sort(m[1].ravel()), np.sort(want.ravel()), "published-matrix-of-the-scenario", rtol=1e-11, where=where)
            for name, keys in vectors:
                entries = _entries(keys)
                pars, want = ref.matrix(entries)
                g = got.get(name)
                ctx.check(g is not None, "matrix-missing", where=where, name=name, names=sorted(got))
                if g is None:
                    continue
                ctx.saw("base_matrices")
                ctx.same((g[0], g[2], g[3]), (pars, set(ref.cosmo), set(pars) - set(ref.cosmo)), "matrix-parameters", where=where, name=name)
                if g[0] == pars and not ref.undecided:
                    d = np.sqrt(np.diag(want))
                    ctx.close(g[1] / np.outer(d, d), want / np.outer(d, d), "forecast-information", atol=2e-5, where=where, name=name)
            ctx.check((run / "log.txt").is_file(), "log-kept", where=where)
            # again, in place: nothing changes
            before, tabs = _matrices(run), _tables(run)
            ctx.check(len(tabs) >= 6, "results-tables", where=where, tables=sorted(tabs))
            names = _names(run)
            _forecast(_args(s, run), log)
            _same_matrices(ctx, _matrices(run), before, "repeated", where, 1e-12)
            _same_tables(ctx, _tables(run), tabs, "repeated", where, 1e-12)
            ctx.same(_names(run), names, "repeated-files", where=where)


# ------------------------------------------------------------------------------------------------ interruptions
ONLY = ("seyfert_core", "fisher_core", "filesystem_utils", "final_results_core", "workspace", "redshift_density", "c_ells", "delta_cl", "hdf5_io", "cl_core", "cl_derivative_core")
COARSE = ("seyfert_core", "fisher_core", "filesystem_utils")


def interrupted(ctx):
    rng = ctx.rng
    for it in range(ctx.n(1, 4)):
        base = ctx.scratch("i")
        s = _survey(ctx, base / "survey", small=True)
        log = base / "log.txt"
        log.write_text("log")
        with _lists(ctx), ctx.op("interrupted-forecast"):
            whole_run = _run_dir(s, "whole")
            only = COARSE if it % 2 == 0 else ONLY
            count = [0]

            def once():
                _forecast(_args(s, whole_run), log)
            n, writing = crash.marks(once, only)
            want, tabs, names = _matrices(whole_run), _tables(whole_run), _names(whole_run)
            # anywhere, and where something is about to be written
            points = {int(x) for x in rng.integers(1, n + 1, size=ctx.n(6, 16))} | {int(x) for x in rng.choice(writing, size=min(len(writing), ctx.n(9, 32)), replace=False)}
            ctx.saw("interruptions_of_writes", len(points & set(writing)))
            points = [sorted(points)[k] for k in rng.permutation(len(points))]
            for q, k in enumerate(points):
                run = _run_dir(s, f"run_{q}")
                args = _args(s, run)
                kind = ("die", "fail", "twice")[q % 3]
                where = dict(point=k, of=n, kind=kind, only=len(only), free=s.cfg["cosmology"] and [p["name"] for p in s.cfg["cosmology"]["parameters"] if p["is_free_parameter"]])
                ctx.case((it, ctx.round, k, kind), where)
                ctx.saw("interruptions")
                if kind == "fail":
                    list(crash.faults(lambda: _forecast(args, log), [k], only))
                else:
                    crash.crash_at(lambda: _forecast(args, log), k, only)
                    if kind == "twice":
                        crash.crash_at(lambda: _forecast(args, log), int(rng.integers(1, n // 2 + 2)), only)
                        ctx.saw("interruptions")
                _forecast(args, log)
                ctx.saw("resumed")
                _same_matrices(ctx, _matrices(run), want, "resumed", where, 1e-10)
                _same_tables(ctx, _tables(run), tabs, "resumed", where, 1e-7)
                ctx.same(_names(run), names, "resumed-files", where=where)


# ------------------------------------------------------------------------------------------------ external products
def external(ctx):
    rng = ctx.rng
    for it in range(ctx.n(1, 5)):
        base = ctx.scratch("e")
        s = _survey(ctx, base / "survey", small=True)
        log = base / "log.txt"
        log.write_text("log")
        with _lists(ctx), ctx.op("forecast-with-external-products"):
            first = _run_dir(s, "first")
            _forecast(_args(s, first), log)
            want = _matrices(first)
            lam = float(rng.uniform(1.5, 3))
            for what in (("Angular",), ("Derivative",), ("Angular", "Derivative")):
                ext = base / "_".join(what)
                ext.mkdir()
                for t in what:
                    shutil.copytree(first / t, ext / t)
                where = dict(external=what, factor=lam)
                ctx.case((it, ctx.round, what), where)
                for alter in (False, True):
                    if alter and "Derivative" in what:
                        f = ext / "Derivative" / "cl_ders.pickle"
                        ders = pickle.loads(f.read_bytes())
                        for col in ders.values():
                            for d in col.dcl_dict.values():
                                d.dc_lij = d.dc_lij * lam
                        f.write_bytes(pickle.dumps(ders))
                    if alter and what == ("Angular",):
                        f = next((ext / "Angular" / "dvar_central_step_0").glob("*.h5"))
                        if (it + ctx.round) % 2 == 0:
                            f = f.rename(f.with_name("cl_of_another_name.h5"))
                        with h5py.File(f, "a") as hf:
                            hf.visititems(lambda n, o: o.__setitem__(..., o[()] * 1e9) if isinstance(o, h5py.Dataset) and n.endswith("c_lij") else None)
                    keep = {t: _tree(ext / t) for t in what}
                    run = _run_dir(s, f"{'_'.join(what)}_{alter}")
                    relative = rng.random() < .5
                    _forecast(_args(s, run, angular_dir=ext / "Angular" if "Angular" in what else None, derivative_dir=ext / "Derivative" if "Derivative" in what else None), log)
                    ctx.saw("external_runs")
                    for t in what:
                        ctx.same({k for k in _tree(ext / t)}, set(keep[t]), "external-directory-files", where=where, task=t)
                        ctx.check(_tree(ext / t) == keep[t], "external-directory-modified", where=where, task=t)
                        ctx.check((run / t).is_symlink() and (run / t).samefile(ext / t), "external-directory-not-linked", where=where, task=t)
                    got = _matrices(run)
                    if not alter:
                        _same_matrices(ctx, got, want, "external", where, 1e-9)
                    elif "Derivative" in what:
                        scaled = {n: (p, m * (1 if "Pk" in n else lam ** 2), c, u) for n, (p, m, c, u) in want.items()}
                        _same_matrices(ctx, got, scaled, "external-derivatives-unused", where, 1e-8)
                    else:
                        # spectra far above noise: the information does not depend on the survey's densities, and is far from the first one
                        for n in want:
                            if "Pk" not in n and got.get(n):
                                ctx.check(not np.allclose(got[n][1], want[n][1], rtol=1e-3), "external-spectra-unused", where=where, name=n)


# ------------------------------------------------------------------------------------------------ routes
class RealPrograms:
    """the scripts of the repository on a PATH, each in a process of its own"""

    def __init__(self, base):
        self.dir = Path(base) / "real"
        self.dir.mkdir()
        site = Path(base) / "site"
        site.mkdir()
        here = Path(__file__).resolve().parent.parent
        try:
            import tables  # noqa: F401
        except ImportError:
            (site / "sitecustomize.py").write_text(
                f"import sys\nsys.path.append({str(here)!r})\nfrom vlib import hdfstub\nkept = hdfstub.pickled_hdf()\nkept.__enter__()\n")
        for f in (Path(REPO) / "bin").iterdir():
            if f.is_file():
                w = self.dir / f.name
                w.write_text(f"#!/bin/bash\nexport PYTHONPATH='{site}:{REPO}'\nexec '{sys.executable}' -W ignore '{f}' \"$@\"\n")
                w.chmod(0o755)

    @contextlib.contextmanager
    def on_path(self, **env):
        import os
        with mock.patch.dict(os.environ, {"PATH": f"{self.dir}:/usr/bin:/bin", **{k: str(v) for k, v in env.items()}}):
            os.environ.pop("VIRTUAL_ENV", None)
            yield


def routes(ctx):
    if ctx.quick and ctx.round > 0:
        return
    for it in range(ctx.n(1, 1)):
        base = ctx.scratch("r")
        s = _survey(ctx, base / "survey", small=True)
        real = RealPrograms(base)
        t = s.task_files()
        where = dict(free=[p["name"] for p in s.cfg["cosmology"]["parameters"] if p["is_free_parameter"]])
        ctx.case((it, ctx.round, tuple(where["free"])), where)
        opts = ["-i", s.data, "-fcfg", s.fcfg_file] + [x for n in ("PowerSpectrum", "Angular", "Derivative", "Fisher") for x in (f"--{n.lower()}_config", t[n])] + \
               ["--powerspectrum_dir", s.base / "other" / "PowerSpectrum"]
        runs = {}
        with ctx.op("routes", **where):
            # one process
            one = base / "one"
            one.mkdir()
            with real.on_path(SEYFERT_INPUT_DATA=s.data), hdfstub.pickled_hdf():
                scripts.run("run_seyfert", ["-ex", "interactive", "-wd", one] + opts, one)
            runs["one"] = [d for d in one.iterdir() if d.is_dir()]
            # a process per job
            many = base / "many"
            many.mkdir()
            with real.on_path(SEYFERT_INPUT_DATA=s.data), hdfstub.pickled_hdf():
                scripts.run("job_submitter", ["-ex", "interactive"] + opts + ["--angular", "--derivative", "--fisher"], many)
            runs["many"] = [d for d in many.iterdir() if d.is_dir()]
            # a batch job
            batch = base / "batch"
            batch.mkdir()
            lsf.Scheduler(base, real.dir, execute=True)
            clock = lsf.Clock()
            with real.on_path(SEYFERT_INPUT_DATA=s.data), mock.patch("time.sleep", clock.sleep), hdfstub.pickled_hdf():
                scripts.run("run_seyfert", ["-ex", "batch", "-q", "long", "-mem", 900, "-ncj", 2, "-wd", batch] + opts, batch)
            runs["batch"] = [d for d in batch.iterdir() if d.is_dir()]
            ctx.same({k: len(v) for k, v in runs.items()}, {k: 1 for k in runs}, "one-run-directory", where=where)
            mats = {k: _matrices(v[0]) for k, v in runs.items()}
            tabs = {k: _tables(v[0]) for k, v in runs.items()}
            ctx.check(len(mats["one"]) > 25 and len(tabs["one"]) >= 6, "results-of-the-run", where=where, matrices=sorted(mats["one"]), tables=sorted(tabs["one"]))
            ref = Reference(s)
            for name, keys in _vectors():
                entries = _entries(keys)
                pars, want = ref.matrix(entries)
                g = mats["one"].get(name)
                ctx.check(g is not None and g[0] == pars, "matrix-missing", where=where, name=name)
                if g is not None and g[0] == pars:
                    d = np.sqrt(np.diag(want))
                    ctx.close(g[1] / np.outer(d, d), want / np.outer(d, d), "forecast-information", atol=2e-5, where=where, name=name)
            for k in ("many", "batch"):
                _same_matrices(ctx, mats[k], mats["one"], "route-" + k, where, 1e-6)
                _same_tables(ctx, tabs[k], tabs["one"], "route-" + k, where, 1e-4)


def several(ctx):
    """one run for several surveys: each forecast in a directory of its own, with its own configuration and the settings of the run"""
    rng = ctx.rng
    for it in range(ctx.n(4, 20)):
        base = ctx.scratch("n")
        s = _survey(ctx, base / "survey", small=True)
        files = [base / f"survey_{k}.json" for k in range(int(rng.integers(1, 5)))]
        for f in files:
            shutil.copy(s.fcfg_file, f)
        t = s.task_files()
        work = base / "work"
        work.mkdir()
        job = bool(it % 4 == 3)
        got = []

        def forecast(args, log):
            got.append(dict(args))
            Path(args["workdir"], "x").write_text("")
        where = dict(files=len(files), batch_job=job)
        ctx.case((it, ctx.round, len(files), job), where)
        with ctx.op("several-forecasts", **where), mock.patch.object(seyfert_core, "do_forecast", forecast), mock.patch.dict("os.environ", SEYFERT_INPUT_DATA=str(s.data)):
            scripts.run("run_seyfert", ["-ex", "interactive", "-wd", work, "-i", s.data, "--angular_config", t["Angular"], "--angular_dir", base, "-fcfg", *(files[:1] if job else files)]
                        + (["--is_batch_job"] if job else []), base)
        ctx.same([Path(a["forecast_config"]).resolve() for a in got], [f.resolve() for f in (files[:1] if job else files)], "each-survey-once", where=where)
        ctx.same([(Path(a["angular_config"]), Path(a["angular_dir"]), Path(a["input_data_dir"]), a["derivative_dir"]) for a in got],
                 [(t["Angular"], base, s.data, None)] * len(got), "settings-of-the-run", where=where)
        dirs = [Path(a["workdir"]).resolve() for a in got]
        if job:
            ctx.same(dirs, [work.resolve()], "directory-of-the-job", where=where)
        else:
            ctx.check(len(set(dirs)) == len(dirs) and all(d.parent == work.resolve() and f.stem in d.name for d, f in zip(dirs, files)), "directory-of-each", where=where, dirs=dirs)
        ctx.saw("several", len(got))


SECTIONS = [whole, interrupted, external, routes, several]
