"""Synthetic survey and universe: input files written by an independent writer, and the closed forms they encode.

Nothing here imports the code under test at module level, so that reference values do not depend on it.
"""
import copy
import json
from pathlib import Path

import h5py
import numpy as np

LONG = {"WL": "Lensing", "GCph": "PhotometricGalaxy", "GCsp": "SpectroscopicGalaxy", "V": "Void"}
C_KMS = 299792.458
COSMO = dict(h=0.67, w0=-1.0, wa=0.0, OmDE=0.68, Omm=0.32, Omb=0.05, ns=0.96, sigma8=0.816, mnu=0.06, gamma=0.55)


# ------------------------------------------------------------------ background (independent)
def E_of_z(z, c):
    z = np.asarray(z, float)
    return np.sqrt(c["Omm"] * (1 + z) ** 3 + c["OmDE"] * (1 + z) ** (3 * (1 + c["w0"] + c["wa"])) *
                   np.exp(-3 * c["wa"] * z / (1 + z)) + (1 - c["Omm"] - c["OmDE"]) * (1 + z) ** 2)


_GLX, _GLW = np.polynomial.legendre.leggauss(96)


def r_tilde(z, c):
    z = np.atleast_1d(np.asarray(z, float))
    x = z[:, None] * (_GLX[None, :] + 1) / 2
    return (1 / E_of_z(x, c)) @ _GLW * z / 2


def comoving(z, c):
    return C_KMS / (100 * c["h"]) * r_tilde(z, c)


# ------------------------------------------------------------------ matter spectrum (invented, smooth, parameter dependent)
def growth(z, c):
    return (1 + np.asarray(z, float)) ** (-(0.6 + c["gamma"] * c["Omm"] * (1 + .2 * (c["w0"] + 1) + .1 * c["wa"])))


def pmm(z, k, c):
    z, k = np.asarray(z, float), np.asarray(k, float)
    keq = 0.02 * (c["Omm"] / .32) * (c["h"] / .67) * (1 - c["Omb"])
    shape = c["sigma8"] ** 2 * 3e4 * (k / .05) ** c["ns"] / (1 + (k / keq) ** 2) ** (c["ns"] / 2 + .75)
    lin = growth(z, c)[:, None] ** 2 * shape[None, :]
    non = lin * (1 + (k / .3)[None, :] ** 1.1 / (1 + z)[:, None] * (1 - .2 * c["mnu"]))
    return lin, non


def write_cosmology_file(path, z_grid, k_grid, c, params=None, growth_factor=False, evaluated=False, flat=True):
    """p_mm.h5 in the documented layout; params: {name: dict of parameter fields}"""
    lin, non = pmm(z_grid, k_grid, c)
    path = Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    with h5py.File(path, "w") as hf:
        g = hf.create_group("cosmology")
        g.attrs["is_flat"] = flat
        g.attrs["cosmological_model"] = "CPL"
        g["z_grid"] = z_grid
        if evaluated:
            g["dimensionless_hubble_array"] = E_of_z(z_grid, c)
            g["dimensionless_comoving_distance_array"] = r_tilde(z_grid, c)
        if growth_factor:
            g["growth_factor_z"] = growth(z_grid, c) / growth(z_grid[:1], c)
        pg = g.create_group("cosmological_parameters")
        for n, fields in (params or cosmo_params(c)).items():
            a = pg.create_group(n).attrs
            for k, v in fields.items():
                if v is not None:
                    a[k] = v
        p = hf.create_group("power_spectrum")
        p.attrs["boltzmann_code"] = "CLASS"
        p["z_grid"], p["k_grid"], p["lin_p_mm_z_k"], p["nonlin_p_mm_z_k"] = z_grid, k_grid, lin, non


def cosmo_params(c, free=("h", "w0", "wa", "Omm", "Omb", "ns", "sigma8"), fid=None):
    fid = fid or c
    return {n: dict(name=n, fiducial=float(fid[n]), current_value=float(c[n]), kind="CosmologicalParameter",
                    is_free_parameter=n in free, stem_factor=7.0 if n == "mnu" else 1.0, derivative_method="SteM")
            for n in COSMO}


# ------------------------------------------------------------------ densities and biases
def dndz(z, z0=.9, amp=3.5e8):
    z = np.asarray(z, float)
    return amp * z ** 2 * np.exp(-(z / z0) ** 1.5)


RESPONSE = dict(c_b=1.0, c_o=1.0, f_out=.1, sigma_b=.05, sigma_o=.05, z_b=0.0, z_o=.1)


def write_density(path, probe, edges, z_dom=None, resp=None, z0=.9, amp=3.5e8, f_sky=1 / 3, niz=None, dN=None, root="/"):
    edges = np.asarray(edges, float)
    path = Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    if z_dom is None:
        z_dom = np.linspace(.001, 3.0, 400)
    with h5py.File(path, "w") as hf:
        r = hf.require_group(root)
        r.attrs["probe"] = probe
        r["has_niz_from_input"] = niz is not None
        r["input_z_domain"] = z_dom
        r["z_bin_edges"] = edges
        r["catalog_f_sky"] = float(f_sky)
        if niz is None:
            r["input_dN_dz_dOmega"] = dndz(z_dom, z0, amp)
            g = r.create_group("instrument_response")
            for k, v in (resp or RESPONSE).items():
                g[k] = float(v)
        else:
            r["input_n_iz"] = niz
            r["dN_dOmega_bins"] = dN


def write_bias(path, probe, edges, model, nuis, extra=None):
    path = Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    with h5py.File(path, "w") as hf:
        hf.attrs["probe"] = probe
        hf["z_bin_edges"] = np.asarray(edges, float)
        g = hf.create_group("bias_model")
        g.attrs["model_name"] = model
        a = g.create_group("additional_parameters")
        for k, v in (extra or {}).items():
            a[k] = v
        n = g.create_group("nuisance_parameters")
        for k, v in nuis.items():
            n[k] = float(v)


def gauss_niz(z_dom, edges, width=.12):
    c = (edges[1:] + edges[:-1]) / 2
    n = np.exp(-.5 * ((z_dom[None, :] - c[:, None]) / width) ** 2)
    return n / np.trapz(n, z_dom, axis=1)[:, None]


# ------------------------------------------------------------------ a survey on disk
class Survey:
    """input data directory + forecast configuration of a small survey"""

    def __init__(self, base, probes=("WL", "GCph", "GCsp"), n_bins=None, n_ell=5, l_range=(10, 800), bias="piecewise",
                 bases=(0.00625, 0.0125, 0.01875, 0.025, 0.0375, 0.05, 0.1), free=("w0", "Omm", "sigma8"), niz=True,
                 marginalize=True, offdiag=True, reduced=False, include_IA=True, f_sky=.36, l_ranges=None, void_bias="fiducial_growth_void",
                 shot_noise_file=None, free_ia=True, width=.12):
        self.base = Path(base)
        self.data = self.base / "input_data"
        self.data.mkdir(parents=True, exist_ok=True)
        self.probes = tuple(probes)
        n_bins = n_bins or {}
        self.n_bins = {p: n_bins.get(p, 2) for p in LONG}
        self.edges = {"WL": np.linspace(.1, 2.2, self.n_bins["WL"] + 1), "GCph": np.linspace(.1, 2.2, self.n_bins["GCph"] + 1),
                      "GCsp": np.linspace(.9, 1.8, self.n_bins["GCsp"] + 1), "V": np.linspace(.3, 2., self.n_bins["V"] + 1)}
        z_dom = np.linspace(.001, 3.0, 300)
        cfg = {"metadata": {}, "synthetic_opts": {"scenario": "optimistic", "n_sp_bins": self.n_bins["GCsp"],
                                                  "shot_noise_sp_reduced": reduced, "gcph_minus_gcsp": False},
               "survey": {"f_sky": f_sky, "shot_noise_file": shot_noise_file},
               "cosmology": {"model_name": "CPL", "flat": True, "parameters": list(cosmo_params(COSMO, free).values())},
               "probes": {}, "derivative_settings": {"base_stem_disps": list(bases)}}
        self.bias_pars = {}
        for p in LONG:
            e = self.edges[p]
            f = f"{p.lower()}_dndz.h5"
            if niz:
                dN = 1e7 * (1 + np.arange(len(e) - 1))
                write_density(self.data / f, LONG[p], e, z_dom=z_dom, niz=gauss_niz(z_dom, e, width), dN=dN)
            else:
                write_density(self.data / f, LONG[p], e, z_dom=z_dom, z0=.9 if p != "GCsp" else 1.2)
            lo, hi = (l_ranges or {}).get(p, l_range)
            d = dict(long_name=LONG[p], presence_flag=p in self.probes, ell_external_filename=None, l_min=lo, l_max=hi,
                     ell_log_selection=True, log_l_number=n_ell, density_file=f, specific_settings={})
            if p == "WL":
                d["specific_settings"] = {"include_IA": include_IA}
                d["extra_nuisance_parameters"] = [
                    dict(name=n, fiducial=v, current_value=v, kind="NuisanceParameter", is_free_parameter=free_ia and n in ("aIA", "etaIA"),
                         stem_factor=1.0, derivative_method="SteM", probe="Lensing")
                    for n, v in (("aIA", 1.72), ("cIA", .0134), ("etaIA", -.41), ("betaIA", 2.17))]
            else:
                tag = {"GCph": "bgph", "GCsp": "bgsp", "V": "voidbias"}[p]
                model = void_bias if p == "V" else bias
                if p == "V":
                    nuis = {"voidbias0": -4.83}
                    d["specific_settings"] = {"void_kcut_invMpc": .35, "void_kcut_width_invMpc": .1}
                else:
                    nuis = {f"{tag}{i}": 1.1 + .13 * i for i in range(len(e) - 1)}
                if p == "GCsp":
                    d["specific_settings"] = {"compute_gcsp_cl_offdiag": offdiag}
                write_bias(self.data / f"{p.lower()}_bias.h5", LONG[p], e, model, nuis)
                d.update(bias_file=f"{p.lower()}_bias.h5", bias_derivative_method="SteM", marginalize_bias_flag=marginalize,
                         extra_nuisance_parameters=[])
                self.bias_pars[p] = nuis
            cfg["probes"][p] = d
        self.cfg = cfg
        self.fcfg_file = self.base / "forecast_config.json"
        self.write()
        self.z_grid = np.linspace(.02, 2.5, 61)
        self.k_grid = np.logspace(-4.5, 1.5, 120)

    def write(self):
        self.fcfg_file.write_text(json.dumps(self.cfg, indent=1))

    def forecast_config(self, load=True):
        from seyfert.config.forecast_config import ForecastConfig
        return ForecastConfig(input_file=self.fcfg_file, input_data_dir=self.data, load_phys_params=load)

    def angular_config(self, cl="simpson", eff="simpson", kx=3, ky=3):
        from seyfert.config.main_config import AngularConfig
        f = self.base / "angular_config.json"
        f.write_text(json.dumps({"cl_integration_settings": {"lensing_efficiency": eff, "cl": cl},
                                 "limber_pmm_spline_settings": {"kx": kx, "ky": ky, "s": 0}}))
        return AngularConfig(json_input=f)

    def task_files(self):
        from seyfert.utils import filesystem_utils as fsu
        self.angular_config()
        cfgdir = fsu.config_files_dir()
        return {"forecast": self.fcfg_file, "PowerSpectrum": cfgdir / "power_spectrum_config.json",
                "Angular": self.base / "angular_config.json", "Derivative": cfgdir / "derivative_config.json",
                "Fisher": cfgdir / "fisher_config.json"}

    def make_workspace(self, run_dir, pmm=False):
        from seyfert.utils.workspace import WorkSpace
        run_dir = Path(run_dir)
        run_dir.mkdir(parents=True, exist_ok=True)
        ws = WorkSpace(run_dir)
        fcfg = self.forecast_config()
        ws.createInputFilesDir(self.task_files(), fcfg.phys_pars, self.data)
        if pmm:
            self.write_power_spectra(run_dir / "PowerSpectrum", fcfg.phys_pars)
        return ws

    def write_power_spectra(self, pmm_dir, phys_pars):
        """every cosmology of the derivative plan, written by this file's own writer and displacement rule"""
        pmm_dir = Path(pmm_dir)
        fid = {n: phys_pars[n].fiducial for n in COSMO}
        pars = {n: dict(phys_pars[n].to_dict()) for n in COSMO}

        def put(name, c):
            p = copy.deepcopy(pars)
            for n in c:
                p[n]["current_value"] = float(c[n])
            write_cosmology_file(pmm_dir / name / "p_mm.h5", self.z_grid, self.k_grid, c, params=p)

        put("dvar_central_step_0", fid)
        bases = sorted(self.cfg["derivative_settings"]["base_stem_disps"])
        for d in self.cfg["cosmology"]["parameters"]:
            if not d["is_free_parameter"]:
                continue
            n, f = d["name"], d["fiducial"]
            for k, b in enumerate(bases, 1):
                for sgn, s in ((1, "p"), (-1, "m")):
                    eps = sgn * b * d["stem_factor"]
                    c = dict(fid)
                    c[n] = f * (1 + eps) if f != 0 else eps
                    if n == "Omm":
                        c["OmDE"] = 1 - c[n]
                    elif n == "OmDE":
                        c["Omm"] = 1 - c[n]
                    put(f"dvar_{n}_step_{s}_{k}", c)
