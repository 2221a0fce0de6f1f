"""Stand-ins of the Boltzmann solvers: the interface of camb and classy over closed-form spectra, and the same spectra from the
cosmological parameters of the survey by this file's own translation."""
from pathlib import Path
from types import SimpleNamespace

import numpy as np

K_CAMB = None


def amplitude(x):
    """sigma8 / sqrt(1e9 As) of the invented universe"""
    return np.exp(.3 * (x["h"] - .7) + .9 * (x["omch2"] - .12) - 2.1 * (x["ombh2"] - .022) - 3.3 * x["omnuh2"] + .11 * (x["w"] + 1) + .07 * x["wa"]
                  + .21 * (x["ns"] - .96) + .4 * x["omk"]) * .57


def shape(k, z, x):
    """linear spectrum over 1e9 As, in Mpc^3, k in 1/Mpc"""
    k, z = np.asarray(k, float)[None, :], np.asarray(z, float)[:, None]
    grow = (1 + z) ** (-2 * (.8 + .1 * (x["w"] + 1) + .05 * x["wa"] + .2 * x["omk"] + .3 * x["omch2"]))
    keq = .02 * (x["omch2"] + x["ombh2"]) / .14 * (1 - x["omnuh2"]) / (1 + .1 * (x["h"] - .7))
    return 2e4 * grow * (k / .05) ** x["ns"] / (1 + (k / keq) ** 2) ** 1.6 * (1 + x["ombh2"])


def boost(k, z, x):
    return 1 + (np.asarray(k)[None, :] / (.2 + x["omnuh2"])) ** 1.2 / (1 + np.asarray(z)[:, None])


def translate(c):
    """what the solver has to be given, from the definition of the density parameters"""
    h2 = c["h"] ** 2
    nu = c["mnu"] / 93.14
    return {"h": c["h"], "w": c["w0"], "wa": c["wa"], "ns": c["ns"], "ombh2": c["Omb"] * h2, "omnuh2": nu, "omch2": (c["Omm"] - c["Omb"]) * h2 - nu,
            "omk": 1 - c["Omm"] - c["OmDE"]}


def spectra(k, z, c):
    """linear and nonlinear spectra of a cosmology of the survey"""
    x = translate(c)
    lin = (c["sigma8"] / amplitude(x)) ** 2 * shape(k, z, x)
    return lin, lin * boost(k, z, x)


def camb_k(kmax, per):
    n = max(3, int(per * np.log(kmax / 1e-4)))
    return np.geomspace(1e-4, kmax, n)


# ------------------------------------------------------------------------------------------------ camb
class CambError(Exception):
    pass


class _Params:
    def __init__(self, entries):
        self.entries = entries
        self.redshifts = None
        self.NonLinear = "pk" if int(float(entries.get("do_nonlinear", 0))) else "none"

    def set_matter_power(self, redshifts=(0.,), kmax=1.2, k_per_logint=None, nonlinear=None, accurate_massive_neutrino_transfers=False, silent=False):
        self.redshifts = np.sort(np.asarray(redshifts, float))
        self.kmax, self.per = float(kmax), k_per_logint or 10
        if len(self.redshifts) > 150:
            raise CambError("too many redshifts")
        if nonlinear is not None:
            self.NonLinear = "pk" if nonlinear else "none"
        return self

    def x(self):
        e = {k: float(self.entries[k]) for k in ("hubble", "w", "wa", "ombh2", "omch2", "omnuh2", "omk", "scalar_spectral_index", "scalar_amp")}
        return {"h": e["hubble"] / 100, "ns": e["scalar_spectral_index"], **e}


class _Results:
    def __init__(self, log, params):
        self.log, self.p = log, params

    def _power(self, params, hubble_units, k_hunit, nonlinear):
        p = params or self.p
        x = p.x()
        k = camb_k(p.kmax, p.per)
        P = 1e9 * x["scalar_amp"] * shape(k, p.redshifts, x)
        if nonlinear:
            P = P * boost(k, p.redshifts, x)
        self.log.append(("nonlinear" if nonlinear else "linear", tuple(p.redshifts), dict(p.entries)))
        return (k / x["h"] if k_hunit else k), p.redshifts.copy(), (P * x["h"] ** 3 if hubble_units else P)

    def get_linear_matter_power_spectrum(self, var1=None, var2=None, hubble_units=True, k_hunit=True, have_power_spectra=True, params=None, nonlinear=False):
        return self._power(params, hubble_units, k_hunit, nonlinear)

    def get_nonlinear_matter_power_spectrum(self, var1=None, var2=None, hubble_units=True, k_hunit=True, have_power_spectra=True, params=None):
        return self._power(params, hubble_units, k_hunit, True)

    def get_sigma8_0(self):
        if self.p.redshifts[0] != 0:
            raise CambError("sigma8 today without redshift 0")
        x = self.p.x()
        self.log.append(("sigma8", tuple(self.p.redshifts), dict(self.p.entries)))
        return float(np.sqrt(1e9 * x["scalar_amp"]) * amplitude(x))

    def get_matter_transfer_data(self):
        k = camb_k(self.p.kmax, self.p.per)
        d = np.stack([(i + 1) * np.sqrt(shape(k, self.p.redshifts[::-1], self.p.x()).T) for i in range(13)])
        return SimpleNamespace(transfer_data=d)


def camb_module(log):
    """what the solver uses of camb; camb itself gives the constants"""
    import camb

    def read_ini(file, no_validate=False):
        entries = {}
        for line in Path(file).read_text().splitlines():
            line = line.strip()
            if line and not line.startswith("#") and "=" in line:
                k, v = line.split("=", 1)
                entries[k.strip()] = v.strip()
        if not entries:
            raise CambError(f"no parameters in {file}")
        return _Params(entries)

    return SimpleNamespace(read_ini=read_ini, get_background=lambda p, no_thermo=False: _Results(log, p), get_results=lambda p: _Results(log, p), model=camb.model,
                           __version__=camb.__version__)


# ------------------------------------------------------------------------------------------------ classy
class ClassError(Exception):
    pass


def class_type(log):
    class Class:
        def __init__(self, default=False):
            self.pars, self.done = {}, False

        def set(self, *a, **kw):
            for d in a:
                self.pars.update(d)
            self.pars.update(kw)
            return True

        def compute(self, level=None):
            if "mPk" not in self.pars.get("output", ""):
                raise ClassError("no matter power asked for")
            self.done = True
            log.append(("class", dict(self.pars)))

        def _power(self, k, z, nonlinear):
            p = self.pars
            if not self.done:
                raise ClassError("compute first")
            if k > float(p["P_k_max_1/Mpc"]) * (1 + 1e-6) or z > float(p["z_max_pk"]) * (1 + 1e-9) or z < 0:
                raise ClassError("out of range")
            h2 = float(p["h"]) ** 2
            x = {"h": float(p["h"]), "w": float(p["w0_fld"]), "wa": float(p["wa_fld"]), "ns": float(p["n_s"]), "ombh2": float(p["Omega_b"]) * h2,
                 "omnuh2": float(p["m_ncdm"]) / 93.14, "omch2": float(p["Omega_cdm"]) * h2, "omk": float(p["Omega_k"])}
            P = (float(p["sigma8"]) / amplitude(x)) ** 2 * shape([k], [z], x)
            if nonlinear and str(p.get("non linear", p.get("non_linear", ""))).lower() in ("halofit", "hmcode"):
                P = P * boost([k], [z], x)
            return float(P[0, 0])

        def pk_lin(self, k, z):
            return self._power(k, z, False)

        def pk(self, k, z):
            return self._power(k, z, True)

        def struct_cleanup(self):
            self.done = False

        def empty(self):
            self.pars = {}
    return Class
