"""P27: matter power spectra are those of the cosmology asked for, whichever solver gives them and wherever they are asked for."""
import json
from pathlib import Path
from unittest import mock

import numpy as np

import seyfert.cosmology.boltzmann_solver as bs
from seyfert.config.main_config import PowerSpectrumConfig
from seyfert.cosmology.cosmology import Cosmology
from seyfert.cosmology.parameter import PhysicalParameter
from seyfert.cosmology.power_spectrum import PowerSpectrum
from seyfert.main import cl_core
from vlib import boltz, crash, scripts, world

PROPERTY = "P27"
LEVEL = "exploration"
RULE = ("random cosmologies (curved ones and massive neutrinos included) through the real solver classes over stand-ins of camb and classy with closed-form spectra, and over the real "
        "camb; the real power spectrum job for every displaced parameter of random surveys, killed at sampled lines; spectra evaluated in process; distinct = cosmology x grid x solver")
ASSUMPTIONS = ["the stand-ins answer as camb and classy do in the calls the code makes", "classy is not installed: only its stand-in is run"]
NEEDS = {"oracle.solvers": 100, "oracle.real_camb": 4, "oracle.jobs": 60, "oracle.in_process": 4, "oracle.interactive": 10, "groups": 3, "fine_tuned": 7, "crashes": 4}

LEAN = """# a run with nothing but matter power
get_scalar_cls = F
get_vector_cls = F
get_tensor_cls = F
get_transfer = T
do_lensing = F
do_nonlinear = 1
hubble = 70
# ombh2 = 7
ombh2 = 0.03
omch2 = 0.1
omnuh2 = 0.01
omk = 0.2
dark_energy_model = ppf
w = -0.5
cs2_lam = 1
wa = 0.3
temp_cmb = 2.7255
helium_fraction = 0.2454
massless_neutrinos = 2.046
nu_mass_eigenstates = 1
massive_neutrinos = 1
share_delta_neff = T
nu_mass_fractions = 1
initial_power_num = 1
pivot_scalar = 0.05
pivot_tensor = 0.05
scalar_amp = %s
scalar_spectral_index = 0.8
reionization = T
re_use_optical_depth = T
re_optical_depth = 0.058
initial_condition = 1
transfer_high_precision = F
transfer_kmax = 2
transfer_k_per_logint = 0
transfer_num_redshifts = 1
transfer_redshift(1) = 0
transfer_filename(1) = t.dat
transfer_matterpower(1) = m.dat
transfer_power_var = 7
l_max_scalar = 100
"""
FID = dict(world.COSMO)


def _cosmology(rng, flat=None, mild=False):
    s = .3 if mild else 1
    c = dict(h=float(.67 + s * rng.uniform(-.2, .2)), w0=float(-1 + s * rng.uniform(-.4, .4)), wa=float(s * rng.uniform(-.5, .3)), Omm=float(.31 + s * rng.uniform(-.1, .1)),
             Omb=float(.05 + s * rng.uniform(-.02, .02)), ns=float(.96 + s * rng.uniform(-.1, .1)), sigma8=float(.81 + s * rng.uniform(-.3, .3)),
             mnu=float(rng.choice([0., .06, .15, .3])), gamma=.55)
    c["OmDE"] = 1 - c["Omm"] if (rng.random() < .5 if flat is None else flat) else float(1 - c["Omm"] + s * rng.uniform(-.1, .1))
    return c


def _pars(c, rng=None):
    """current values, whatever the fiducial ones are"""
    return {n: PhysicalParameter(name=n, fiducial=FID[n], current_value=v, kind=PhysicalParameter.COSMO_PAR_STRING if hasattr(PhysicalParameter, "COSMO_PAR_STRING")
                                 else "CosmologicalParameter", is_free_parameter=False) for n, v in c.items()}


def _config(base, code, z, kmax=3., per=6, nk=20, ini=None):
    ini = ini or base / "reference.ini"
    if not ini.exists():
        ini.write_text(LEAN % "2.1e-09")
    f = base / f"power_{code}.json"
    f.write_text(json.dumps({"redshift_grid": {"z_min": z[0], "z_max": z[1], "n_redshifts": z[2]}, "boltzmann_codes_settings": {
        "code": code, "camb": {"k_max": kmax, "k_per_logint": per, "ini_filename": str(ini)}, "class": {"k_max": kmax, "k_min": 1e-4, "n_k": nk}}}))
    return f


def _evaluate(c, cfg_file, workdir, log, real=False):
    p = PowerSpectrum(power_spectrum_config=PowerSpectrumConfig(json_input=cfg_file), cosmo_pars=_pars(c))
    if real:
        p.evaluateLinearAndNonLinearPowerSpectra(workdir)
        return p
    with _stand_ins(log):
        p.evaluateLinearAndNonLinearPowerSpectra(workdir)
    return p


class _stand_ins:
    def __init__(self, log):
        self.log = log

    def __enter__(self):
        self.m = [mock.patch.object(bs, "camb", boltz.camb_module(self.log), create=True), mock.patch.object(bs, "Class", boltz.class_type(self.log), create=True)]
        for m in self.m:
            m.start()

    def __exit__(self, *a):
        for m in self.m:
            m.stop()


def _expect(ctx, p, c, z, kmax, code, where):
    ctx.close(p.z_grid, np.linspace(*z), "redshift-grid", where=where, rtol=1e-12)
    k = np.asarray(p.k_grid)
    ok = ctx.check(k.ndim == 1 and len(k) > 2 and bool(np.all(np.diff(k) > 0)) and abs(k[-1] / kmax - 1) < 1e-6, "wavenumber-grid", where=where, last=k[-1])
    if ok:
        lin, non = boltz.spectra(k, np.linspace(*z), c)
        tol = 1e-9 if code == "CAMB" else 2e-6
        ctx.close(p.lin_p_mm_z_k, lin, "linear-spectrum", rtol=tol, where=where)
        ctx.close(p.nonlin_p_mm_z_k, non, "nonlinear-spectrum", rtol=tol, where=where)
        D = np.sqrt(lin[:, 0] / lin[0, 0])
        ctx.close(p.getGrowthFromLinearPowerSpectrum(), D, "growth", rtol=tol, where=where)


def solvers(ctx):
    rng = ctx.rng
    for it in range(ctx.n(24, 160)):
        base = ctx.scratch("s")
        c = _cosmology(rng)
        code = ("CAMB", "CLASS")[it % 2]
        n = int(rng.choice([2, 5, 149, 150, 151, 299, 300, 301, 460])) if code == "CAMB" else int(rng.integers(2, 9))
        z = (float(rng.choice([0., .001, .05])), float(rng.uniform(1, 3)), n)
        kmax, per = float(rng.choice([.5, 3., 50.])), int(rng.integers(3, 20))
        amp = rng.choice(["2.1e-09", "1e-9", "5E-9", "0.000000003"])
        ini = base / "reference.ini"
        ini.write_text(LEAN % amp)
        where = dict(cosmology=c, code=code, z=z, kmax=kmax)
        ctx.case((code, z, it, ctx.round), where)
        log = []
        with ctx.op("evaluate", **where):
            cfg = _config(base, code, z, kmax, per, ini=ini)
            work = base / "work"
            work.mkdir()
            kept = ini.read_text()
            p = _evaluate(c, cfg, work, log)
            _expect(ctx, p, c, z, kmax, code, where)
            ctx.same(ini.read_text(), kept, "reference-ini-modified", where=where)
            ctx.same({n: q.current_value for n, q in p.cosmological_parameters.items()}, c, "parameters-modified", where=where)
            if code == "CAMB":
                ctx.saw("fine_tuned")
                ctx.close(p.k_grid, boltz.camb_k(kmax, per), "sampling-of-wavenumbers", rtol=1e-9, where=where, per=per)
                if n > 150:
                    ctx.saw("groups")
                    ctx.check(len({e[1] for e in log if e[0] == "linear"}) >= 2, "redshifts-grouped", where=where)
                used = [e for e in log if e[0] in ("linear", "nonlinear")]
                seen = [e for k in ("linear", "nonlinear") for e in [sorted({q for u in used if u[0] == k for q in u[1]})]]
                ctx.check(all(len(s) == n for s in seen), "redshifts-asked", where=where)
                # what the file says of anything but the cosmology reaches the solver
                want = {k.strip(): v.strip() for k, v in (ln.split("=", 1) for ln in kept.splitlines() if "=" in ln and not ln.startswith("#"))}
                mine = {"hubble", "w", "wa", "omch2", "ombh2", "omnuh2", "omk", "scalar_amp", "scalar_spectral_index"}
                ctx.same({k: v for k, v in used[0][2].items() if k not in mine}, {k: v for k, v in want.items() if k not in mine}, "other-settings", where=where)
                got = {k: float(used[0][2][k]) for k in mine - {"scalar_amp"}}
                x = boltz.translate(c)
                ctx.close([got[k] for k in ("hubble", "w", "wa", "omch2", "ombh2", "omnuh2", "omk", "scalar_spectral_index")],
                          [100 * c["h"], c["w0"], c["wa"], x["omch2"], x["ombh2"], x["omnuh2"], x["omk"], c["ns"]], "camb-parameters", rtol=1e-12, atol=1e-15, where=where)
                t = np.asarray(p.transfer_function)
                ctx.check(t.shape == np.shape(p.k_grid) and bool(np.all(t > 0)), "transfer-function", where=where)
            else:
                ctx.same([e[0] for e in log], ["class"], "class-runs", where=where)
                q = log[0][1]
                total = sum(float(q[k]) for k in ("Omega_b", "Omega_cdm", "Omega_k", "Omega_fld")) + c["mnu"] / 93.14 / c["h"] ** 2
                ctx.close(total, 1., "class-budget", rtol=1e-6, where=where)
                ctx.close(float(q["Omega_fld"]), c["OmDE"], "class-dark-energy", rtol=1e-9, where=where)
            # kept and read again
            f = base / "p.h5"
            p.saveToHDF5(f)
            ctx.check(PowerSpectrum.fromHDF5(f) == p, "spectrum-kept", where=where)


def _sigma8(k, P, h):
    x = k * 8 / h
    W = 3 * (np.sin(x) - x * np.cos(x)) / x ** 3
    return np.sqrt(np.trapz(P * W ** 2 * k ** 3 / (2 * np.pi ** 2), np.log(k)))


def real_camb(ctx):
    """the real solver against itself through its other interface"""
    if ctx.quick and ctx.round:
        return
    import camb
    camb.config.ThreadNum = 6
    rng = ctx.rng
    for it in range(ctx.n(1, 4)):
        base = ctx.scratch("r")
        c = _cosmology(rng, mild=True)
        c["mnu"] = float(rng.choice([.06, .2]))
        n = int(rng.integers(3, 7))
        z = (0., float(rng.uniform(1, 2.5)), n)
        where = dict(cosmology=c, z=z)
        ctx.case((it, ctx.round, tuple(c.values())), where)
        with ctx.op("real-camb", **where):
            cfg = _config(base, "CAMB", z, 1.5, 8)
            p = _evaluate(c, cfg, base, None, real=True)
            k = np.asarray(p.k_grid)
            lin, non = np.asarray(p.lin_p_mm_z_k), np.asarray(p.nonlin_p_mm_z_k)
            ctx.same((lin.shape, non.shape), ((n, len(k)),) * 2, "shapes", where=where)
            ctx.close(_sigma8(k, lin[0], c["h"]), c["sigma8"], "sigma8-of-the-spectrum", rtol=6e-3, where=where)
            x = boltz.translate(c)
            q = camb.set_params(H0=100 * c["h"], ombh2=x["ombh2"], omch2=x["omch2"], mnu=c["mnu"], omk=x["omk"], tau=.058, TCMB=2.7255, YHe=.2454, w=c["w0"], wa=c["wa"],
                                dark_energy_model="ppf", As=2e-9, ns=c["ns"])
            zs = list(np.linspace(*z))
            q.set_matter_power(redshifts=zs, kmax=1.5, k_per_logint=8, silent=True)
            q.NonLinear = camb.model.NonLinear_none
            r = camb.get_results(q)
            q.InitPower.set_params(As=2e-9 * (c["sigma8"] / r.get_sigma8_0()) ** 2, ns=c["ns"])
            q.NonLinear = camb.model.NonLinear_pk
            r = camb.get_results(q)
            for what, got, fn in (("linear", lin, r.get_linear_matter_power_spectrum), ("nonlinear", non, r.get_nonlinear_matter_power_spectrum)):
                kk, zz, P = fn(hubble_units=False, k_hunit=False)
                ctx.close(zz, zs, "redshifts", atol=1e-9, where=where)
                g = np.geomspace(2e-3, 1., 60)
                a = np.stack([np.interp(np.log(g), np.log(k), np.log(y)) for y in got])
                b = np.stack([np.interp(np.log(g), np.log(kk), np.log(y)) for y in P])
                ctx.close(a, b, f"{what}-spectrum-of-camb", atol=.03, rtol=0, where=where)
            D = np.asarray(p.getGrowthFromLinearPowerSpectrum())
            ctx.check(D[0] == 1 and bool(np.all(np.diff(D) < 0)), "growth-decreases", where=where)


# ------------------------------------------------------------------------------------------------ jobs
def _survey(ctx, base, code, n, curved=None):
    rng = ctx.rng
    free = sorted(rng.choice(["w0", "wa", "Omm", "Omb", "h", "ns", "sigma8", "mnu"], size=n, replace=False))
    s = world.Survey(base, probes=("WL",), n_bins={"WL": 2}, n_ell=4, bases=tuple(sorted(rng.uniform(.005, .08, int(rng.integers(1, 3))))), free=free, free_ia=False)
    if rng.random() < .5 if curved is None else curved:
        s.cfg["cosmology"]["flat"] = False
        for d in s.cfg["cosmology"]["parameters"]:
            if d["name"] == "OmDE":
                d["fiducial"] = d["current_value"] = float(rng.uniform(.6, .75))
                d["is_free_parameter"] = bool(rng.integers(2))
        s.write()
    free = [d["name"] for d in s.cfg["cosmology"]["parameters"] if d["is_free_parameter"]]
    z = (.01, 2.5, int(rng.choice([7, 151])) if code == "CAMB" else 7)
    cfg = _config(base, code, z, 3., 6)
    return s, free, z, cfg


def _displaced(s, n, k, sign):
    d = next(q for q in s.cfg["cosmology"]["parameters"] if q["name"] == n)
    b = sorted(s.cfg["derivative_settings"]["base_stem_disps"])[k - 1]
    c = {q["name"]: q["fiducial"] for q in s.cfg["cosmology"]["parameters"]}
    eps = sign * b * d["stem_factor"]
    c[n] = c[n] * (1 + eps) if c[n] != 0 else eps
    if n == "Omm" and s.cfg["cosmology"]["flat"]:
        c["OmDE"] = 1 - c[n]
    return c


def _product(ctx, f, c, z, code, where, flat):
    back = Cosmology.fromHDF5(f)
    got = {n: q.current_value for n, q in back.params.items()}
    ctx.same(set(got), set(c), "job-parameters", where=where)
    ctx.close([got[n] for n in sorted(got)], [c[n] for n in sorted(got)], "job-cosmology", rtol=1e-12, atol=1e-14, where=where)
    ctx.same((bool(back.is_flat), back.model_name, back.power_spectrum.boltzmann_code), (flat, "CPL", code), "job-attributes", where=where)
    _expect(ctx, back.power_spectrum, c, z, 3., code, where)
    zs = np.linspace(*z)
    ctx.close(back.z_grid, zs, "job-redshifts", rtol=1e-12, where=where)
    ctx.close(back.dimensionless_hubble_array, world.E_of_z(zs, c), "job-hubble", rtol=1e-9, where=where)
    ctx.close(back.dimensionless_comoving_distance_array, world.r_tilde(zs, c), "job-distance", rtol=1e-7, where=where)
    lin, _ = boltz.spectra(back.power_spectrum.k_grid, zs, c)
    ctx.close(back.growth_factor_z, np.sqrt(lin[:, 0] / lin[0, 0]), "job-growth", rtol=1e-6, where=where)


def jobs(ctx):
    rng = ctx.rng
    for it in range(ctx.n(2, 8)):
        code = ("CAMB", "CLASS")[it % 2]
        base = ctx.scratch("j")
        s, free, z, cfg = _survey(ctx, base / "survey", code, int(rng.integers(1, 4)))
        run = base / "run"
        ws = s.make_workspace(run)
        cases = [("central", 0)] + [(n, sg * k) for n in free for k in range(1, len(s.cfg["derivative_settings"]["base_stem_disps"]) + 1) for sg in (1, -1)]
        with ctx.op("power-spectrum-jobs", free=free, code=code):
            for q, (n, step) in enumerate(cases):
                name = "dvar_central_step_0" if n == "central" else f"dvar_{n}_step_{'p' if step > 0 else 'm'}_{abs(step)}"
                work = run / "PowerSpectrum" / name
                work.mkdir(parents=True)
                c = {p["name"]: p["fiducial"] for p in s.cfg["cosmology"]["parameters"]} if step == 0 else _displaced(s, n, abs(step), np.sign(step))
                where = dict(dvar=n, step=step, code=code, cosmology=c)
                ctx.case((it, ctx.round, n, step, code), where)
                argv = ["--workdir", work, "--rundir", run, "--logfile", work / "job.log", "-mcfg", cfg]

                def job():
                    with _stand_ins([]):
                        scripts.run("compute_pmm", argv, work)
                if q in (0, 1):
                    for k in rng.integers(1, 260, size=ctx.n(2, 10)):
                        crash.crash_at(job, int(k))
                        ctx.saw("crashes")
                        f = ws.getPowerSpectrumFile(n, step)
                        if f.exists():
                            _product(ctx, f, c, z, code, dict(where, killed=int(k)), s.cfg["cosmology"]["flat"])
                job()
                _product(ctx, ws.getPowerSpectrumFile(n, step), c, z, code, where, s.cfg["cosmology"]["flat"])


# ------------------------------------------------------------------------------------------------ in process
def in_process(ctx):
    """spectra asked for together with the angular ones"""
    rng = ctx.rng
    import os
    for it in range(ctx.n(2, 6)):
        code = ("CAMB", "CLASS")[it % 2]
        base = ctx.scratch("p")
        s, free, z, cfg_file = _survey(ctx, base / "survey", code, 1, curved=(it + ctx.round) % 2 == 0)
        cfg = PowerSpectrumConfig(json_input=cfg_file)
        where = dict(free=free, code=code)
        ctx.case((it, ctx.round, tuple(free)), where)
        here = os.getcwd()
        os.chdir(base)
        try:
            with ctx.op("spectra-in-process", **where), _stand_ins([]):
                fc = s.forecast_config()
                par = fc.phys_pars
                ac = s.angular_config()
                zs = np.linspace(*z)
                dens = cl_core.compute_densities(fc.probe_configs, zs)

                def cls(**over):
                    co = Cosmology(params=par.cosmological_parameters, flat=s.cfg["cosmology"]["flat"], z_grid=zs)
                    co.evaluatePowerSpectrum(base, cfg)
                    return _cls(cl_core.compute_cls(co, par, dens, fc, ac))
                want = cls()
                co = Cosmology(params=par.cosmological_parameters, flat=s.cfg["cosmology"]["flat"], z_grid=zs)
                got = cl_core.compute_cls(co, par, dens, fc, ac, pmm_cfg=cfg, compute_pmm=True)
                for k in want:
                    ctx.close(_cls(got)[k], want[k], "spectra-asked-for-with-the-cls", rtol=1e-7, where=where, key=k)
                n = str(rng.choice(["Omm"] if "Omm" in free else free))
                varied = cl_core.compute_cls_variations(n, got, None, par, dens, fc, ac, pmm_cfg=cfg, compute_pmm=True)
                steps = len(s.cfg["derivative_settings"]["base_stem_disps"])
                ctx.same(sorted(varied), list(range(-steps, steps + 1)), "variations", where=where)
                for st in varied:
                    if st:
                        par.updatePhysicalParametersForDvarStep(dvar=n, step=st)
                        w = cls()
                        for k in w:
                            ctx.close(_cls(varied[st])[k], w[k], "varied-spectra", rtol=1e-5, where=where, key=k, step=st)
                        par.resetPhysicalParametersToFiducial()
        finally:
            os.chdir(here)


def interactive(ctx):
    """a session gives the spectra of the cosmology, the densities and the angular spectra of its survey"""
    import seyfert
    rng = ctx.rng
    for it in range(ctx.n(2, 6)):
        code = ("CAMB", "CLASS")[it % 2]
        base = ctx.scratch("n")
        s = world.Survey(base / "survey", probes=("WL", "GCph", "V"), n_bins={"WL": 2, "GCph": 2, "V": 1}, n_ell=4, free=("w0",), niz=bool(rng.integers(2)))
        z = (.01, 2.5, 21)
        cfg_file = _config(base, code, z, 3., 6)
        where = dict(code=code)
        ctx.case((it, ctx.round, code), where)
        run = base / "run"
        t = s.task_files()
        args = {"forecast_config": s.fcfg_file, "powerspectrum_config": cfg_file, "angular_config": t["Angular"], "input_data_dir": s.data,
                "workdir": str(run) if it % 2 else run}
        with ctx.op("session", **where), _stand_ins([]):
            S = seyfert.Seyfert(args)
            S.prepareWorkspace()
            S.evaluateFiducialCosmology()
            c = {p["name"]: p["fiducial"] for p in s.cfg["cosmology"]["parameters"]}
            _expect(ctx, S.fid_cosmo.power_spectrum, c, z, 3., code, where)
            S.evaluateRedshiftDensities()
            ctx.same(sorted(S.redshift_densities), sorted(world.LONG[p] for p in s.probes), "session-densities", where=where)
            got = _cls(S.computeCls())
            fc = s.forecast_config()
            co = Cosmology(params=fc.phys_pars.cosmological_parameters, flat=True, z_grid=np.linspace(*z))
            co.evaluatePowerSpectrum(base, PowerSpectrumConfig(json_input=cfg_file))
            dens = cl_core.compute_densities(fc.probe_configs, np.linspace(*z))
            want = _cls(cl_core.compute_cls(co, fc.phys_pars, dens, fc, s.angular_config(), fiducial_cosmology=co))
            ctx.same(sorted(got), sorted(want), "session-spectra", where=where)
            for k in want:
                ctx.close(got.get(k), want[k], "session-spectrum", rtol=1e-7, where=where, key=k)
            # in the same directory again, from the densities that were kept
            again = seyfert.Seyfert(args)
            again.prepareWorkspace()
            again.evaluateFiducialCosmology()
            again.evaluateRedshiftDensities()
            more = _cls(again.computeCls())
            for k in want:
                ctx.close(more.get(k), want[k], "session-repeated", rtol=1e-7, where=where, key=k)
            # spectra kept elsewhere are linked
            ext = base / "ext"
            (ext / "dvar_central_step_0").mkdir(parents=True)
            co.evaluateOverRedshiftGrid()
            co.saveToHDF5(ext / "dvar_central_step_0" / "p_mm.h5")
            other = seyfert.Seyfert({**args, "workdir": base / "other", "powerspectrum_dir": ext})
            other.prepareWorkspace()
            f = other.ws.getPowerSpectrumFile("central", 0)
            ctx.check(f.is_file() and Cosmology.fromHDF5(f).power_spectrum == co.power_spectrum, "session-external-spectra", where=where)


def _cls(col):
    return {k: np.array(c.c_lij) for k, c in col.cl_dict.items()}


SECTIONS = [solvers, real_camb, jobs, in_process, interactive]
