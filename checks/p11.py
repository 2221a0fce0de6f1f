"""P11: weight functions of the probes and kernels of their pairs."""
import numpy as np
from scipy.interpolate import CubicSpline

from seyfert.cosmology import weight_functions as wfs
from seyfert.cosmology.cosmology import Cosmology
from seyfert.cosmology.kernel_functions import KernelFunction
from seyfert.cosmology.redshift_density import RedshiftDensity
from seyfert.main import cl_core
from checks import p10
from vlib import world

PROPERTY = "P11"
LEVEL = "exploration"
RULE = ("small surveys with random bins, cosmologies, bias models, intrinsic-alignment and current parameter values; every weight is compared "
        "with its definition evaluated from the input files by an independent integrator, every kernel with the product of its weights")
ASSUMPTIONS = ["the lensing efficiency on a grid is decided within the accuracy of the grid (2e-3 of its maximum)"]
NEEDS = {"oracle.clustering": 30, "oracle.lensing": 14, "oracle.kernels": 60, "ia_on": 1, "ia_off": 1, "oracle.void_sizes": 1}


def _survey(ctx, bias="piecewise", **kw):
    nb = {p: int(ctx.rng.integers(1, 5)) for p in world.LONG}
    return world.Survey(ctx.scratch(), probes=("WL", "GCph", "GCsp", "V"), n_bins=nb, n_ell=3, bias=bias, **kw)


def _cosmo(ctx, z, fiducial=False):
    c = dict(world.COSMO)
    if not fiducial:
        c.update(h=float(ctx.rng.uniform(.5, .9)), w0=float(ctx.rng.uniform(-1.2, -.8)), wa=float(ctx.rng.uniform(-.3, .3)),
                 Omm=float(ctx.rng.uniform(.2, .45)))
        c["OmDE"] = 1 - c["Omm"]
    k = np.logspace(-4, 1, 60)
    f = ctx.scratch() / "p.h5"
    world.write_cosmology_file(f, z, k, c, params=world.cosmo_params(c, fid=world.COSMO))
    co = Cosmology.fromHDF5(f)
    co.evaluateOverRedshiftGrid()
    return co, c


def _niz(sv, probe, z):
    """densities as they are in the input file, from their own closed form"""
    zd = np.linspace(.001, 3.0, 300)
    n = world.gauss_niz(zd, sv.edges[probe])
    return np.array([np.where((z >= zd[0]) & (z <= zd[-1]), CubicSpline(zd, r)(z), 0) for r in n])


def _ia_luminosity(z):
    from seyfert.utils import filesystem_utils as fsu
    zz, L = np.loadtxt(fsu.default_data_dir() / "scaledmeanlum-E2Sa.dat", unpack=True)
    out = np.interp(z, zz, L)
    hi = z > zz[-1]
    out[hi] = L[-1] + (z[hi] - zz[-1]) * (L[-1] - L[-2]) / (zz[-1] - zz[-2])
    lo = z < zz[0]
    out[lo] = L[0] + (z[lo] - zz[0]) * (L[1] - L[0]) / (zz[1] - zz[0])
    return out


def _weight(sv, fc, probe, co, dens, angular, fid=None):
    long = world.LONG[probe]
    w = wfs.weight_function_for_probe(long, probe_config=fc.probe_configs[long], nuisance_params=fc.phys_pars.getNuisanceParametersForProbe(long),
                                      cosmology=co, fiducial_cosmology=fid, angular_config=angular)
    if dens is not None:
        w.density = dens
    w.setUp()
    return w


def clustering(ctx):
    for it in range(ctx.n(5, 40)):
        model = ("constant", "piecewise")[it % 2]
        sv = _survey(ctx, bias=model)
        fc = sv.forecast_config()
        z = np.linspace(.05, 2.4, int(ctx.rng.integers(12, 60)))
        co, c = _cosmo(ctx, z)
        fid, cf = _cosmo(ctx, z, fiducial=True)
        dens = cl_core.compute_densities(fc.probe_configs, z)
        H = 100 * c["h"] * world.E_of_z(z, c)
        for probe in ("GCph", "GCsp", "V"):
            long = world.LONG[probe]
            pars = fc.phys_pars.getNuisanceParametersForProbe(long)
            for p in pars.values():
                p.current_value = float(p.fiducial * ctx.rng.uniform(.8, 1.2))
            own = bool(ctx.rng.random() < .4)   # density read and evaluated by the weight itself
            w = _weight(sv, fc, probe, co, None if own else dens[long], sv.angular_config(), fid)
            w.evaluateOverRedshiftGrid(z)
            e = sv.edges[probe]
            nb = len(e) - 1
            tag = {"GCph": "bgph", "GCsp": "bgsp", "V": "voidbias"}[probe]
            ctx.case((it, probe, nb, model, ctx.round), sample=dict(probe=probe, model=model, bins=nb), nontrivial=nb > 1)
            if probe == "V":
                D = world.growth(z, cf) / world.growth(z[:1], cf)
                mid = (e[1:] + e[:-1]) / 2
                b = np.repeat(CubicSpline(z, pars["voidbias0"].current_value / D)(mid)[:, None], len(z), axis=1)
            else:
                vals = np.array([pars[f"{tag}{i}"].current_value for i in range(nb)])
                b = np.repeat(vals[:, None], len(z), axis=1) if model == "constant" else \
                    np.repeat(vals[np.clip(np.searchsorted(e, z, side="right") - 1, 0, nb - 1)][None], nb, axis=0)
            want = H / world.C_KMS * _niz(sv, probe, z) * b
            inner = ~np.isin(np.round(z, 10), np.round(e, 10))
            ctx.close(w.w_bin_z[:, inner], want[:, inner], "clustering-weight", rtol=2e-6, atol=1e-9 * want.max(), probe=probe, model=model)
            ctx.same((w.probe, w.n_bins, w.shot_noise_factor, w.is_evaluated), (long, nb, 1, True), "clustering-header")
            ctx.close(w.z_bin_edges, e, "clustering-edges")
            # the parameters in force at the time of each evaluation
            if probe != "V":
                q = int(ctx.rng.integers(nb))
                pars[f"{tag}{q}"].current_value *= 1.5
                vals[q] *= 1.5
                b = np.repeat(vals[:, None], len(z), axis=1) if model == "constant" else \
                    np.repeat(vals[np.clip(np.searchsorted(e, z, side="right") - 1, 0, nb - 1)][None], nb, axis=0)
                want = H / world.C_KMS * _niz(sv, probe, z) * b
            else:
                pars["voidbias0"].current_value *= 1.5
                want = 1.5 * want
            w.evaluateOverRedshiftGrid(z)
            ctx.close(w.w_bin_z[:, inner], want[:, inner], "changed-parameter", rtol=2e-6, atol=1e-9 * np.abs(want).max(), probe=probe, model=model)
            # a further evaluation over another grid uses the density of that grid
            z2 = z + .013
            co2, c2 = _cosmo(ctx, z2)
            if probe != "V":
                w.cosmology = co2
                w.evaluateOverRedshiftGrid(z2)
                b2 = np.repeat(vals[:, None], len(z), axis=1) if model == "constant" else \
                    np.repeat(vals[np.clip(np.searchsorted(e, z2, side="right") - 1, 0, nb - 1)][None], nb, axis=0)
                want = 100 * c2["h"] * world.E_of_z(z2, c2) / world.C_KMS * _niz(sv, probe, z2) * b2
                inner = ~np.isin(np.round(z2, 10), np.round(e, 10))
                ctx.close(w.w_bin_z[:, inner], want[:, inner], "second-grid", rtol=2e-6, atol=1e-9 * want.max(), probe=probe)
                dens[long].evaluate(z)
        ctx.raises(lambda: wfs.weight_function_for_probe("Nothing"), "unknown-probe-accepted")


def _efficiency(z, zmax, nfun, c, n=4001):
    out = []
    for zz in z:
        x = np.linspace(zz, zmax, n)
        y = nfun(x) * (1 - world.r_tilde(np.array([zz]), c)[0] / world.r_tilde(x, c))
        h = x[1] - x[0]
        wgt = np.ones(n)
        wgt[1:-1:2], wgt[2:-1:2] = 4, 2
        out.append(y @ wgt * h / 3)
    return np.array(out).T


def lensing(ctx):
    for it in range(ctx.n(4, 24)):
        ia = it % 3 != 2
        quad = it % 4 == 3
        sv = _survey(ctx, include_IA=ia)
        ctx.saw("ia_on" if ia else "ia_off")
        fc = sv.forecast_config()
        z = np.linspace(.05, 2.2, 9) if quad else np.linspace(.05, 2.98, 161)
        co, c = _cosmo(ctx, z)
        ang = sv.angular_config(eff="quad" if quad else "simpson")
        pars = fc.phys_pars.getNuisanceParametersForProbe("Lensing")
        for p in pars.values():
            p.current_value = float(p.fiducial * ctx.rng.uniform(.8, 1.2))
        w = _weight(sv, fc, "WL", co, None, ang)
        w.evaluateOverRedshiftGrid(z)
        nb = sv.n_bins["WL"]
        ctx.case((it, nb, ia, quad, ctx.round), sample=dict(bins=nb, ia=ia, integration="quad" if quad else "simpson"))
        pick = np.arange(len(z)) if quad else np.arange(0, len(z), 8)
        eff = _efficiency(z[pick], 3.0 if quad else z[-1], lambda x: _niz(sv, "WL", x), c, n=1201)
        pref = 1.5 * c["Omm"] * (1 + z) * 100 * c["h"] / world.C_KMS * world.r_tilde(z, c)
        want = pref[pick] * eff
        if ia:
            D = world.growth(z, c) / world.growth(z[:1], c)
            v = {k: p.current_value for k, p in pars.items()}
            align = v["aIA"] * v["cIA"] * (1 + z) ** v["etaIA"] * _ia_luminosity(z) ** v["betaIA"] * c["Omm"] * \
                100 * c["h"] * world.E_of_z(z, c) * _niz(sv, "WL", z) / (D * world.C_KMS)
            ctx.close(w.computeIntrinsicAlignmentContribution(), align, "alignment", rtol=1e-5, atol=1e-8 * align.max())
            want = want - align[:, pick]
        scale = np.abs(pref[pick] * eff).max()
        ctx.close(w.w_bin_z[:, pick] / scale, want / scale, "lensing-weight", rtol=0, atol=1e-5 if quad else 2e-3, ia=ia, quad=quad, bins=nb)
        ctx.close(w.shot_noise_factor, .09, "ellipticity-noise")
        i = int(ctx.rng.integers(nb))
        q = int(ctx.rng.integers(len(pick) - 1))
        ctx.close(w.computeLensingEfficiencyAtBin(i, float(z[pick[q]])), eff[i, q], "efficiency-scalar", rtol=0, atol=3e-3)
        # without alignment the weight is non-negative and grows with the depth of the source bin
        if not ia:
            ctx.check(np.all(w.w_bin_z >= -1e-12 * scale), "lensing-positive")
        ctx.raises(lambda: w.computeLensingEfficiencyAtBin(0, [.1]), "list-accepted", exc=TypeError)
        w.lensing_efficiency_integration_method = "magic"
        ctx.raises(lambda: w.computeLensingEfficiencyAtBin(0, z), "unknown-method-accepted", exc=ValueError)


def kernels(ctx):
    names = list(world.LONG)
    for it in range(ctx.n(4, 30)):
        sv = _survey(ctx, include_IA=bool(it % 2))
        fc = sv.forecast_config()
        z = np.linspace(.05, 2.4, int(ctx.rng.integers(10, 40)))
        co, c = _cosmo(ctx, z)
        dens = cl_core.compute_densities(fc.probe_configs, z)
        ang = sv.angular_config()
        H, r = 100 * c["h"] * world.E_of_z(z, c), world.comoving(z, c)
        for p1 in names:
            for p2 in names:
                w1, w2 = (_weight(sv, fc, p, co, dens[world.LONG[p]], ang, co) for p in (p1, p2))
                pre = ctx.rng.integers(3)
                if pre >= 1:
                    w1.evaluateOverRedshiftGrid(z)
                if pre >= 2:
                    w2.evaluateOverRedshiftGrid(z)
                k = KernelFunction(weight1=w1, weight2=w2, cosmology=co)
                ctx.check(not k.is_evaluated, "fresh-kernel-unevaluated")
                k.evaluateOverRedshiftGrid(z)
                ref = [_weight(sv, fc, p, co, dens[world.LONG[p]], ang, co) for p in (p1, p2)]
                for w in ref:
                    w.evaluateOverRedshiftGrid(z)
                want = ref[0].w_bin_z[:, None, :] * ref[1].w_bin_z[None, :, :] * world.C_KMS / (H * r ** 2)
                ctx.case((it, p1, p2, want.shape[:2], int(pre), ctx.round), sample=dict(pair=(p1, p2), shape=want.shape))
                ctx.close(k.k_ijz, want, "kernel", rtol=1e-6, atol=1e-12 * np.abs(want).max(), pair=(p1, p2))
                ctx.same((k.probe1, k.probe2, k.obs_key), (world.LONG[p1], world.LONG[p2], f"{world.LONG[p1]}_{world.LONG[p2]}"), "kernel-header")
                ctx.check(np.array_equal(w1.w_bin_z, ref[0].w_bin_z) and np.array_equal(w2.w_bin_z, ref[1].w_bin_z), "kernel-weights")
                # an evaluated kernel is only replaced on request
                w1.w_bin_z = 2 * w1.w_bin_z
                k.evaluateOverRedshiftGrid(z)
                ctx.close(k.k_ijz, want, "kernel-kept", rtol=1e-6, atol=1e-12 * np.abs(want).max())
                k.evaluateOverRedshiftGrid(z, overwrite=True)
                ctx.close(k.k_ijz, (4 if p1 == p2 else 2) * want, "kernel-overwritten", rtol=1e-6, atol=1e-12 * np.abs(want).max())
                out = ctx.scratch() / "k.h5"
                k.saveToHDF5(out, root="/a/b")
                b = KernelFunction.fromHDF5(out, root="/a/b")
                ctx.check(np.array_equal(b.k_ijz, k.k_ijz) and np.array_equal(b.z_grid, z) and b.obs_key == k.obs_key, "kernel-round-trip")
                if p1 != p2:
                    ctx.raises(lambda: KernelFunction(probe1=world.LONG[p2], weight1=w1, weight2=w2, cosmology=co), "wrong-probe-accepted")


def void_sizes(ctx):
    """void weights whose bias comes from the void size function follow the cosmology in force, not the fiducial one"""
    for it in range(ctx.n(2, 8)):
        sv = _survey(ctx)
        e = sv.edges["V"]
        lo = float(ctx.rng.uniform(1, 8))
        R = np.linspace(lo, lo * float(ctx.rng.uniform(1.4, 2.2)), 31)
        dc0, dv0 = float(ctx.rng.uniform(1.4, 1.8)), float(-ctx.rng.uniform(.8, 2.))
        world.write_bias(sv.data / "v_bias.h5", "Void", e, "vdn_void", {},
                         dict(R_min_Mpc=R[0], R_max_Mpc=R[-1], R_grid_size=31, delta_c0=dc0, delta_v0=dv0))
        sv.cfg["probes"]["V"]["bias_file"] = "v_bias.h5"
        sv.bias_pars["V"] = {}
        sv.write()
        fc = sv.forecast_config()
        z = np.linspace(.05, 2.4, 24)
        k = np.logspace(-4, 1.5, 600)
        cos = []
        for c in (dict(world.COSMO, sigma8=float(ctx.rng.uniform(.6, 1)), h=float(ctx.rng.uniform(.5, .9))), dict(world.COSMO)):
            f = ctx.scratch() / "p.h5"
            world.write_cosmology_file(f, z, k, c, params=world.cosmo_params(c, fid=world.COSMO))
            co = Cosmology.fromHDF5(f)
            co.evaluateOverRedshiftGrid()
            cos.append((co, c))
        (co, c), (fid, _) = cos
        w = _weight(sv, fc, "V", co, None, sv.angular_config(), fid)
        w.evaluateOverRedshiftGrid(z)
        ref, _ = p10._vdn(k, world.pmm(z, k, c)[0][0], world.growth(z, c) / world.growth(z[:1], c), R, dc0, dv0)
        if not np.all(np.isfinite(ref)):
            ctx.saw("no_voids")
            continue
        b = CubicSpline(z, ref)((e[1:] + e[:-1]) / 2)
        ctx.case((it, len(b), ctx.round), sample=dict(bins=len(b), R=(R[0], R[-1])))
        want = 100 * c["h"] * world.E_of_z(z, c) / world.C_KMS * _niz(sv, "V", z) * b[:, None]
        ctx.close(w.w_bin_z, want, "void-size-weight", rtol=3e-6, atol=1e-8 * np.abs(want).max(), R=R, dc0=dc0, dv0=dv0)


SECTIONS = [clustering, lensing, kernels, void_sizes]
