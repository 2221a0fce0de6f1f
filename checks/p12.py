"""P12: angular power spectra in the Limber approximation."""
import numpy as np

from seyfert.cosmology.c_ells import AngularCoefficient, AngularCoefficientsCollector, ClError
from seyfert.cosmology.cosmology import Cosmology
from seyfert.main import cl_core
from vlib import world

PROPERTY = "P12"
LEVEL = "exploration"
RULE = ("small surveys of one to four probes with random bins, multipole ranges, cosmologies, spline orders and integration methods; every "
        "spectrum element is compared with the redshift integral of its weights against the closed-form matter spectrum; distinct = "
        "(pair, shape, method)")
ASSUMPTIONS = ["the wavenumbers needed lie inside the tabulated range", "each spectrum is decided for the integration rule asked for on the grid (1e-5 of the integral of the modulus; 0.2 for the adaptive "
               "option, which stops at an absolute error of 1.5e-8)"]
NEEDS = {"oracle.spectra": 60, "oracle.integrals": 100, "oracle.metamorphic": 40, "cut_multipoles": 3, "offdiag_off": 1, "partial_overlap": 1}


def _simpson(y, x):
    n = len(x)
    h = x[1] - x[0]
    w = np.ones(n)
    if n % 2:
        w[1:-1:2], w[2:-1:2] = 4, 2
        return y @ w * h / 3
    return _simpson(y[..., :-3], x[:-3]) + (y[..., -4:] @ np.array([1, 3, 3, 1])) * 3 * h / 8


def _trap(y, x):
    return ((y[..., 1:] + y[..., :-1]) / 2) @ np.diff(x)


def _build(ctx, probes, z=None, c=None, cl="simpson", kx=3, ky=3, n_bins=None, **kw):
    nb = {p: int(ctx.rng.integers(1, 4)) for p in world.LONG}
    nb.update(n_bins or {})
    sv = world.Survey(ctx.scratch(), probes=probes, n_bins=nb, **kw)
    fc = sv.forecast_config()
    z = np.linspace(.05, 2.45, 129) if z is None else z
    co = _cosmo(ctx, z, c)
    ang = sv.angular_config(cl=cl, kx=kx, ky=ky)
    return sv, fc, z, co, ang


def _cosmo(ctx, z, c=None, fid=None):
    c = c or dict(world.COSMO)
    k = np.logspace(-5, 1.6, 200)
    f = ctx.scratch() / "p.h5"
    world.write_cosmology_file(f, z, k, c, params=world.cosmo_params(c, fid=world.COSMO))
    return Cosmology.fromHDF5(f)


def _cut(k, kc, width):
    t = np.clip((k - kc + width) / (2 * width), 0, 1)
    return 1 - t ** 4 * (35 - 84 * t + 70 * t ** 2 - 20 * t ** 3)


def _boole(y, x):
    w = np.tile([14, 32, 12, 32], len(x) // 4 + 1)[:len(x)].astype(float)
    w[0] = w[-1] = 7
    return y @ w * 2 * (x[1] - x[0]) / 45


def _romberg(y, x):
    n = len(x) - 1
    row = []
    while n:
        s = (len(x) - 1) // n
        new = [_trap(y[..., ::s], x[::s])]
        row.append(new)
        n //= 2
    row = row[::-1]
    for i in range(1, len(row)):
        for m in range(1, i + 1):
            row[i].append((4 ** m * row[i][m - 1] - row[i - 1][m - 1]) / (4 ** m - 1))
    return row[-1][-1]


RULES = {"quad": _trap, "newton-cotes_1": _trap, "newton-cotes_4": _boole, "romberg": _romberg}


def _reference(col, key, z, c, cut=None, method="simpson"):
    a, b = key.split("_")
    ells = col.cl_dict[key].l_bin_centers
    H, r = 100 * c["h"] * world.E_of_z(z, c), world.comoving(z, c)
    k = (ells[:, None] + .5) / r[None, :]
    P = np.array([world.pmm(z[q:q + 1], k[:, q], c)[1][0] for q in range(len(z))]).T
    if cut and "Void" in key:
        P = P * _cut(k, *cut)
    w1, w2 = col.weight_dict[a].w_bin_z, col.weight_dict[b].w_bin_z
    ker = w1[:, None, :] * w2[None, :, :] * world.C_KMS / (H * r ** 2)
    f = P[:, None, None, :] * ker[None]
    return RULES.get(method, _simpson)(f, z), _trap(np.abs(f), z)


def spectra(ctx):
    for it in range(ctx.n(7, 50)):
        probes = [p for p in world.LONG if ctx.rng.random() < .65] or ["WL"]
        if it % 3 == 0:
            probes = list(world.LONG)
        method = ("simpson", "newton-cotes_1", "newton-cotes_2", "romberg", "quad", "newton-cotes_4")[it % 6]
        offdiag = bool(it % 2)
        l_ranges = {"GCsp": (10, 800), "GCph": (10, 800)}
        kw = dict(n_ell=int(ctx.rng.integers(2, 6)), offdiag=offdiag, include_IA=bool(ctx.rng.random() < .5),
                  bias="constant", l_ranges=l_ranges, width=float(ctx.rng.uniform(.1, .5)))
        if it % 3 == 1:  # many bins for one probe
            kw["n_bins"] = {probes[int(ctx.rng.integers(len(probes)))]: int(ctx.rng.integers(6, 12))}
        c = dict(world.COSMO, h=float(ctx.rng.uniform(.5, .9)), Omm=float(ctx.rng.uniform(.2, .4)))
        c["OmDE"] = 1 - c["Omm"]
        sv, fc, z, co, ang = _build(ctx, probes, c=c, cl=method, kx=int(ctx.rng.choice([3, 5])), ky=int(ctx.rng.choice([3, 5])), **kw)
        kc, wd = float(ctx.rng.uniform(.05, .5)), float(ctx.rng.uniform(.02, .05))
        if "V" in probes:
            sv.cfg["probes"]["V"]["specific_settings"] = {"void_kcut_invMpc": kc, "void_kcut_width_invMpc": wd}
            sv.write()
            fc = sv.forecast_config()
        dens = cl_core.compute_densities(fc.probe_configs, z)
        col = cl_core.compute_cls(co, fc.phys_pars, dens, fc, ang, fiducial_cosmology=co)
        longs = [world.LONG[p] for p in fc_order(fc)]
        want_keys = {f"{a}_{b}" for i, a in enumerate(longs) for b in longs[i:]}
        ctx.same(set(col.cl_dict), want_keys, "pairs", probes=longs)
        for key, cl in col.cl_dict.items():
            a, b = key.split("_")
            want, size = _reference(col, key, z, c, (kc, wd), method)
            if a == b == "SpectroscopicGalaxy" and not offdiag:
                want = want * np.eye(want.shape[1])
                ctx.saw("offdiag_off")
            if "Void" in key:
                ctx.saw("cut_multipoles", len(cl.l_bin_centers))
            ctx.case((key, want.shape, method), sample=dict(pair=key, shape=want.shape, method=method))
            ctx.same(cl.c_lij.shape, want.shape, "shape", key=key)
            dev = np.abs(cl.c_lij - want) / np.where(size > 0, size, 1)
            ctx.check(np.all(dev <= (.2 if method == "quad" else 1e-5)), "limber-integral", key=key, method=method, worst=float(dev.max()), shape=want.shape)
            ctx.same(cl.l_bin_centers, fc.probe_configs[a].l_bin_centers, "multipoles")
            ctx.same((cl.probe1, cl.probe2, cl.obs_key), (a, b, key), "header")
            if a == b:
                ctx.check(np.array_equal(cl.c_lij, np.swapaxes(cl.c_lij, 1, 2)), "auto-symmetric", key=key)
            ctx.check(col[key] is cl, "collection-access")
        z0 = z.copy()
        ctx.check(np.array_equal(col.z_grid, z0), "grid")


def fc_order(fc):
    inv = {v: k for k, v in world.LONG.items()}
    return [inv[p] for p in fc.present_probes]


def metamorphic(ctx):
    for it in range(ctx.n(4, 24)):
        z = np.linspace(.05, 2.45, 65)
        c = dict(world.COSMO)
        seed_state = ctx.rng.bit_generator.state
        sv, fc, z, co, ang = _build(ctx, tuple(world.LONG), z=z, n_ell=3, include_IA=bool(it % 2))
        dens = cl_core.compute_densities(fc.probe_configs, z)
        full = cl_core.compute_cls(co, fc.phys_pars, dens, fc, ang, fiducial_cosmology=co)
        # a survey of fewer probes has the same spectra
        sub = [p for p in world.LONG if ctx.rng.random() < .5] or ["GCph"]
        for p in world.LONG:
            sv.cfg["probes"][p]["presence_flag"] = p in sub
        sv.write()
        fc2 = sv.forecast_config()
        part = cl_core.compute_cls(_cosmo(ctx, z), fc2.phys_pars, cl_core.compute_densities(fc2.probe_configs, z), fc2, ang, fiducial_cosmology=co)
        ctx.same(len(part.cl_dict), len(sub) * (len(sub) + 1) // 2, "pair-number")
        for key in part.cl_dict:
            ctx.case((it, key, ctx.round), sample=dict(pair=key, probes=sub))
            ctx.close(part[key].c_lij, full[key].c_lij, "independent-of-other-probes", rtol=1e-12, key=key)
        # four times the matter spectrum: four times every spectrum
        co4 = _cosmo(ctx, z)
        co4.power_spectrum.nonlin_p_mm_z_k = 4 * co4.power_spectrum.nonlin_p_mm_z_k
        four = cl_core.compute_cls(co4, fc.phys_pars, dens, fc, ang, fiducial_cosmology=co)
        # one bias value scales the rows and columns of its bin only
        par = fc.phys_pars["bgsp0"]
        par.current_value = par.fiducial * 3
        for p in ("bgsp1", "bgsp2"):
            if p in fc.phys_pars:
                fc.phys_pars[p].current_value = fc.phys_pars[p].fiducial * 3
        thr = cl_core.compute_cls(_cosmo(ctx, z), fc.phys_pars, dens, fc, ang, fiducial_cosmology=co)
        fc.phys_pars.resetPhysicalParametersToFiducial()
        for key in full.cl_dict:
            ctx.close(four[key].c_lij, 4 * full[key].c_lij, "linear-in-the-spectrum", rtol=1e-8, atol=1e-13 * np.abs(full[key].c_lij).max(), key=key)
            f = 3 ** key.count("SpectroscopicGalaxy")
            ctx.close(thr[key].c_lij, f * full[key].c_lij, "linear-in-the-bias", rtol=1e-10, key=key)
        # partially overlapping multipole ranges: pairs live on the common multipoles
        d = ctx.scratch()
        ext = np.array([[10., 2.], [20., 3.], [40., 5.], [80., 7.]])
        own = np.array([[20., 3.], [40., 5.], [80., 7.], [200., 11.]])
        np.savetxt(sv.data / "a.txt", ext)
        np.savetxt(sv.data / "b.txt", own)
        for p in world.LONG:
            sv.cfg["probes"][p]["presence_flag"] = p in ("WL", "GCph")
        sv.cfg["probes"]["WL"]["ell_external_filename"] = "a.txt"
        sv.cfg["probes"]["GCph"]["ell_external_filename"] = "b.txt"
        sv.write()
        fc3 = sv.forecast_config()
        lim = cl_core.compute_cls(_cosmo(ctx, z), fc3.phys_pars, cl_core.compute_densities(fc3.probe_configs, z), fc3, ang)
        ctx.saw("partial_overlap")
        for key, e in (("Lensing_Lensing", ext), ("PhotometricGalaxy_PhotometricGalaxy", own), ("Lensing_PhotometricGalaxy", ext[1:])):
            key = key if key in lim.cl_dict else "_".join(reversed(key.split("_")))
            ctx.same(lim[key].l_bin_centers, e[:, 0], "common-multipoles", key=key)
            ctx.same(lim[key].l_bin_widths, e[:, 1], "common-widths", key=key)
            ctx.close(lim[key].c_lij, _reference(lim, key, z, c)[0], "values-at-common-multipoles", rtol=5e-3,
                      atol=3e-3 * np.abs(lim[key].c_lij).max(), key=key)
        blank = AngularCoefficientsCollector(phys_params=fc.phys_pars, cosmology=co, forecast_config=fc, angular_config=ang)
        ctx.raises(blank.evaluateAngularCoefficients, "evaluated-before-setup", exc=ClError)


def integrals(ctx):
    """the integral of every method is exact on the polynomials it must integrate exactly"""
    for it in range(ctx.n(60, 500)):
        method, deg, npts = [("simpson", 2, int(ctx.rng.integers(4, 40))), ("simpson", 3, 2 * int(ctx.rng.integers(2, 20)) + 1),
                             ("quad", 1, int(ctx.rng.integers(3, 30))), ("romberg", 5, 2 ** int(ctx.rng.integers(3, 6)) + 1),
                             ("newton-cotes_1", 1, int(ctx.rng.integers(4, 30))), ("newton-cotes_2", 2, 2 * int(ctx.rng.integers(2, 16)) + 1),
                             ("newton-cotes_3", 3, 3 * int(ctx.rng.integers(2, 11)) + 1), ("newton-cotes_4", 4, 4 * int(ctx.rng.integers(1, 9)) + 1)][it % 8]

        class Cfg:
            cl_integration_method = method
        lo = float(ctx.rng.uniform(0, .5))
        x = np.linspace(lo, lo + float(ctx.rng.uniform(.5, 3)), npts)

        class Co:
            z_grid = x
        cl = AngularCoefficient(probe1="Lensing", probe2="Void", angular_config=Cfg())
        cl.cosmology = Co()
        co = ctx.rng.normal(size=(3, deg + 1))
        y = np.array([np.polyval(p, x) for p in co])
        want = np.array([np.polyval(np.polyint(p), x[-1]) - np.polyval(np.polyint(p), x[0]) for p in co])
        ctx.case((method, npts), sample=dict(method=method, points=npts))
        keep = y.copy()
        ctx.close(cl.computeClIntegral(y, axis=-1), want, "integral", rtol=1e-7, atol=1e-7, method=method, points=npts)
        ctx.check(np.array_equal(y, keep), "integrand-mutated")
        Cfg.cl_integration_method = "romberg"
        if np.log2(npts - 1) % 1:
            ctx.raises(lambda: cl.computeClIntegral(y, axis=-1), "romberg-sample-number", exc=ValueError)
        Cfg.cl_integration_method = "magic"
        ctx.raises(lambda: cl.computeClIntegral(y, axis=-1), "unknown-method", exc=ClError)


SECTIONS = [spectra, metamorphic, integrals]
