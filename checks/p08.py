"""P08: background expansion, distances, growth and filtered variance of a cosmology; refusal of invalid parameters."""
import numpy as np
from scipy import integrate as ref_integrate

from seyfert.cosmology.cosmology import Cosmology, CosmologyError
from seyfert.cosmology.parameter import PhysicalParameter
from seyfert.cosmology.power_spectrum import PowerSpectrum
from vlib import world

PROPERTY = "P08"
LEVEL = "exploration"
RULE = ("random CPL cosmologies (flat, open, closed, phantom and thawing dark energy, displaced current values) evaluated at random "
        "scalar redshifts and grids of every spacing, compared with closed forms and an independent Gauss-Legendre quadrature; a case is "
        "non-trivial when wa != 0 or curvature != 0")
ASSUMPTIONS = ["E(z)^2 stays positive on the evaluated range", "distances are decided within 1e-7 (adaptive quadrature tolerance)"]
NEEDS = {"oracle.expansion": 400, "oracle.stored": 96, "oracle.refusals": 60, "oracle.variance": 20, "curved": 7}


def _params(c, fid=None, free=()):
    return {n: PhysicalParameter(name=n, fiducial=float((fid or c)[n]), current_value=float(c[n]), kind="CosmologicalParameter",
                                 is_free_parameter=n in free) for n in c}


def _cosmo(ctx, flat=None):
    flat = bool(ctx.rng.random() < .5) if flat is None else flat
    while True:
        c = dict(world.COSMO)
        c["h"] = float(ctx.rng.uniform(.4, 1.1))
        c["w0"] = float(ctx.rng.uniform(-1.6, -.4))
        c["wa"] = float(ctx.rng.choice([0., ctx.rng.uniform(-1, .6)]))
        c["Omm"] = float(np.round(ctx.rng.uniform(.15, .6), 4))
        c["OmDE"] = 1 - c["Omm"] if flat else float(np.round(ctx.rng.uniform(.3, .9), 4))
        c["gamma"] = float(ctx.rng.choice([ctx.rng.uniform(.3, .8), ctx.rng.uniform(.3, .8), ctx.rng.uniform(.3, .8), 0., -.2, 1.3]))
        if np.all(world.E_of_z(np.linspace(0, 6, 200), c) ** 2 > .05):
            return c, flat


def _elsewhere(ctx, c):
    """fiducial values none of which is the current one"""
    return {n: float(v * ctx.rng.uniform(.9, .97) if v else ctx.rng.uniform(.02, .1)) for n, v in c.items()}


def _growth_ref(z, c):
    z = np.atleast_1d(np.asarray(z, float))
    x = z[:, None] * (world._GLX[None, :] + 1) / 2
    om = c["Omm"] * (1 + x) ** 3 / world.E_of_z(x, c) ** 2
    return np.exp(-((om ** c["gamma"] / (1 + x)) @ world._GLW) * z / 2)


def expansion(ctx):
    for it in range(ctx.n(25, 200)):
        c, flat = _cosmo(ctx)
        displaced = ctx.rng.random() < .5
        fid = _elsewhere(ctx, c) if displaced else c
        co = Cosmology(params=_params(c, fid), flat=flat)
        curved = abs(1 - c["Omm"] - c["OmDE"]) > 1e-9
        ctx.saw("curved", curved)
        ctx.case((it, ctx.round), sample=dict(c), nontrivial=curved or c["wa"] != 0)
        for n in ("h", "w0", "wa", "Omm", "OmDE", "Omb", "sigma8", "ns", "mnu", "gamma"):
            ctx.same(getattr(co, n), c[n], "current-value", name=n)
        ctx.close(co.H0, 100 * c["h"], "H0")
        ctx.close(co.OmK, 1 - c["Omm"] - c["OmDE"], "OmK", atol=1e-9)
        ctx.same(co.cosmo_pars_current, c, "current-values")
        kind = ctx.rng.integers(4)
        z = [np.linspace(0, 3, 7), np.sort(ctx.rng.uniform(0, 5, size=9)), ctx.rng.uniform(.001, 2, size=5), np.array([0., 1e-4, 4.])][kind]
        keep = z.copy()
        E = world.E_of_z(z, c)
        ctx.close(co.computeDimensionlessHubbleParameter(z), E, "E-of-z", rtol=1e-10, cosmo=c)
        ctx.close(co.computeReciprocalDimensionlessHubbleParameter(z), 1 / E, "inverse-E", rtol=1e-10)
        ctx.close(co.computeHubbleParameter(z), 100 * c["h"] * E, "H-of-z", rtol=1e-10)
        ctx.close(co.Omega_m_of_z(z), c["Omm"] * (1 + z) ** 3 / E ** 2, "Omega-m", rtol=1e-10)
        ctx.close(co.computeDimensionlessComovingDistance(z), world.r_tilde(z, c), "r-tilde", rtol=1e-7, atol=1e-9, cosmo=c)
        ctx.close(co.computeComovingDistance(z), world.comoving(z, c), "comoving-distance", rtol=1e-7, atol=1e-5)
        ctx.close(co.computeGrowthFactor(z), _growth_ref(z, c), "growth-rate-integral", rtol=1e-7)
        ctx.check(np.array_equal(z, keep), "grid-mutated")
        for zz in (0.0, float(z[-1]), np.float64(z[1])):
            ctx.close(co.computeDimensionlessHubbleParameter(zz), world.E_of_z(zz, c), "E-scalar", rtol=1e-10)
            ctx.close(co.computeDimensionlessComovingDistance(zz), world.r_tilde(zz, c)[0], "r-tilde-scalar", rtol=1e-7, atol=1e-9)
            ctx.close(co.computeComovingDistance(zz), world.comoving(zz, c)[0], "comoving-scalar", rtol=1e-7, atol=1e-5)
            ctx.close(co.computeGrowthFactor(zz), _growth_ref(zz, c)[0], "growth-scalar", rtol=1e-7)
        # today
        ctx.close(co.computeDimensionlessHubbleParameter(0.0), 1.0, "E-today", rtol=1e-12)
        # monotone distances
        zz = np.sort(ctx.rng.uniform(0, 4, size=12))
        ctx.check(np.all(np.diff(co.computeComovingDistance(zz)) > -1e-9), "distance-monotone")
        ctx.raises(lambda: co.computeDimensionlessComovingDistance([0.1, .2]), "list-accepted", exc=TypeError)
        ctx.raises(lambda: co.computeGrowthFactor("1"), "text-accepted", exc=TypeError)


def _with_spectrum(c, z, k, co):
    p = PowerSpectrum()
    p.z_grid, p.k_grid = z, k
    p.lin_p_mm_z_k, p.nonlin_p_mm_z_k = world.pmm(z, k, c)
    co.power_spectrum = p
    return p


def stored(ctx):
    """functions evaluated over the grid are those of the current parameters; growth comes from the linear spectrum"""
    for it in range(ctx.n(8, 60)):
        c, flat = _cosmo(ctx)
        z = np.sort(ctx.rng.uniform(.01, 3, size=int(ctx.rng.integers(3, 40))))
        k = np.logspace(-4, 1, int(ctx.rng.integers(5, 60)))
        fid = _elsewhere(ctx, c) if it % 2 else c
        co = Cosmology(params=_params(c, fid), flat=flat, z_grid=z)
        p = _with_spectrum(c, z, k, co)
        ctx.case((it, ctx.round, len(z)), sample=dict(c, n_z=len(z)))
        lin = p.lin_p_mm_z_k.copy()
        co.evaluateOverRedshiftGrid()
        ctx.close(co.E_z, world.E_of_z(z, c), "stored-E", rtol=1e-10)
        ctx.close(co.H_z, 100 * c["h"] * world.E_of_z(z, c), "stored-H", rtol=1e-10)
        ctx.close(co.r_tilde_z, world.r_tilde(z, c), "stored-r-tilde", rtol=1e-7, atol=1e-9)
        ctx.close(co.r_z, world.comoving(z, c), "stored-r", rtol=1e-7, atol=1e-5)
        D = np.sqrt(lin[:, 0] / lin[0, 0])
        ctx.close(co.growth_factor_z, D, "growth-from-spectrum", rtol=1e-10)
        ctx.close(p.getGrowthFromLinearPowerSpectrum(), D, "growth-method", rtol=1e-10)
        ctx.check(np.array_equal(p.lin_p_mm_z_k, lin), "spectrum-mutated")
        ctx.check(np.array_equal(co.k_grid, k), "k-grid")
        first = (co.E_z.copy(), co.r_tilde_z.copy(), co.growth_factor_z.copy())
        co.evaluateOverRedshiftGrid()
        ctx.check(all(np.array_equal(a, b) for a, b in zip(first, (co.E_z, co.r_tilde_z, co.growth_factor_z))), "evaluation-idempotent")
        # rescaling makes the spectra grow as the chosen growth factor, at every wavenumber, from an unchanged shape
        g = _growth_ref(z, c)
        co.growth_factor_z = g
        non = p.nonlin_p_mm_z_k.copy()
        co.rescalePowerSpectrumByComputedGrowth()
        ctx.close(p.lin_p_mm_z_k, lin * (g / D)[:, None] ** 2, "rescaled-linear", rtol=1e-9)
        ctx.close(p.nonlin_p_mm_z_k, non * (g / D)[:, None] ** 2, "rescaled-nonlinear", rtol=1e-9)
        # through a file: parameters, flatness and stored arrays come back; missing arrays are evaluated
        f = ctx.scratch() / "c.h5"
        evaluated = bool(ctx.rng.random() < .5)
        world.write_cosmology_file(f, z, k, c, params=world.cosmo_params(c, fid=fid), growth_factor=evaluated, evaluated=evaluated, flat=flat)
        back = Cosmology.fromHDF5(f)
        ctx.same(back.cosmo_pars_current, c, "file-parameters")
        ctx.check(bool(back.is_flat) == flat, "file-flatness")
        ctx.check(np.array_equal(back.z_grid, z), "file-grid")
        lin2, non2 = world.pmm(z, k, c)
        ctx.check(np.array_equal(back.power_spectrum.lin_p_mm_z_k, lin2) and np.array_equal(back.power_spectrum.nonlin_p_mm_z_k, non2), "file-spectra")
        back.evaluateOverRedshiftGrid()
        ctx.close(back.E_z, world.E_of_z(z, c), "file-E", rtol=1e-10)
        ctx.close(back.r_tilde_z, world.r_tilde(z, c), "file-r", rtol=1e-7, atol=1e-9)
        ctx.close(back.growth_factor_z, world.growth(z, c) / world.growth(z[:1], c), "file-growth", rtol=1e-9)
        ctx.check(Cosmology.fromHDF5(f, load_power_spectrum=False).power_spectrum is None, "spectrum-not-requested")
        empty = Cosmology(params=_params(c), flat=flat)
        ctx.raises(empty.evaluateOverRedshiftGrid, "missing-grid-accepted", exc=ValueError)


def refusals(ctx):
    for it in range(ctx.n(30, 200)):
        c, _ = _cosmo(ctx, flat=True)
        ctx.case((it, ctx.round))
        w = float(ctx.rng.choice([1.0, 1.0001, 5., np.nextafter(1, 2)]))
        ctx.raises(lambda: Cosmology(params=_params(dict(c, w0=w)), flat=True), "w0-accepted", exc=CosmologyError, w0=w)
        ctx.raises(lambda: Cosmology(params=_params(c, dict(c, w0=w)), flat=True), "w0-fiducial-accepted", exc=CosmologyError, w0=w)
        ctx.raises(lambda: Cosmology(params=_params(dict(c, w0=w), c), flat=True), "w0-current-accepted", exc=CosmologyError, w0=w)
        a = float(ctx.rng.choice([2.0, -2.0, 3., -7.5, 2.000001]))
        ctx.raises(lambda: Cosmology(params=_params(dict(c, wa=a), c), flat=True), "wa-current-accepted", exc=CosmologyError, wa=a)
        ctx.raises(lambda: Cosmology(params=_params(c, dict(c, wa=a)), flat=True), "wa-fiducial-accepted", exc=CosmologyError, wa=a)
        d = float(ctx.rng.choice([1, -1]) * 10.0 ** ctx.rng.uniform(-8, -.6))
        ctx.raises(lambda: Cosmology(params=_params(dict(c, OmDE=c["OmDE"] + d)), flat=True), "curved-flat-accepted", exc=CosmologyError, d=d)
        with ctx.op("curved"):
            Cosmology(params=_params(dict(c, OmDE=c["OmDE"] + d)), flat=False)
            for w0, wa in ((np.nextafter(1, 0), 0.), (-3., 1.999), (-.5, -1.999)):
                Cosmology(params=_params(dict(c, w0=float(w0), wa=wa)), flat=True)
        ctx.raises(lambda: Cosmology(params=_params(c)), "flatness-unspecified", exc=CosmologyError)
        ctx.raises(lambda: Cosmology(flat=True), "parameters-unspecified", exc=CosmologyError)
        # reloading into an existing object re-checks its parameters
        z, k = np.linspace(.1, 1, 4), np.logspace(-3, 0, 5)
        f = ctx.scratch() / "c.h5"
        world.write_cosmology_file(f, z, k, dict(c, w0=w), params=world.cosmo_params(dict(c, w0=w)))
        ctx.raises(lambda: Cosmology.fromHDF5(f), "invalid-file-accepted", exc=CosmologyError)
        ctx.raises(lambda: Cosmology().loadFromHDF5(f), "invalid-file-loaded", exc=CosmologyError)
        world.write_cosmology_file(f, z, k, c, params=world.cosmo_params(c))
        with ctx.op("load"):
            blank = Cosmology()
            blank.loadFromHDF5(f)
            ctx.same(blank.cosmo_pars_current, c, "loaded-parameters")
            ctx.check(bool(blank.is_flat) and np.array_equal(blank.z_grid, z) and np.array_equal(blank.power_spectrum.k_grid, k), "loaded-grids")
        e1, e2 = Cosmology(params=_params(c), flat=True), Cosmology(params=_params(c), flat=True)
        ctx.check(e1 == e2, "equal-cosmologies")
        n = ("h", "ns", "Omb")[ctx.rng.integers(3)]
        e3 = Cosmology(params=_params(dict(c, **{n: c[n] + .01})), flat=True)
        ctx.check(not (e1 == e3), "different-parameters-equal", name=n)


def _step(x):
    x = np.clip(x, 0, 1)
    return x ** 4 * (35 - 84 * x + 70 * x ** 2 - 20 * x ** 3)


def variance(ctx):
    """sigma_R: the linear spectrum of the first redshift filtered at 1/R, smoothed between 0.9/R and 1.1/R"""
    for it in range(ctx.n(8, 50)):
        c, flat = _cosmo(ctx)
        z = np.sort(ctx.rng.uniform(0, 2, size=4))
        k = np.logspace(-4, 1.3, 3001)
        co = Cosmology(params=_params(c), flat=flat, z_grid=z)
        p = _with_spectrum(c, z, k, co)
        R = np.sort(ctx.rng.uniform(1, 40, size=5))
        ctx.case((it, ctx.round), sample=dict(R=R))

        def ref(r, P):
            filt = 1 - _step((k * r - .9) / .2)
            return np.sqrt(ref_integrate.trapezoid(k ** 3 * P * filt ** 2 / (2 * np.pi ** 2), np.log(k)))
        want = np.array([ref(r, p.lin_p_mm_z_k[0]) for r in R])
        got = co.computeSigmaR(R)
        ctx.close(got, want, "sigma-R", rtol=2e-4)
        ctx.close([co.computeSigmaR(float(r)) for r in R], want, "sigma-R-scalar", rtol=2e-4)
        ctx.close(co.computeSigmaR(8), ref(8, p.lin_p_mm_z_k[0]), "sigma-R-int", rtol=2e-4)
        ctx.check(np.all(np.diff(got) < 0), "sigma-R-decreases-with-R")
        ctx.close(Cosmology.sigmaR(float(R[2]), P_lin=4 * p.lin_p_mm_z_k[1], k=k), 2 * ref(R[2], p.lin_p_mm_z_k[1]), "sigma-R-scaling", rtol=2e-4)
        ctx.raises(lambda: co.computeSigmaR([1., 2.]), "list-accepted", exc=TypeError)


SECTIONS = [expansion, stored, refusals, variance]
