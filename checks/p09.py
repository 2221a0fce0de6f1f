"""P09: tomographic redshift densities, surface densities and shot noise."""
import h5py
import numpy as np
from scipy.interpolate import CubicSpline
from scipy.special import erf

from seyfert.cosmology import redshift_density as rd
from seyfert.cosmology.redshift_density import RedshiftDensity
from vlib import world

PROPERTY = "P09"
LEVEL = "exploration"
RULE = ("random galaxy distributions (domains, samplings, instrument responses, equal and unequal bins, bins reaching outside the domain) and "
        "already binned inputs, evaluated on random grids against closed-form (error function) convolutions and an independent cubic spline; "
        "a case is non-trivial when it has at least two bins")
ASSUMPTIONS = ["responses are at least 0.02 wide, so that adaptive quadrature sees them",
               "between samples the input is its natural (not-a-knot) cubic interpolant, and zero outside the sampled domain"]
NEEDS = {"oracle.convolved": 60, "oracle.binned": 100, "oracle.overlaps": 187, "overlapping_pairs": 9, "outside_points": 20}


def _cut(x, y):
    cs = CubicSpline(x, y, bc_type="not-a-knot")

    def f(z):
        z = np.asarray(z, float)
        return np.where((z >= x[0]) & (z <= x[-1]), cs(z), 0.0)

    def integral(a, b):
        a, b = max(a, x[0]), min(b, x[-1])
        return float(cs.integrate(a, b)) if b > a else 0.0
    return f, integral


def _response(z, lo, hi, r):
    """probability that a galaxy at z is measured between lo and hi"""
    out = 0
    for amp, c, zm, s in ((1 - r["f_out"], r["c_b"], r["z_b"], r["sigma_b"]), (r["f_out"], r["c_o"], r["z_o"], r["sigma_o"])):
        w = np.sqrt(2) * s * (1 + z)
        out = out + amp / (2 * c) * (erf((c * hi - z + zm) / w) - erf((c * lo - z + zm) / w))
    return out


def _case(ctx):
    lo, hi = float(ctx.rng.uniform(.001, .1)), float(ctx.rng.uniform(1.8, 3.5))
    x = np.linspace(lo, hi, int(ctx.rng.integers(150, 400)))
    nb = int(ctx.rng.integers(1, 5))
    e = np.sort(ctx.rng.uniform(lo, hi * .8, size=nb + 1)) if ctx.rng.random() < .5 else np.linspace(lo + .05, hi * .7, nb + 1)
    if np.min(np.diff(e)) < .05:
        e = np.linspace(lo + .05, hi * .7, nb + 1)
    r = dict(c_b=float(ctx.rng.uniform(.95, 1.05)), c_o=float(ctx.rng.uniform(.9, 1.1)), f_out=float(ctx.rng.choice([0., .1, .3, .6, .8])),
             sigma_b=float(ctx.rng.uniform(.03, .08)), sigma_o=float(ctx.rng.uniform(.03, .1)), z_b=float(ctx.rng.uniform(-.02, .02)),
             z_o=float(ctx.rng.uniform(-.1, .1)))
    return x, e, r


def convolved(ctx):
    for it in range(ctx.n(3, 14)):
        x, e, r = _case(ctx)
        z0, amp, fs = float(ctx.rng.uniform(.5, 1.1)), float(10 ** ctx.rng.uniform(3, 8)), float(ctx.rng.uniform(.05, .5))
        f = ctx.scratch() / "d.h5"
        world.write_density(f, "PhotometricGalaxy", e, z_dom=x, resp=r, z0=z0, amp=amp, f_sky=fs)
        d = RedshiftDensity.fromHDF5(f)
        nb = len(e) - 1
        ctx.case((it, ctx.round, nb), sample=dict(edges=e, response=r), nontrivial=nb > 1)
        grid = np.linspace(.01, x[-1] * ctx.rng.choice([.9, 1.1]), int(ctx.rng.integers(10, 25)))
        ctx.raises(lambda: d.evaluate(grid), "evaluated-before-setup", exc=rd.DensityError)
        ctx.raises(lambda: d.computeTotalGalaxyNumber(), "counted-before-setup", exc=rd.DensityError)
        d.setUp()
        d.evaluate(grid)
        d.evaluateSurfaceDensity()
        ctx.same(d.probe, "PhotometricGalaxy", "probe")
        ctx.same(d.n_bins, nb, "bin-number")
        ctx.close(d.z_bin_centers, (e[1:] + e[:-1]) / 2, "bin-centres", rtol=1e-12)
        ctx.close([d.z_min, d.z_max], [x[0], x[-1]], "domain")
        dn, integ = _cut(x, world.dndz(x, z0, amp))
        fine = np.linspace(x[0], x[-1], 6001)
        for i in range(nb):
            raw = lambda z: dn(z) * _response(z, e[i], e[i + 1], r)
            norm = np.trapz(raw(fine), fine)
            want = raw(grid) / norm
            ctx.close(d.norm_density_iz[i], want, "convolved-density", rtol=2e-5, atol=1e-6 * want.max(), bin=i, edges=e, response=r)
            ctx.close(d.bin_norm_factors[i], norm, "normalisation", rtol=2e-5)
            ctx.close(d.computeNormalizedDensityAtBinAndRedshift(i, float(grid[3])), want[3], "scalar-density", rtol=2e-5, atol=1e-6 * want.max())
            ctx.close(d.convolvedNdzdOmegaWithInstrumentResponse(grid, i), raw(grid), "unnormalised", rtol=2e-5, atol=1e-6 * raw(grid).max())
            dd = np.array([d.computeNormalizedDensityAtBinAndRedshift(i, float(v)) for v in fine[::40]])
            ctx.close(np.trapz(dd, fine[::40]), 1.0, "unit-integral", rtol=5e-3)
            ctx.check(np.all(d.norm_density_iz[i][grid > x[-1]] == 0), "zero-outside-domain")
            ctx.saw("outside_points", int(np.sum(grid > x[-1])))
        ctx.close(d.dN_dOmega_bins, [integ(e[i], e[i + 1]) for i in range(nb)], "surface-density", rtol=1e-6, edges=e)
        ctx.close(d.shot_noise, [1 / integ(e[i], e[i + 1]) for i in range(nb)], "shot-noise", rtol=1e-6)
        tot = integ(x[0], x[-1]) * 4 * np.pi * fs
        ctx.close(d.computeTotalGalaxyNumber(), tot, "total-number-simpson", rtol=1e-4)
        ctx.close(d.computeTotalGalaxyNumber("quad"), tot, "total-number-quad", rtol=1e-5)
        ctx.raises(lambda: d.computeTotalGalaxyNumber("magic"), "unknown-method")
        zz = float(ctx.rng.uniform(.2, 1.5))
        zp = np.linspace(zz - 1.2, zz + 1.5, 4001)
        ctx.close(np.trapz(d.computeInstrumentResponse(zp, zz), zp), _response(zz, zp[0], zp[-1], r), "response", rtol=1e-6)
        ctx.raises(lambda: d.convolvedNdzdOmegaWithInstrumentResponse([.1], 0), "list-accepted", exc=TypeError)
        # an evaluated density survives a file
        out = ctx.scratch() / "o.h5"
        d.saveToHDF5(out)
        back = RedshiftDensity.fromHDF5(out)
        ctx.check(back == d and d == back, "round-trip-equal")
        for n in ("norm_density_iz", "z_grid", "dN_dOmega_bins", "z_bin_edges", "input_z_domain", "input_dN_dz_dOmega"):
            ctx.check(np.array_equal(getattr(back, n), getattr(d, n)), "round-trip-field", field=n)
        ctx.same({k: float(v) for k, v in back.instrument_response.items()}, r, "round-trip-response")
        ctx.same((float(back.catalog_f_sky), bool(back.has_niz_from_input), back.probe), (fs, False, d.probe), "round-trip-scalars")
        _changes(ctx, back, d)
        back.setUp()
        back.evaluate(grid)
        ctx.close(back.norm_density_iz, d.norm_density_iz, "re-evaluation", rtol=1e-10, atol=1e-12)
        # as many points, from and to the same redshifts, and yet another grid
        g2 = np.concatenate([grid[:1], np.sort(ctx.rng.uniform(grid[0], grid[-1], size=len(grid) - 2)), grid[-1:]])
        back.evaluate(g2)
        ctx.same(back.z_grid, g2, "regridded-kept")
        for i in range(nb):
            want = dn(g2) * _response(g2, e[i], e[i + 1], r) / np.trapz(dn(fine) * _response(fine, e[i], e[i + 1], r), fine)
            ctx.close(back.norm_density_iz[i], want, "regridded", rtol=2e-5, atol=1e-6 * want.max(), bin=i)


def _changes(ctx, back, d):
    """a change in any of the arrays makes a density another one"""
    for n in ("norm_density_iz", "z_grid", "dN_dOmega_bins", "z_bin_edges", "input_z_domain", "input_dN_dz_dOmega", "input_n_iz"):
        old = getattr(back, n, None)
        if old is None:
            continue
        new = np.array(old, float)
        new.flat[int(ctx.rng.integers(new.size))] += max(1e-6, abs(new).max() * 1e-6)
        setattr(back, n, new)
        ctx.check(not (back == d) and not (d == back), "changed-array-equal", field=n)
        setattr(back, n, old)
    ctx.check(back == d, "restored-array-differs")


def _binned(ctx, d, probe, nb=None):
    nb = nb or int(ctx.rng.integers(1, 13))
    lo, hi = float(ctx.rng.uniform(.001, .3)), float(ctx.rng.uniform(1.5, 3))
    x = np.linspace(lo, hi, int(ctx.rng.integers(30, 200)))
    e = np.linspace(lo, hi, nb + 1)
    niz = world.gauss_niz(x, e, float(ctx.rng.uniform(.05, .4))) * ctx.rng.uniform(.5, 2)
    dN = 10 ** ctx.rng.uniform(4, 8, size=nb)
    f = d / f"{probe}.h5"
    world.write_density(f, probe, e, z_dom=x, niz=niz, dN=dN, f_sky=.3)
    return f, x, e, niz, dN


def binned(ctx):
    for it in range(ctx.n(12, 100)):
        d = ctx.scratch()
        objs = {}
        for probe in ("Lensing", "PhotometricGalaxy", "SpectroscopicGalaxy", "Void"):
            f, x, e, niz, dN = _binned(ctx, d, probe)
            nb = len(dN)
            o = RedshiftDensity.fromHDF5(f)
            o.setUp()
            grid = np.sort(ctx.rng.uniform(.0005, 3.5, size=30))
            o.evaluate(grid)
            o.evaluateSurfaceDensity()
            ctx.case((it, probe, nb, ctx.round), sample=dict(probe=probe, bins=nb), nontrivial=nb > 1)
            want = np.array([_cut(x, niz[i])[0](grid) for i in range(nb)])
            ctx.close(o.norm_density_iz, want, "binned-density", rtol=1e-7, atol=1e-9)
            out = (grid < x[0]) | (grid > x[-1])
            ctx.saw("outside_points", int(out.sum()))
            ctx.check(np.all(o.norm_density_iz[:, out] == 0), "zero-outside-domain")
            ctx.close(o.dN_dOmega_bins, dN, "surface-density-from-input", rtol=1e-12)
            ctx.close(o.shot_noise, 1 / dN, "shot-noise", rtol=1e-12)
            i = int(ctx.rng.integers(nb))
            ctx.close(o.computeNormalizedDensityAtBinAndRedshift(i, float(grid[4])), want[i, 4], "scalar", rtol=1e-7, atol=1e-9)
            ctx.raises(lambda: o.convolvedNdzdOmegaWithInstrumentResponse(grid, 0), "convolved-twice", exc=rd.DensityError)
            # re-evaluation on another grid replaces the first one
            g2 = np.linspace(.1, 1, 7)
            o.evaluate(g2)
            ctx.close(o.norm_density_iz, np.array([_cut(x, niz[q])[0](g2) for q in range(nb)]), "second-grid", rtol=1e-7, atol=1e-9)
            ctx.same(o.z_grid, g2, "second-grid-kept")
            g3 = np.concatenate([g2[:1], np.sort(ctx.rng.uniform(.1, 1, size=5)), g2[-1:]])
            o.evaluate(g3)
            ctx.close(o.norm_density_iz, np.array([_cut(x, niz[q])[0](g3) for q in range(nb)]), "third-grid", rtol=1e-7, atol=1e-9)
            objs[probe] = o
        out = ctx.scratch() / "all.h5"
        rd.save_densities_to_file(objs, out)
        back = rd.load_densities_from_file(out)
        ctx.same(set(back), set(objs), "collection-names")
        for p, o in objs.items():
            ctx.check(back[p] == o and back[p].probe == p, "collection-equal", probe=p)
            ctx.check(np.array_equal(back[p].norm_density_iz, o.norm_density_iz) and np.array_equal(back[p].input_n_iz, o.input_n_iz)
                      and np.array_equal(back[p].dN_dOmega_bins, o.dN_dOmega_bins), "collection-values", probe=p)
            _changes(ctx, back[p], o)
        # under any other names
        free = {"tenbin": objs["Lensing"], "Lensing": objs["Void"], "other lenses": objs["Lensing"], "v": objs["Void"]}
        rd.save_densities_to_file(free, out.with_name("free.h5"))
        named = rd.load_densities_from_file(out.with_name("free.h5"))
        ctx.same(set(named), set(free), "names-kept")
        for p, o in free.items():
            ctx.check(named[p] == o and named[p].probe == o.probe, "named-equal", name=p)
        a, b = objs["Lensing"], objs["Void"]
        ctx.check(not (a == b), "different-densities-equal")
        c = back["Lensing"]
        c.dN_dOmega_bins = c.dN_dOmega_bins * 1.01
        ctx.check(not (c == a), "changed-density-equal")


def overlaps(ctx):
    for it in range(ctx.n(150, 1500)):
        a, b = sorted(ctx.rng.integers(0, 9, size=2))
        c, e = sorted(ctx.rng.integers(0, 9, size=2))
        ctx.case((int(a), int(b), int(c), int(e)), nontrivial=a < b and c < e)
        if a == b or c == e:
            ctx.raises(lambda: rd.get_bins_overlap(float(a), float(b), float(c), float(e)), "empty-bin-accepted")
            ctx.raises(lambda: rd.get_bins_overlap(float(max(a, 1)), 0., float(min(c, 1)), 5.), "reversed-bin-accepted")
            continue
        cells = set(range(a, b)) & set(range(c, e))
        want = (float(min(cells)), float(max(cells) + 1)) if cells else None
        ctx.same(rd.get_bins_overlap(float(a), float(b), float(c), float(e)), want, "overlap", bins=(a, b, c, e))
        ctx.same(rd.get_bins_overlap(float(c), float(e), float(a), float(b)), want, "overlap-symmetric")
    for it in range(ctx.n(6, 50)):
        d = ctx.scratch()
        f, x, e, niz, dN = _binned(ctx, d, "PhotometricGalaxy", nb=int(ctx.rng.integers(1, 7)))
        xs = np.linspace(.05, 2.8, 200)
        es = np.sort(ctx.rng.uniform(.1, 2.5, size=int(ctx.rng.integers(2, 6))))
        if np.min(np.diff(es)) < .02:
            continue
        if ctx.rng.random() < .4 and len(e) > 2:
            es[0], es[-1] = max(e[0], .06), e[-1]
            es.sort()
        fs = d / "sp.h5"
        world.write_density(fs, "SpectroscopicGalaxy", es, z_dom=xs, z0=1.1, amp=1e6)
        ph, sp = RedshiftDensity.fromHDF5(f), RedshiftDensity.fromHDF5(fs)
        ph.setUp()
        ph.evaluateSurfaceDensity()
        _, integ = _cut(xs, world.dndz(xs, 1.1, 1e6))
        Nsp = np.array([integ(es[j], es[j + 1]) for j in range(len(es) - 1)])
        sp.interpolateInput()
        sp.evaluateSurfaceDensity()
        tol = 1e-6 if es[-1] <= xs[-1] else 1e-3  # adaptive quadrature across the end of the domain
        ctx.close(sp.dN_dOmega_bins, Nsp, "spectroscopic-surface-density", rtol=tol)
        want = np.zeros((len(dN), len(Nsp)))
        for i in range(len(dN)):
            for j in range(len(Nsp)):
                lo, hi = max(e[i], es[j]), min(e[i + 1], es[j + 1])
                if hi > lo:
                    want[i, j] = integ(lo, hi) / (dN[i] * Nsp[j])
                    ctx.saw("overlapping_pairs")
        ctx.case(("noise", it, want.shape, ctx.round), sample=dict(shape=want.shape))
        ctx.close(rd.compute_photoXspectro_shotnoise_ij(ph, sp), want, "overlap-noise", rtol=tol, atol=0)
        ctx.raises(lambda: rd.compute_photoXspectro_shotnoise_ij(sp, ph), "swapped-probes-accepted")


SECTIONS = [convolved, binned, overlaps]
