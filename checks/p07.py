"""P07: derivatives of the spectra: SteM slope over displaced files, zero where there is no dependence, analytic bias."""
import itertools
import json

import h5py
import numpy as np

from seyfert.derivatives.cl_derivative import ClDerivative, ClDerivativeCollector, collect_cl_derivatives
from seyfert.derivatives.differentiator import AnalyticClDifferentiator, SteMClDifferentiator
from seyfert.cosmology.parameter import PhysicalParameter
from seyfert.main import cl_core, seyfert_core
from seyfert.cosmology.cosmology import Cosmology
from vlib import world

PROPERTY = "P07"
LEVEL = "exploration"
RULE = ("random displacement tables (3-21 points) and spectra made of straight, curved, outlier-ridden, sign-changing "
        "and constant elements, decided element by element against an independent scalar statement of the window rule; "
        "the same through displaced files on disk in random creation order; non-trivial = some element needs a window "
        "narrower than the full one")
ASSUMPTIONS = ["elements whose relative deviation is within 1e-6 of the 1% linearity threshold are not decided",
               "elements that vanish at a displaced point but not everywhere are not decided",
               "the analytic piecewise derivative is decided within the accuracy of the redshift grid"]
NEEDS = {"oracle.slopes": 200, "narrow_windows": 300, "three_point_fallbacks": 50, "oracle.files": 100, "oracle.analytic": 20, "uninvolved_zero": 4}


def reference(x, y):
    """slope of the widest symmetric window that is straight within 1%; (slope, window size) or None if undecided"""
    if np.max(y) == np.min(y):
        return 0.0, len(y)
    if np.any(y == 0):
        return None
    order = np.argsort(x)
    x, y = np.asarray(x)[order], np.asarray(y)[order]
    while True:
        xm, ym = x.mean(), y.mean()
        a = ((x - xm) * (y - ym)).sum() / ((x - xm) ** 2).sum()
        dev = np.abs((y - (ym + a * (x - xm))) / y).max()
        if len(y) <= 3:
            return a, len(y)
        if abs(dev - .01) < 1e-6:
            return None
        if dev < .01:
            return a, len(y)
        x, y = x[1:-1], y[1:-1]


def _elements(ctx, x, shape):
    """random spectra with tagged behaviour"""
    xc, half = x[len(x) // 2], (x.max() - x.min()) / 2
    u = (x - xc) / half
    n = int(np.prod(shape))
    y = np.empty((len(x), n))
    size = 10.0 ** ctx.rng.choice([0, 0, -12])  # all of them may be tiny
    for e in range(n):
        kind = ctx.rng.integers(7)
        amp = size * 10.0 ** ctx.rng.integers(-12, 3) * ctx.rng.choice([1, -1])
        s = ctx.rng.uniform(-.5, .5)
        if kind == 0:
            v = 1 + s * u
        elif kind == 1:
            v = 1 + s * u + ctx.rng.uniform(-1.5, 1.5) * u ** 2
        elif kind == 2:
            v = np.exp(ctx.rng.uniform(-2, 2) * u)
        elif kind == 3:
            v = np.full(len(x), 1.0)
        elif kind == 4:
            v = 1 + s * u
            v[ctx.rng.choice([0, 1, -1, -2])] *= ctx.rng.uniform(1.05, 1.5)
        elif kind == 5:
            v = 1 + s * u + ctx.rng.uniform(-.5, .5) * u ** 3
        else:
            v = 1 + s * u + .3 * ctx.rng.normal(size=len(x))
        y[:, e] = amp * v
    return y.reshape((len(x),) + tuple(shape))


def _judge(ctx, got, x, y, tag, **kw):
    got = np.asarray(got)
    ctx.same(got.shape, y.shape[1:], "shape-" + tag)
    flat, g = y.reshape(len(x), -1), got.reshape(-1)
    for e in range(flat.shape[1]):
        ref = reference(x, flat[:, e])
        if ref is None:
            ctx.saw("undecided_elements")
            continue
        a, n = ref
        ctx.saw("narrow_windows", n < len(x))
        ctx.saw("three_point_fallbacks", n == 3 < len(x))
        tol = 1e-7 * abs(a) + 1e-9 * np.abs(flat[:, e]).max() / (x.max() - x.min())
        ctx.check(abs(g[e] - a) <= tol, "slope-" + tag, got=g[e], want=a, window=n, points=len(x), y=flat[:, e], x=x, **kw)


def slopes(ctx):
    for it in range(ctx.n(60, 500)):
        k = int(ctx.rng.integers(1, 11))
        base = np.sort(np.unique(np.round(ctx.rng.uniform(.002, .12, size=k), 5)))
        eps = np.concatenate([-base[::-1], [0], base])
        fid = float(ctx.rng.choice([0.0, .67, -1.0, 2.2, 1e-3, -.41]))
        x = eps.copy() if fid == 0 else fid * (1 + eps)
        shape = tuple(int(v) for v in ctx.rng.integers(1, 5, size=3))
        y = _elements(ctx, x, shape)
        keepx, keepy = x.copy(), y.copy()
        ctx.case((it, ctx.round, len(x), shape), sample=dict(points=len(x), shape=shape, fiducial=fid), nontrivial=len(x) > 3)
        _judge(ctx, SteMClDifferentiator.vectorizedSteM(x, y), x, y, "vectorized", fid=fid)
        s = np.array([SteMClDifferentiator.STEM_derivative(x, y.reshape(len(x), -1)[:, e]) for e in range(int(np.prod(shape)))])
        _judge(ctx, s.reshape(shape), x, y, "scalar", fid=fid)
        ctx.check(np.array_equal(x, keepx) and np.array_equal(y, keepy), "inputs-mutated")
        # element independence: the value of an element does not depend on its neighbours
        one = SteMClDifferentiator.vectorizedSteM(x, y[:, :1, :1, :1])
        _judge(ctx, one, x, y[:, :1, :1, :1], "vectorized-alone", fid=fid)
        # through the differentiator, both ways
        par = PhysicalParameter(name="w0", fiducial=fid, kind="CosmologicalParameter", is_free_parameter=True)

        class PP:
            @staticmethod
            def computePhysParSTEMValues(dvar):
                assert dvar == "w0"
                return x.copy()
        for vec in (True, False):
            d = SteMClDifferentiator(vectorized=vec, phys_pars=PP(), probe1="Lensing", probe2="Lensing", param=par)
            d.c_dvar_lij = y.copy()
            _judge(ctx, d.doComputeDerivative(), x, y, f"differentiator-{vec}")
    # entirely constant
    z = np.full((5, 2, 2, 2), 3.0)
    ctx.same(SteMClDifferentiator.vectorizedSteM(np.arange(5.) - 2, z), np.zeros((2, 2, 2)), "constant-is-zero")


def _write_cls(path, arrays, ells):
    path.parent.mkdir(parents=True)
    with h5py.File(path, "w") as hf:
        for k, a in arrays.items():
            hf[f"cls/{k}/c_lij"] = a
            hf[f"cls/{k}/l_bin_centers"] = ells


def files(ctx):
    for it in range(ctx.n(4, 16)):
        d = ctx.scratch()
        nb = int(ctx.rng.integers(1, 12))
        bases = np.sort(np.unique(np.round(ctx.rng.uniform(.003, .1, size=nb), 5)))
        nb = len(bases)
        sv = world.Survey(d / "s", probes=("WL", "GCph"), n_bins={"WL": 2, "GCph": 3}, bases=[float(b) for b in bases], free=("w0", "wa", "Omm"))
        ws = sv.make_workspace(d / "run")
        pp = ws.getParamsCollection()
        keys = {"Lensing_Lensing": (2, 2), "Lensing_PhotometricGalaxy": (2, 3), "PhotometricGalaxy_PhotometricGalaxy": (3, 3)}
        ells = np.array([10., 30., 100.])
        dvars = ["w0", "wa", "bgph1", "aIA"]
        steps = [s for s in range(-nb, nb + 1)]
        truth, central = {}, {k: None for k in keys}
        todo = []
        for dv in dvars:
            fid = pp[dv].fiducial
            eps = np.array([0 if s == 0 else np.sign(s) * bases[abs(s) - 1] for s in steps])
            x = fid * (1 + eps) if fid != 0 else eps
            truth[dv] = {}
            for k, sh in keys.items():
                y = _elements(ctx, x, (3,) + sh)
                if central[k] is None:
                    central[k] = y[nb].copy()
                # the central spectrum is shared by all the parameters
                with np.errstate(all="ignore"):
                    y = y * np.where(y[nb] != 0, central[k] / y[nb], 0)[None]
                y[nb] = central[k]
                truth[dv][k] = (x, y)
            for s in steps:
                if s:
                    todo.append((dv, s))
        todo.append(("central", 0))
        # decoys: parameters whose name extends another one
        for dv in ("bgph10", "bgph11"):
            todo += [(dv, s) for s in (-1, 1)]
        for q in ctx.rng.permutation(len(todo)):
            dv, s = todo[q]
            nm = f"dvar_{dv}_step_" + ("0" if s == 0 else f"{'p' if s > 0 else 'm'}_{abs(s)}")
            if dv == "central":
                arr = central
            elif dv in truth:
                arr = {k: truth[dv][k][1][nb + s] for k in keys}
            else:
                arr = {k: central[k] * 1e6 for k in keys}
            _write_cls(ws.cl_dir / nm / ctx.rng.choice(["cls.h5", "cl_x.h5", f"cls_{nm}.h5"]), arr, ells)
        (ws.cl_dir / "notes.txt").write_text("x")
        order = ClDerivativeCollector(dvar="w0", workspace=ws).forecast_config.probes_combinations
        ctx.same(set(order), {("Lensing", "Lensing"), ("Lensing", "PhotometricGalaxy"), ("PhotometricGalaxy", "PhotometricGalaxy")}, "combinations")
        for dv in dvars:
            coll = ClDerivativeCollector(dvar=dv, workspace=ws)
            coll.setUp()
            coll.evaluateDerivatives()
            ctx.case((it, dv, nb), sample=dict(parameter=dv, steps=nb))
            ctx.same(set(coll.dcl_dict), set(keys), "derivative-keys")
            probe = pp[dv].probe
            for k in keys:
                x, y = truth[dv][k]
                got = coll[k].dc_lij
                ctx.same(coll[k].l_bin_centers, ells, "derivative-multipoles")
                if probe is not None and probe not in k.split("_"):
                    ctx.check(np.all(got == 0), "uninvolved-nuisance-derivative-is-zero", par=dv, key=k)
                    ctx.saw("uninvolved_zero")
                else:
                    _judge(ctx, got, x, y, "files", par=dv, key=k, steps=nb)
                # the non-vectorised path agrees
                if ctx.rng.random() < .3 and (probe is None or probe in k.split("_")):
                    p1, p2 = k.split("_")
                    df = SteMClDifferentiator(probe1=p1, probe2=p2, param=pp[dv], workspace=ws, vectorized=False)
                    df.loadClData()
                    _judge(ctx, df.computeDerivative(), x, y, "files-scalar", par=dv, key=k)
            f = ws.der_dir / dv / ctx.rng.choice([f"cl_derivatives_wrt_{dv}.h5", "cl_derivatives.h5", "cl_derivatives_1.h5"])
            f.parent.mkdir(parents=True, exist_ok=True)
            coll.writeToFile(f)
            back = ClDerivativeCollector.fromHDF5(ws.getClDerivativeFile(dv), dvar=dv)
            ctx.same(set(back.dcl_dict), set(keys), "round-trip-keys")
            ctx.same(back.dvar, dv, "round-trip-parameter")
            for k in keys:
                ctx.check(np.array_equal(back[k].dc_lij, coll[k].dc_lij) and np.array_equal(back[k].l_bin_centers, ells)
                          and (back[k].probe1, back[k].probe2) == tuple(k.split("_")), "round-trip", key=k)
                ctx.same(back.ell_dict[k], ells, "round-trip-ells")
                ctx.check(np.array_equal(back.dc_lij_array_dict[k], coll[k].dc_lij), "array-dict")
            # the same collector, another file: of four probes, then back
            four = d / f"four_{dv}.h5"
            big = ClDerivativeCollector(dvar=dv)
            for a, b in itertools.combinations_with_replacement(world.LONG.values(), 2):
                der = ClDerivative(p1=a, p2=b)
                n_l = int(ctx.rng.integers(2, 6))
                der.l_bin_centers, der.dc_lij = np.sort(ctx.rng.uniform(2, 3000, n_l)), ctx.rng.normal(size=(n_l, 2, 2))
                big.dcl_dict[f"{a}_{b}"] = der
            big.writeToFile(four)
            reused = ClDerivativeCollector.fromHDF5(f, dvar=dv)
            for src, want in ((four, big), (f, coll)):
                reused.loadFromFile(src)
                ctx.same(set(reused.dcl_dict), set(want.dcl_dict), "reloaded-keys")
                ctx.check(all(np.array_equal(reused[k].dc_lij, want[k].dc_lij) for k in want.dcl_dict), "reloaded-values")
                ctx.check(all(np.array_equal(reused[k].l_bin_centers, want[k].l_bin_centers) for k in want.dcl_dict), "reloaded-multipoles")
                ctx.check(all(np.array_equal(reused.ell_dict[k], want[k].l_bin_centers) for k in want.dcl_dict), "reloaded-multipoles-of-pairs")
            home = d / f"all_{dv}" / dv
            home.mkdir(parents=True)
            (home / "cl_derivatives_x.h5").write_bytes(four.read_bytes())
            got = collect_cl_derivatives(home.parent)
            ctx.same((set(got), set(got[dv])), ({dv}, set(big.dcl_dict)), "collected-pairs")
            ctx.check(all(np.array_equal(got[dv][k], big[k].dc_lij) for k in big.dcl_dict), "collected-four")
        allc = collect_cl_derivatives(ws.der_dir)
        ctx.same(set(allc), set(dvars), "collected-parameters")
        for dv in dvars:
            b = ClDerivativeCollector.fromHDF5(ws.getClDerivativeFile(dv))
            ctx.check(all(np.array_equal(allc[dv][k], b[k].dc_lij) for k in keys), "collected-values", par=dv)
        ctx.same(ws.collectDerivativeParams(), set(dvars), "derivative-params")
        bad = ClDerivative("Lensing", "Lensing", PhysicalParameter(name="w0", fiducial=-1.0, kind="CosmologicalParameter",
                           is_free_parameter=True, derivative_method="Magic"), ws)
        ctx.raises(bad.evaluate, "unknown-method-accepted")
        # a displaced spectrum that is missing cannot go unnoticed
        dv = dvars[int(ctx.rng.integers(len(dvars)))]
        gone = [c for c in sorted(ws.cl_dir.iterdir()) if c.name.startswith(f"dvar_{dv}_step_")]
        gone = gone if ctx.rng.random() < .3 else [gone[int(ctx.rng.integers(len(gone)))]]
        for c in gone:
            c.rename(c.with_name("away_" + c.name))
        probe = pp[dv].probe or "Lensing"
        ctx.raises(ClDerivative(probe, probe, pp[dv], ws).evaluate, "missing-displacement-unnoticed", par=dv, missing=[c.name for c in gone])


def analytic(ctx):
    for it in range(ctx.n(2, 6)):
        model = ("constant", "piecewise")[it % 2]
        nph = 11 if model == "constant" else 3
        d = ctx.scratch()
        # photometric or spectroscopic galaxies, the latter with or without their off-diagonal elements
        tag = "GCsp" if it % 2 == (it // 2 + ctx.round) % 2 else "GCph"
        offdiag = bool(ctx.rng.random() < .4)
        sv = world.Survey(d / "s", probes=("WL", tag), n_bins={"WL": 2, tag: nph}, bias=model, n_ell=3, offdiag=offdiag, width=.25)
        long = world.LONG[tag]
        if model == "piecewise":
            # a grid that contains the bin edges, and may go beyond the outer ones, where the end values hold
            a, b = sv.edges[tag][0], sv.edges[tag][-1]
            h = (b - a) / 180
            out = ctx.rng.random() < .5
            lo, hi = (int(ctx.rng.integers(0, min(a / h, 40) - 1)), int(ctx.rng.integers(0, 40))) if out else (0, 0)
            sv.z_grid = a + h * np.arange(-lo, 181 + hi)
            ctx.saw("beyond_the_edges", lo + hi)
        ws = sv.make_workspace(d / "run")
        fc = ws.getForecastConfiguration(load_params=True)
        world.write_cosmology_file(ws.getPowerSpectrumFile("central", 0), sv.z_grid, sv.k_grid, world.COSMO)
        cosmo = Cosmology.fromHDF5(ws.getPowerSpectrumFile("central", 0))
        cosmo.evaluateOverRedshiftGrid()
        dens = cl_core.compute_densities(fc.probe_configs, sv.z_grid)
        mk = lambda pars: cl_core.compute_cls(cosmo, pars, dens, fc, ws.getTaskJSONConfiguration("Angular"))
        cls = mk(fc.phys_pars)
        out = ws.cl_dir / "dvar_central_step_0" / "cls_fiducial.h5"
        out.parent.mkdir(parents=True)
        cls.saveToHDF5(out)
        for k in range(nph):
            name = f"{tag.lower().replace('gc', 'bg')}{k}"
            par = fc.phys_pars[name]
            # independent derivative: the spectra are at most quadratic in a bias value
            par.current_value = par.fiducial * 1.01
            up = mk(fc.phys_pars)
            par.current_value = par.fiducial * .99
            dn = mk(fc.phys_pars)
            par.current_value = par.fiducial
            for key in (f"Lensing_{long}", f"{long}_{long}", "Lensing_Lensing"):
                p1, p2 = key.split("_")
                cd = ClDerivative(p1=p1, p2=p2, param=PhysicalParameter(
                    name=name, fiducial=par.fiducial, kind="NuisanceParameter", probe=long, is_free_parameter=True,
                    derivative_method="Analytic"), workspace=ws)
                cd.evaluate()
                want = (up[key].c_lij - dn[key].c_lij) / (.02 * par.fiducial)
                scale = np.abs(want).max()
                # two evaluations of one spectrum may differ in the last digits
                noise = 1e-10 * np.abs(up[key].c_lij).max() / abs(par.fiducial)
                ctx.case((model, k, key, offdiag), sample=(model, name, key, offdiag))
                if model == "constant":
                    ctx.close(cd.dc_lij, want, "analytic-constant", rtol=1e-6, atol=1e-8 * scale + noise, par=name, key=key)
                else:
                    ctx.close(cd.dc_lij, want, "analytic-piecewise", rtol=0, atol=.04 * scale + noise, par=name, key=key)
                ctx.same(cd.l_bin_centers, cls[key].l_bin_centers, "analytic-multipoles")


SECTIONS = [slopes, files, analytic]
