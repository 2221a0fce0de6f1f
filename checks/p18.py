"""P18: persistence of spectra, weights and the rest of what a run writes in HDF5."""
import contextlib
import copy
import io

import h5py
import numpy as np

from seyfert import VERSION
from seyfert.cosmology.c_ells import AngularCoefficient, AngularCoefficientsCollector
from seyfert.cosmology import redshift_density
from seyfert.cosmology.cosmology import Cosmology
from seyfert.cosmology.parameter import PhysicalParameter
from seyfert.cosmology.power_spectrum import PowerSpectrum
from seyfert.file_io import retro_comp
from seyfert.file_io.hdf5_io import AbstractH5FileIO, H5FileModeError
from seyfert.fisher.delta_cl import DeltaCl
from seyfert.main import cl_core
from vlib import probes, world

PROPERTY = "P18"
LEVEL = "exploration"
RULE = ("spectra collections of random surveys (probes, bins, multipoles, with or without kernels) saved, reloaded, saved again and used; files of "
        "earlier releases written independently; generic file operations; distinct = content x path taken")
ASSUMPTIONS = ["a file is read by the release that wrote it, or a later one"]
NEEDS = {"oracle.collections": 300, "oracle.bare": 33, "oracle.generic": 60, "oracle.older": 40, "downstream": 4, "alone": 7, "oracle.states": 100, "told_apart": 3}


def _same_weight(ctx, w, v, tag):
    ctx.same(type(w).__name__, type(v).__name__, tag + "-kind")
    ctx.same(w.probe, v.probe, tag + "-probe")
    ctx.same(w.z_grid, v.z_grid, tag + "-grid")
    ctx.same(w.w_bin_z, v.w_bin_z, tag + "-values")
    ctx.same(w.n_bins, v.n_bins, tag + "-bins")
    d, e = w.density, v.density
    for a in ("norm_density_iz", "z_bin_edges", "catalog_f_sky", "input_z_domain", "dN_dOmega_bins"):
        if hasattr(e, a) and getattr(e, a) is not None:
            ctx.same(getattr(d, a), getattr(e, a), tag + "-density-" + a)
    ctx.check(d == e, tag + "-density-equal")
    if getattr(v, "bias", None) is not None:
        ctx.same((w.bias.probe, w.bias.model_name), (v.bias.probe, v.bias.model_name), tag + "-bias")
        ctx.same(w.bias.b_i_z, v.bias.b_i_z, tag + "-bias-values")
        ctx.same(np.asarray(w.bias.z_bin_edges), np.asarray(v.bias.z_bin_edges), tag + "-bias-edges")


def _same_collection(ctx, a, b, tag):
    """a (loaded) holds what b (saved) holds"""
    ctx.same(set(a.cl_dict), set(b.cl_dict), tag + "-pairs")
    ctx.same(a.z_grid, b.z_grid, tag + "-grid")
    for key, cl in b.cl_dict.items():
        g = a.cl_dict[key]
        ctx.same((g.probe1, g.probe2, g.obs_key), (cl.probe1, cl.probe2, cl.obs_key), tag + "-pair", key=key)
        ctx.same(g.c_lij, cl.c_lij, tag + "-values", key=key)
        ctx.same((g.l_bin_centers, g.l_bin_widths), (cl.l_bin_centers, cl.l_bin_widths), tag + "-multipoles", key=key)
        ctx.check(np.shares_memory(g.c_lij, cl.c_lij) is False, tag + "-detached")
        if cl.kernel is not None:
            ctx.same((g.kernel.probe1, g.kernel.probe2), (cl.kernel.probe1, cl.kernel.probe2), tag + "-kernel-pair")
            ctx.same(g.kernel.k_ijz, cl.kernel.k_ijz, tag + "-kernel", key=key)
            ctx.same(g.kernel.z_grid, cl.kernel.z_grid, tag + "-kernel-grid")
            _same_weight(ctx, g.weight1, cl.weight1, tag + "-weight1")
            _same_weight(ctx, g.weight2, cl.weight2, tag + "-weight2")
            ctx.same((g.n_i, g.n_j), (cl.n_i, cl.n_j), tag + "-shape")
    ctx.same(set(a.weight_dict), set(b.weight_dict), tag + "-weights")
    for p in b.weight_dict:
        _same_weight(ctx, a.weight_dict[p], b.weight_dict[p], tag + "-weight")
    ctx.check(a == b and b == a, tag + "-equal")


def _survey(ctx, **kw):
    ps = [p for p in world.LONG if ctx.rng.random() < .6] or ["GCph"]
    ps = [ps[k] for k in ctx.rng.permutation(len(ps))]
    nb = {p: int(ctx.rng.integers(1, 5)) for p in world.LONG}
    if ctx.rng.random() < .3:
        nb["GCph"] = 11  # two-digit bins
    l_range = (int(ctx.rng.integers(5, 40)), int(ctx.rng.integers(300, 1200)))
    sv = world.Survey(ctx.scratch(), probes=ps, n_bins=nb, n_ell=int(ctx.rng.integers(2, 6)), l_range=l_range,
                      bias=str(ctx.rng.choice(["constant", "piecewise"])), niz=bool(ctx.rng.random() < .5), **kw)
    return sv, sv.forecast_config(), ps


def collections(ctx):
    for it in range(ctx.n(4, 30)):
        sv, fc, ps = _survey(ctx)
        z = np.linspace(.05, 2.45, 31)
        f = ctx.scratch() / "p.h5"
        world.write_cosmology_file(f, z, np.logspace(-5, 1.6, 80), world.COSMO)
        dens = cl_core.compute_densities(fc.probe_configs, z)
        col = cl_core.compute_cls(Cosmology.fromHDF5(f), fc.phys_pars, dens, fc, sv.angular_config(cl="newton-cotes_1"),
                                  fiducial_cosmology=Cosmology.fromHDF5(f))
        d = ctx.scratch()
        file = d / "cls.h5"
        col.saveToHDF5(file if it % 2 else str(file))
        ctx.case((tuple(ps), tuple(sorted(sv.n_bins.items())), len(col.cl_dict)), sample=dict(probes=ps, bins=sv.n_bins, pairs=list(col.cl_dict)))
        back = AngularCoefficientsCollector.fromHDF5(file)
        _same_collection(ctx, back, col, "reload")
        other = AngularCoefficientsCollector()
        other.loadFromHDF5(str(file))
        _same_collection(ctx, other, col, "reload-into")
        again = d / "again.h5"
        back.saveToHDF5(again)
        _same_collection(ctx, AngularCoefficientsCollector.fromHDF5(again), col, "second-generation")
        # one spectrum on its own, in any notation
        key = list(col.cl_dict)[int(ctx.rng.integers(len(col.cl_dict)))]
        one = AngularCoefficient.fromHDF5(file, *key.split("_"), root="/cls")
        ctx.same(one.c_lij, col.cl_dict[key].c_lij, "single-values")
        ctx.check(one == col.cl_dict[key], "single-equal")
        for k in col.cl_dict:
            a, b = [probes.LONG.index(x) for x in k.split("_")]
            for kind in ("long", "short"):
                ctx.check(back[probes.spell(a, b, kind)] is back.cl_dict[k], "lookup-in-any-notation", key=k)
        # a change anywhere shows in the comparison
        alt = copy.deepcopy(back)
        c = alt.cl_dict[key].c_lij
        c[tuple(int(ctx.rng.integers(s)) for s in c.shape)] *= 1 + 1e-12
        ctx.check(not (alt == col) and not (col == alt) or np.array_equal(c, col.cl_dict[key].c_lij), "changed-value-equal")
        alt = copy.deepcopy(back)
        alt.cl_dict[key].l_bin_centers = alt.cl_dict[key].l_bin_centers + 1e-9
        ctx.check(not (alt == col) and not (col == alt), "changed-multipoles-equal")
        alt = copy.deepcopy(back)
        alt.cl_dict[key].l_bin_widths = alt.cl_dict[key].l_bin_widths * (1 + 1e-9)
        ctx.check(not (alt == col) and not (col == alt), "changed-widths-equal")
        # each spectrum in a file of its own, with both its probes
        for key1, cl in col.cl_dict.items():
            alone = d / f"{key1}.h5"
            cl.saveToHDF5(alone)
            one = AngularCoefficient.fromHDF5(alone, *key1.split("_"))
            ctx.same(one.c_lij, cl.c_lij, "alone-values", key=key1)
            _same_weight(ctx, one.weight1, cl.weight1, "alone-weight1")
            _same_weight(ctx, one.weight2, cl.weight2, "alone-weight2")
            ctx.same(one.kernel.k_ijz, cl.kernel.k_ijz, "alone-kernel", key=key1)
            ctx.check(one == cl, "alone-equal")
            ctx.saw("alone")
        if len(col.cl_dict) > 1:
            alt = copy.deepcopy(back)
            del alt.cl_dict[key]
            ctx.check(not (alt == col) and not (col == alt), "missing-pair-equal")
        # what was saved is not rewritten or mixed by a second save in the same place
        before = {k: v.c_lij.copy() for k, v in back.cl_dict.items()}
        alt = copy.deepcopy(back)
        for v in alt.cl_dict.values():
            v.c_lij = v.c_lij * 2
        ctx.raises(lambda: alt.saveToHDF5(file), "second-save-accepted")
        left = AngularCoefficientsCollector.fromHDF5(file)
        ctx.check(all(np.array_equal(left.cl_dict[k].c_lij, before[k]) for k in before), "second-save-changes")
        # what follows from a loaded collection is what follows from the computed one
        for k in col.cl_dict:
            x, y = [DeltaCl.fromCl(src.cl_dict[k], fc, None, name=k.split("_")[0]) for src in (col, back)]
            for v in (x, y):
                v.evaluate(f_sky=.3)
            ctx.same((y.delta_c_lij, y.noise_lij, y.l_bin_centers), (x.delta_c_lij, x.noise_lij, x.l_bin_centers), "downstream", key=k)
            ctx.saw("downstream")
        ctx.raises(lambda: AngularCoefficientsCollector.fromHDF5(file, root="/absent"), "absent-root-accepted")
        ctx.raises(lambda: AngularCoefficientsCollector.fromHDF5(d / "absent.h5"), "absent-file-accepted")


def bare(ctx):
    """spectra given as arrays only, with or without a redshift grid, kernels, or widths"""
    pairs = [(world.LONG[a], world.LONG[b]) for a, b in (("WL", "WL"), ("WL", "GCph"), ("GCph", "GCph"), ("GCph", "GCsp"), ("GCsp", "GCsp"), ("V", "V"))]
    for it in range(ctx.n(8, 60)):
        col = AngularCoefficientsCollector()
        chosen = [pairs[k] for k in ctx.rng.permutation(len(pairs))[:int(ctx.rng.integers(1, 5))]]
        if it % 2:
            col.z_grid = np.sort(ctx.rng.uniform(0, 3, size=7))
        for a, b in chosen:
            n = int(ctx.rng.integers(1, 6))
            cl = AngularCoefficient(probe1=a, probe2=b)
            cl.c_lij = ctx.rng.normal(size=(n, int(ctx.rng.integers(1, 4)), int(ctx.rng.integers(1, 13)))) * 10.0 ** ctx.rng.integers(-12, 3)
            cl.l_bin_centers = np.sort(ctx.rng.uniform(2, 2000, size=n))
            cl.l_bin_widths = ctx.rng.uniform(.5, 90, size=n) if it % 3 else None
            col.cl_dict[f"{a}_{b}"] = cl
        file = ctx.scratch() / "c.h5"
        root = "/" if it % 4 else "/run"
        col.saveToHDF5(file, root=root)
        back = AngularCoefficientsCollector.fromHDF5(file, root=root)
        ctx.case((tuple(chosen), it % 12), sample=dict(pairs=chosen, root=root, widths=bool(it % 3)))
        ctx.same(set(back.cl_dict), set(col.cl_dict), "pairs")
        for k, cl in col.cl_dict.items():
            g = back.cl_dict[k]
            ctx.same((g.c_lij, g.l_bin_centers, g.obs_key, g.n_ell), (cl.c_lij, cl.l_bin_centers, cl.obs_key, cl.n_ell), "values")
            if cl.l_bin_widths is None:
                ctx.check(g.l_bin_widths is None, "widths-invented")
            else:
                ctx.same(g.l_bin_widths, cl.l_bin_widths, "widths")
        ctx.check(back == col and col == back, "equal")
        if it % 2:
            ctx.same(back.z_grid, col.z_grid, "grid")
        else:
            ctx.check(back.z_grid is None, "grid-invented")


class _IO(AbstractH5FileIO):
    def writeToObject(self, obj):
        super().writeToObject(obj)
        self.populateObject(obj)

    def writeObjectToFile(self, obj):
        super().writeObjectToFile(obj)
        self.createDatasets(obj.__dict__)


class _Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def generic(ctx):
    """what every product relies on to write and read its file"""
    for it in range(ctx.n(6, 40)):
        d = ctx.scratch()
        f = d / "x.h5"
        obj = _Obj(a=int(ctx.rng.integers(100)), b=float(ctx.rng.normal()), c=ctx.rng.normal(size=(3, 4, int(ctx.rng.integers(1, 5)))), flag=np.bool_(it % 2))
        h5 = _IO()
        h5.builder_func = _Obj
        roots = ["/"] if it % 2 else ["/one", "/two/deep", "/"]
        for r in roots:
            _one = _IO()
            _one.save(obj, f, root=r)
        ctx.case((it, tuple(roots), obj.c.shape, ctx.round), sample=dict(roots=roots))
        for r in roots:
            o = h5.load(f, root=r)
            ctx.same({k: getattr(o, k) for k in obj.__dict__}, obj.__dict__, "values", root=r)
            h5._root_path = None
        with h5py.File(f) as hf:
            if "/" in roots[:1]:
                ctx.same(hf.attrs["CodeVersion"], VERSION, "code-version")
                ctx.check(hf.attrs["CreationDate"] <= hf.attrs["LastUpdate"], "dates")
        # a second object in the same place is refused and changes nothing
        new = _Obj(**{k: v * 2 if k != "flag" else v for k, v in obj.__dict__.items()})
        ctx.raises(lambda: _IO().save(new, f, root=roots[0]), "second-save-accepted")
        o = h5.load(f, root=roots[0])
        ctx.same(o.c, obj.c, "second-save-changes")
        for bad, exc in ((lambda: _IO().openFile(f, mode="w"), FileExistsError), (lambda: _IO().openFile(f, mode="q"), ValueError),
                         (lambda: _IO().openFile(3, mode="r"), TypeError), (lambda: _IO().openFile(f, mode="r", root=2), TypeError),
                         (lambda: _IO().openFile(f, mode="r", root="/absent"), H5FileModeError), (lambda: _IO().openFile(d / "no.h5", mode="r"), OSError)):
            ctx.raises(bad, "invalid-opening-accepted", exc=exc)
        ctx.raises(lambda: _IO().writeToObject(obj), "object-from-unopened-file", exc=RuntimeError)
        w = _IO()
        w.openFile(d / "y.h5", mode="w")
        ctx.raises(lambda: w.writeToObject(obj), "object-from-file-being-written", exc=RuntimeError)
        ctx.raises(lambda: w.createDataset("l", [1, 2]), "untyped-data-accepted", exc=TypeError)
        ctx.raises(lambda: w.createDataset(3, 1.), "unnamed-data-accepted", exc=TypeError)
        w.createGroup("g")
        w.createDataset("inner", obj.c, attrs={"unit": "x"}, base_grp=w["g"])
        w.createDataset("inner", obj.c * 3, try_link_first=True)
        ctx.same(np.asarray(w["inner"][()]), obj.c, "link-to-existing")
        w.createDataset("other", obj.c * 3, try_link_first=True)
        ctx.same(np.asarray(w["other"][()]), obj.c * 3, "link-first-without-target")
        ctx.same(w["g/inner"].attrs["unit"], "x", "attributes")
        ctx.same((w.findDataset("inner")[0], w.findGroup("g")[0], w.findDataset("zz"), w.findGroup("zz")), ("g/inner", "g", None, None), "find")
        w.closeFile()
        with h5py.File(d / "y.h5") as hf:
            ctx.same(hf["inner"][()], obj.c, "linked-after-reopening")
        r = _IO()
        r.openFile(d / "y.h5", mode="r")
        ctx.raises(lambda: r.createDataset("q", 1.), "write-on-readonly")
        ctx.check({"g", "inner", "other"} == set(r.keys()), "keys")
        r.closeFile()


def _spectrum(ctx, nz):
    nk = int(ctx.rng.integers(2, 7))
    p = PowerSpectrum()
    p.boltzmann_code = str(ctx.rng.choice(["CAMB", "CLASS"]))
    p.z_grid, p.k_grid = np.sort(ctx.rng.uniform(0, 3, nz)), np.sort(ctx.rng.uniform(1e-4, 10, nk))
    p.lin_p_mm_z_k, p.nonlin_p_mm_z_k = ctx.rng.lognormal(5, 3, (nz, nk)), ctx.rng.lognormal(5, 3, (nz, nk))
    p.transfer_function = ctx.rng.normal(size=(nz, nk)) if ctx.rng.random() < .6 else None
    return p


def _nudged(a, rng):
    """the same numbers but one, which differs in its last digits"""
    b = np.array(a, dtype=float)
    k = tuple(int(rng.integers(n)) for n in b.shape)
    b[k] = np.nextafter(b[k], np.inf) if rng.random() < .5 else b[k] * (1 + 1e-9) + 1e-300
    return b


STATE = ("dimensionless_hubble_array", "dimensionless_comoving_distance_array", "growth_factor_z")
SPECTRUM = ("z_grid", "k_grid", "lin_p_mm_z_k", "nonlin_p_mm_z_k", "transfer_function")


def states(ctx):
    """cosmologies with their matter spectra, and densities, on file"""
    rng = ctx.rng
    for it in range(ctx.n(10, 80)):
        f = ctx.scratch() / "p_mm.h5"
        nz = int(rng.integers(2, 8))
        flat = bool(rng.integers(2))
        names = [n for n in world.COSMO if rng.random() < .8 or flat and n in ("Omm", "OmDE")]
        pars = {}
        for n in names:
            v = float(world.COSMO[n])
            pars[n] = PhysicalParameter(name=n, fiducial=v, kind=PhysicalParameter.COSMO_PAR_STRING, is_free_parameter=bool(rng.integers(2)),
                                        current_value=v if rng.random() < .5 or flat and n in ("Omm", "OmDE") else v * .99)
        co = Cosmology(z_grid=np.sort(rng.uniform(0, 3, nz)), model_name=str(rng.choice(["CPL", "another"])))
        co.params, co.is_flat = pars, flat
        have = [a for a in STATE if rng.random() < .7]
        for a in have:
            setattr(co, a, rng.lognormal(0, 2, nz))
        co.power_spectrum = _spectrum(ctx, nz) if rng.random() < .8 else None
        root = str(rng.choice(["/", "/state", "/a/b"]))
        keep = bool(rng.random() < .8)
        where = dict(root=root, evaluated=have, spectrum=co.power_spectrum is not None, kept=keep)
        ctx.case((it, ctx.round, root, tuple(have), keep), where)
        with ctx.op("states", **where):
            co.saveToHDF5(f, root=root, save_power_spectrum=keep)
            stored = keep and co.power_spectrum is not None
            routes = [Cosmology.fromHDF5(f, root, load_power_spectrum=stored), Cosmology()]
            if rng.random() < .5:
                routes.append(Cosmology())
                routes[-1].power_spectrum = _spectrum(ctx, nz + 1)
                routes[-1].power_spectrum.transfer_function = None
            for c in routes[1:]:
                c.params, c.is_flat, c.model_name = None, None, None
                c.loadFromHDF5(f, root, load_power_spectrum=stored)
            for c in routes:
                ctx.same((c.z_grid, c.model_name, bool(c.is_flat)), (co.z_grid, co.model_name, co.is_flat), "state", where=where)
                ctx.same({a: getattr(c, a) for a in STATE}, {a: getattr(co, a) for a in STATE}, "state-functions", where=where)
                ctx.same({n: (p.fiducial, p.current_value, p.kind, p.name) for n, p in c.params.items()}, {n: (p.fiducial, p.current_value, p.kind, p.name) for n, p in pars.items()},
                         "state-parameters", where=where)
                if stored:
                    ctx.same({a: getattr(c.power_spectrum, a) for a in SPECTRUM}, {a: getattr(co.power_spectrum, a) for a in SPECTRUM}, "state-spectrum", where=where)
                    ctx.same(c.power_spectrum.boltzmann_code, co.power_spectrum.boltzmann_code, "state-solver", where=where)
                    ctx.check(c == co and not c != co, "state-not-equal", where=where)
            if not stored:
                with h5py.File(f) as hf:
                    ctx.check("power_spectrum" not in hf[root], "spectrum-stored-unasked", where=where)
            # any difference is told
            if stored:
                ctx.saw("told_apart")
                for a in SPECTRUM:
                    other = Cosmology.fromHDF5(f, root)
                    was = getattr(other.power_spectrum, a)
                    setattr(other.power_spectrum, a, np.zeros((nz, 2)) if was is None else _nudged(was, rng))
                    ctx.check(not other == co and not other.power_spectrum == co.power_spectrum, "different-spectrum-equal", where=where, array=a)
                for n in names:
                    other = Cosmology.fromHDF5(f, root)
                    other.params[n].current_value *= 1 + 1e-12
                    other.params[n].current_value += 1e-300
                    if other.params[n].current_value != co.params[n].current_value:
                        ctx.check(not other == co, "different-parameter-equal", where=where, parameter=n)
                other = Cosmology.fromHDF5(f, root)
                other.is_flat = not other.is_flat
                ctx.check(not other == co, "different-curvature-equal", where=where)
                other = Cosmology.fromHDF5(f, root)
                other.model_name += "_"
                ctx.check(not other == co, "different-model-equal", where=where)
            ctx.raises(lambda: co.saveToHDF5(f, root=root, save_power_spectrum=keep), "state-overwritten")
        # densities of several probes in one file
        sv = world.Survey(ctx.scratch(), probes=("GCph", "GCsp"), n_bins={"GCph": int(rng.integers(1, 4)), "GCsp": int(rng.integers(1, 4))}, n_ell=3, niz=bool(rng.random() < .5))
        fc = sv.forecast_config()
        z = np.linspace(.01, 2.5, int(rng.integers(5, 30)))
        with ctx.op("densities", **where):
            ds = cl_core.compute_densities(fc.probe_configs, z)
            g = f.with_name("dens.h5")
            redshift_density.save_densities_to_file(ds, g)
            back = redshift_density.load_densities_from_file(g)
            ctx.same(sorted(back), sorted(ds), "densities", where=where)
            for p, d in ds.items():
                for a in ("norm_density_iz", "z_grid", "z_bin_edges", "dN_dOmega_bins", "catalog_f_sky", "input_z_domain", "probe"):
                    ctx.same(getattr(back[p], a), getattr(d, a), "density-" + a, where=where)
                b = redshift_density.RedshiftDensity.fromHDF5(g, root=p)
                ctx.check(b == back[p], "density-read-twice", where=where)
                for a in ("norm_density_iz", "z_grid", "z_bin_edges", "dN_dOmega_bins"):
                    was = getattr(b, a)
                    setattr(b, a, _nudged(was, rng))
                    with contextlib.redirect_stdout(io.StringIO()):
                        ctx.check(not b == back[p], "different-density-equal", where=where, array=a)
                    setattr(b, a, was)


def older(ctx):
    """files of earlier releases, written here, read into today's objects"""
    for it in range(ctx.n(5, 30)):
        d = ctx.scratch()
        nz, nk = int(ctx.rng.integers(3, 9)), int(ctx.rng.integers(3, 9))
        z, k = np.sort(ctx.rng.uniform(0, 3, nz)), np.logspace(-4, 1, nk)
        E, r = ctx.rng.uniform(1, 4, nz), ctx.rng.uniform(0, 2, nz)
        lin, non = ctx.rng.uniform(1, 2, (nz, nk)), ctx.rng.uniform(2, 3, (nz, nk))
        with h5py.File(d / "v104.h5", "w") as hf:
            for n, v in (("cosmology/dimensionless_hubble_parameter", E), ("cosmology/dimensionless_comoving_distance", r), ("cosmology/z_array", z),
                         ("power_spectrum/k_array", k), ("power_spectrum/p_mm_values/lin_p_mm_z_k", lin), ("power_spectrum/p_mm_values/nonlin_p_mm_z_k", non)):
                hf[n] = v
        for v in ("1.0.4", "1.0.0", "0.9.1"):
            c = retro_comp.read_cosmo_file(d / "v104.h5", v, True)
            ctx.same((c.z_grid, c.E_z, c.r_tilde_z), (z, E, r), "old-background")
            ps = c.power_spectrum
            ctx.same((ps.k_grid, ps.z_grid, ps.lin_p_mm_z_k, ps.nonlin_p_mm_z_k), (k, z, lin, non), "old-spectrum")
        vals = {n: float(ctx.rng.normal()) for n in ("w0", "Omm", "h")}
        with h5py.File(d / "v110.h5", "w") as hf:
            hf["cosmology/z_grid"], hf["cosmology/dimensionless_hubble_array"], hf["cosmology/dimensionless_comoving_distance_array"] = z, E, r
            for n, v in vals.items():
                hf.create_group(f"cosmology/cosmological_parameters/{n}").attrs.update(fiducial=v, current=v * 1.1, is_present=n != "h")
        c = retro_comp.read_cosmo_file(d / "v110.h5", "1.1.0", False)
        ctx.same((c.z_grid, c.E_z, c.r_tilde_z), (z, E, r), "v110-background")
        ctx.same({n: (p.fiducial, p.current_value, bool(p.is_free_parameter), p.is_cosmological) for n, p in c.params.items()},
                 {n: (v, v * 1.1, n != "h", True) for n, v in vals.items()}, "v110-parameters")
        world.write_cosmology_file(d / "new.h5", z, k, world.COSMO)
        for v in ("1.1.1", "1.2.0", "2.0.0", "1.10.0", VERSION):
            c = retro_comp.read_cosmo_file(d / "new.h5", v, load_power_spectrum=it % 2 == 0)
            ctx.same(c.z_grid, z, "current-background", version=v)
            ctx.check((c.power_spectrum is not None) == (it % 2 == 0), "spectrum-on-request")
        full = retro_comp.read_cosmo_file(d / "new.h5", VERSION, load_power_spectrum=True)
        retro_comp.write_old_cosmo_file(full, d / "back.h5")
        with h5py.File(d / "back.h5") as hf:
            q = full.power_spectrum
            ctx.same([hf[n][()] for n in ("cosmology/z_array", "power_spectrum/k_array", "power_spectrum/p_mm_values/lin_p_mm_z_k",
                                          "power_spectrum/p_mm_values/nonlin_p_mm_z_k")], [full.z_grid, q.k_grid, q.lin_p_mm_z_k, q.nonlin_p_mm_z_k], "written-for-old")
        # spectra
        ps = [p for p in world.LONG if ctx.rng.random() < .7] or ["WL"]
        nb = {p: int(ctx.rng.integers(1, 4)) for p in ps}
        want = {}
        with h5py.File(d / "cl104.h5", "w") as hf:
            for p in ps:
                hf[f"weight_functions/{world.LONG[p]}"] = ctx.rng.normal(size=(nb[p], nz))
                hf[f"density_functions/{world.LONG[p]}/norm_density_i_z"] = ctx.rng.normal(size=(nb[p], nz))
            for x, a in enumerate(ps):
                for b in ps[x:]:
                    key = f"{world.LONG[a]}_{world.LONG[b]}"
                    c, e, w = ctx.rng.normal(size=(4, nb[a], nb[b])), np.sort(ctx.rng.uniform(2, 50, 4)), ctx.rng.uniform(1, 9, 4)
                    hf[f"cls/{key}/c_lij"], hf[f"cls/{key}/l_bin_centers"], hf[f"cls/{key}/l_bin_widths"] = c, e, w
                    hf[f"kernels/{key}/k_ijz"] = ctx.rng.normal(size=(nb[a], nb[b], nz))
                    want[key] = c
        col = retro_comp.read_cls_file(d / "cl104.h5", "1.0.4")
        ctx.case((nz, nk, tuple(ps), it, ctx.round), sample=dict(probes=ps, pairs=list(want)))
        ctx.same({k: v.c_lij for k, v in col.cl_dict.items()}, want, "old-spectra")
        with h5py.File(d / "cl104.h5") as hf:
            for key, cl in col.cl_dict.items():
                a, b = key.split("_")
                ctx.same((cl.probe1, cl.probe2), (a, b), "old-pair")
                ctx.same((cl.l_bin_centers, cl.l_bin_widths), (hf[f"cls/{key}/l_bin_centers"][()], hf[f"cls/{key}/l_bin_widths"][()]), "old-multipoles")
                ctx.same(cl.kernel.k_ijz, hf[f"kernels/{key}/k_ijz"][()], "old-kernel")
                ctx.same((cl.weight1.w_bin_z, cl.weight2.w_bin_z), (hf[f"weight_functions/{a}"][()], hf[f"weight_functions/{b}"][()]), "old-weights")
                ctx.same((cl.weight1.density.norm_density_iz, cl.weight2.density.norm_density_iz),
                         (hf[f"density_functions/{a}/norm_density_i_z"][()], hf[f"density_functions/{b}/norm_density_i_z"][()]), "old-densities")
        # derivative files of both layouts
        arr = {k: ctx.rng.normal(size=v.shape) for k, v in want.items()}
        with h5py.File(d / "dcl.h5", "w") as hf:
            for q, (k, v) in enumerate(arr.items()):
                hf[k if q % 2 else f"{k}/dc_lij"] = v
        ctx.same(retro_comp.read_dcl_file(d / "dcl.h5"), arr, "derivative-file")


SECTIONS = [collections, bare, generic, states, older]
