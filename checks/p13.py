"""P13: shot noise and the noisy spectra entering the covariance."""
import h5py
import numpy as np
from scipy.interpolate import CubicSpline

from seyfert.config import main_config as mcfg
from seyfert.cosmology.c_ells import AngularCoefficient, AngularCoefficientsCollector
from seyfert.fisher.delta_cl import DeltaCl, DeltaClCollection
from seyfert.main import cl_core, fisher_core
from seyfert.utils.workspace import WorkSpace
from vlib import world

PROPERTY = "P13"
LEVEL = "exploration"
RULE = ("surveys of one to four probes with random bins, multipoles, sky fractions and densities; spectra are random positive arrays on "
        "per-pair multipole grids, noise is compared with the reference number counts of the input files; distinct = (probes, bins, noise source)")
ASSUMPTIONS = ["surface densities of unbinned inputs are decided within 1e-5 (cubic interpolation of the samples)"]
NEEDS = {"oracle.noise": 100, "oracle.noise_files": 30, "oracle.blocks": 30, "reduced": 1, "unbinned": 1, "cross_pairs": 6}


def _collection(ctx, sv, fc):
    """random spectra, symmetric for the autos, on partially overlapping multipoles"""
    col = AngularCoefficientsCollector()
    probes = list(fc.present_probes)
    grids = {}
    base = np.sort(ctx.rng.choice(np.arange(10, 900, 7), size=9, replace=False)).astype(float)
    for p in probes:
        grids[p] = np.sort(ctx.rng.choice(base, size=int(ctx.rng.integers(6, 10)), replace=False))
    for i, a in enumerate(probes):
        for b in probes[i:]:
            cl = AngularCoefficient(probe1=a, probe2=b)
            na, nb = sv.n_bins[ALIAS[a]], sv.n_bins[ALIAS[b]]
            cl.l_bin_centers = np.array([x for x in grids[a] if x in grids[b]])
            cl.l_bin_widths = 1 + ctx.rng.uniform(0, 20, size=len(cl.l_bin_centers))
            c = ctx.rng.uniform(.5, 2, size=(len(cl.l_bin_centers), na, nb)) * 1e-8
            if a == b:
                c = c @ np.swapaxes(c, 1, 2) * 1e8
            cl.c_lij = c
            col.cl_dict[f"{a}_{b}"] = cl
    return col


def _counts(sv, alias):
    """(density per bin, total over the domain) from the input file, in the units of the file"""
    with h5py.File(sv.data / f"{alias.lower()}_dndz.h5", "r") as hf:
        e, z, fs = hf["z_bin_edges"][()], hf["input_z_domain"][()], float(hf["catalog_f_sky"][()])
        if bool(hf["has_niz_from_input"][()]):
            return hf["dN_dOmega_bins"][()], None
        s = CubicSpline(z, hf["input_dN_dz_dOmega"][()])
        return np.array([float(s.integrate(a, b)) for a, b in zip(e[:-1], e[1:])]), float(s.integrate(z[0], z[-1])) * 4 * np.pi * fs


def _survey(ctx, it):
    nb = {p: int(ctx.rng.integers(1, 5)) for p in world.LONG}
    probes = [p for p in world.LONG if ctx.rng.random() < .6] or ["WL"]
    niz = bool(it % 3)
    reduced = not niz and it % 2 == 0
    if reduced:
        probes = sorted(set(probes) | {"GCph", "GCsp"}, key=list(world.LONG).index)
    sv = world.Survey(ctx.scratch(), probes=probes, n_bins=nb, niz=niz, reduced=reduced, f_sky=float(ctx.rng.uniform(.05, 1)))
    if not niz:
        ctx.saw("unbinned")
        for p in world.LONG:
            world.write_density(sv.data / f"{p.lower()}_dndz.h5", world.LONG[p], sv.edges[p], z_dom=np.linspace(.001, 3, 300),
                                z0=float(ctx.rng.uniform(.6, 1.2)), amp=10 ** ctx.rng.uniform(6, 9), f_sky=float(ctx.rng.uniform(.1, .9)))
    ctx.saw("reduced", int(reduced))
    return sv, probes, niz, reduced


def _want_noise(sv, alias, other, reduced):
    if alias != other:
        return None
    counts, tot = _counts(sv, alias)
    n = np.diag(1 / counts) * (.3 ** 2 if alias == "WL" else 1)
    if alias == "GCsp" and reduced:
        n = n * tot / _counts(sv, "GCph")[1]
    return n


ALIAS = {v: k for k, v in world.LONG.items()}


def noise(ctx):
    for it in range(ctx.n(20, 60)):
        sv, probes, niz, reduced = _survey(ctx, it)
        fc = sv.forecast_config()
        col = _collection(ctx, sv, fc)
        d = DeltaClCollection(fcfg=fc, fisher_cfg=None)
        d.loadFiducialCls(col)
        d.evaluateSingleBlocks()
        keep = {k: cl.c_lij.copy() for k, cl in col.cl_dict.items()}
        ctx.same(set(d.single_blocks), set(col.cl_dict), "blocks")
        for key, cl in col.cl_dict.items():
            a, b = key.split("_")
            blk = d.single_blocks[key]
            wn = _want_noise(sv, ALIAS[a], ALIAS[b], reduced)
            na, nb = cl.c_lij.shape[1:]
            wn = np.zeros((na, nb)) if wn is None else wn
            ctx.saw("cross_pairs", int(a != b))
            ctx.case((key, na, nb, niz, reduced), sample=dict(pair=key, bins=(na, nb), f_sky=fc.survey_f_sky), nontrivial=na * nb > 1)
            ctx.close(blk.noise_lij, np.broadcast_to(wn, cl.c_lij.shape), "shot-noise", rtol=2e-5, key=key, niz=niz, reduced=reduced)
            want = (cl.c_lij + wn) / np.sqrt(cl.l_bin_widths * sv.cfg["survey"]["f_sky"])[:, None, None]
            ctx.close(blk.delta_c_lij, want, "noisy-spectrum", rtol=2e-5, key=key)
            ctx.check(np.array_equal(cl.c_lij, keep[key]), "spectra-mutated")
            ctx.same(blk.l_bin_centers, cl.l_bin_centers, "multipoles", key=key)
            if a == b:
                ctx.check(d[a] is blk or np.array_equal(d[a].delta_c_lij, blk.delta_c_lij), "probe-entry")
                n = len(cl.l_bin_centers)
                ctx.close(blk.inv_delta_c_lij @ blk.delta_c_lij, np.repeat(np.eye(na)[None], n, 0), "inverse", atol=1e-5)
        # another sky fraction: everything scales by the square root
        fs = float(ctx.rng.uniform(.05, 1)) if it % 3 else 1
        before = {k: b.delta_c_lij for k, b in d.single_blocks.items()}
        d.evaluateSingleBlocks(f_sky=fs)
        for k in before:
            blk = d.single_blocks[k]
            ctx.close(blk.delta_c_lij, before[k] * np.sqrt(sv.cfg["survey"]["f_sky"] / fs), "sky-fraction-scaling", rtol=1e-12)
            if blk.is_auto_correlation:
                n, na = blk.delta_c_lij.shape[:2]
                ctx.close(blk.inv_delta_c_lij @ blk.delta_c_lij, np.repeat(np.eye(na)[None], n, 0), "inverse-of-the-new-one", atol=1e-5)


def noise_files(ctx):
    """noise written to a file, read back, given by the configuration or to the Fisher step"""
    for it in range(ctx.n(10, 40)):
        sv, probes, niz, reduced = _survey(ctx, it)
        fc = sv.forecast_config()
        col = _collection(ctx, sv, fc)
        d = DeltaClCollection(fcfg=fc)
        d.loadFiducialCls(col)
        d.evaluateSingleBlocks()
        f = ctx.scratch() / "noise.h5"
        d.writeShotNoiseToFile(f)
        e = DeltaClCollection(fcfg=fc)
        e.loadFiducialCls(col)
        e.loadShotNoiseFromFile(f)
        e.evaluateSingleBlocks()
        for k in col.cl_dict:
            ctx.case((it, k, ctx.round))
            ctx.check(np.array_equal(e.single_blocks[k].noise_lij, d.single_blocks[k].noise_lij), "noise-round-trip", key=k)
            ctx.check(np.array_equal(e.single_blocks[k].delta_c_lij, d.single_blocks[k].delta_c_lij), "noisy-spectrum-from-file", key=k)
        # an external file, through the configuration and through the Fisher step
        own = {k: 10 ** ctx.rng.uniform(-9, -7, size=cl.c_lij.shape[1:]) for k, cl in col.cl_dict.items()}
        for k in own:
            if ctx.rng.random() < .3:
                own[k] = own[k] * 0  # no noise at all is a choice, not a missing block
        nd = sv.data / "shot_noise"
        nd.mkdir()
        with h5py.File(nd / "own.h5", "w") as hf:
            for k, v in own.items():
                hf[k] = v
        (sv.base / "run").mkdir()
        ws = WorkSpace(sv.base / "run")
        ws.createInputFilesDir(sv.task_files(), fc.phys_pars, sv.data)
        fs = sv.cfg["survey"]["f_sky"]
        d.saveToHDF5(ws.delta_cls_file)
        deltas, _ = fisher_core.prepare_inputs(_NoDerivatives(ws), shot_noise_file=nd / "own.h5")
        plain, _ = fisher_core.prepare_inputs(_NoDerivatives(ws))
        sv.cfg["survey"]["shot_noise_file"] = "own.h5"
        sv.write()
        fc2 = sv.forecast_config()
        g = DeltaClCollection(fcfg=fc2)
        g.loadFiducialCls(col)
        g.loadShotNoiseFromFile(g.shot_noise_file)
        g.evaluateSingleBlocks()
        for k, cl in col.cl_dict.items():
            want = (cl.c_lij + own[k]) / np.sqrt(cl.l_bin_widths * fs)[:, None, None]
            ctx.close(deltas.single_blocks[k].delta_c_lij, want, "file-given-to-the-fisher-step", rtol=1e-12, key=k)
            ctx.close(g.single_blocks[k].delta_c_lij, want, "file-in-the-configuration", rtol=1e-12, key=k)
            ctx.check(np.array_equal(plain.single_blocks[k].delta_c_lij, d.single_blocks[k].delta_c_lij), "no-file-keeps-stored", key=k)
        # the file given for the step is the one used, also where the configuration names another
        with h5py.File(nd / "second.h5", "w") as hf:
            for k, v in own.items():
                hf[k] = 2 * v + 1e-9
        (sv.base / "run2").mkdir()
        ws2 = WorkSpace(sv.base / "run2")
        ws2.createInputFilesDir(sv.task_files(), fc2.phys_pars, sv.data)
        d.saveToHDF5(ws2.delta_cls_file)
        of_step, _ = fisher_core.prepare_inputs(_NoDerivatives(ws2), shot_noise_file=nd / "second.h5")
        of_config, _ = fisher_core.prepare_inputs(_NoDerivatives(ws2))
        for k, cl in col.cl_dict.items():
            norm = np.sqrt(cl.l_bin_widths * fs)[:, None, None]
            ctx.close(of_step.single_blocks[k].delta_c_lij, (cl.c_lij + 2 * own[k] + 1e-9) / norm, "file-of-the-step-and-one-configured", rtol=1e-12, key=k)
            ctx.close(of_config.single_blocks[k].delta_c_lij, (cl.c_lij + own[k]) / norm, "file-configured-for-the-step", rtol=1e-12, key=k)
        gf = ctx.scratch() / "g.h5"
        g.writeShotNoiseToFile(gf)
        with h5py.File(gf, "r") as hf:
            for k in own:
                ctx.check(np.array_equal(hf[k][()], own[k]), "given-noise-written", key=k)
        missing = DeltaClCollection(fcfg=fc2)
        missing.loadFiducialCls(col)
        with h5py.File(nd / "own.h5", "a") as hf:
            del hf[list(own)[-1]]
        ctx.raises(lambda: missing.loadShotNoiseFromFile(nd / "own.h5"), "missing-pair-accepted", exc=KeyError)
        (nd / "own.h5").unlink()
        ctx.raises(sv.forecast_config, "missing-noise-file-accepted", exc=FileNotFoundError)


class _NoDerivatives:
    def __init__(self, ws):
        self._ws = ws

    def collectDerivativeParams(self):
        return []

    def __getattr__(self, n):
        return getattr(self._ws, n)


def blocks(ctx):
    """the joint blocks of several probes, and the collection after a save/load"""
    for it in range(ctx.n(14, 50)):
        sv, probes, niz, reduced = _survey(ctx, 1)
        if len(probes) < 2:
            continue
        fc = sv.forecast_config()
        col = _collection(ctx, sv, fc)
        d = DeltaClCollection(fcfg=fc)
        d.loadFiducialCls(col)
        d.evaluateSingleBlocks()
        longs = list(fc.present_probes)
        grids = {p: set(col.cl_dict[f"{p}_{p}"].l_bin_centers) for p in longs}
        if not set.intersection(*grids.values()):
            continue
        d.buildXCBlocks()
        groups = [longs] + ([[a, b] for i, a in enumerate(longs) for b in longs[i + 1:]] if len(longs) > 2 else [])
        ctx.same(set(d.keys()), set(longs) | {"+".join(g + ["XC"]) for g in groups}, "joint-names")
        for g in groups:
            name = "+".join(g + ["XC"])
            x = d[name]
            common = sorted(set.intersection(*[grids[p] for p in g]))
            ctx.case((it, name, ctx.round), sample=dict(block=name, multipoles=len(common)))
            ctx.same(x.l_bin_centers, np.array(common), "joint-multipoles", name=name)
            for q, l in enumerate(common):
                rows = []
                for a in g:
                    row = []
                    for b in g:
                        if f"{a}_{b}" in d.single_blocks:
                            blk = d.single_blocks[f"{a}_{b}"]
                            row.append(blk.delta_c_lij[list(blk.l_bin_centers).index(l)])
                        else:
                            blk = d.single_blocks[f"{b}_{a}"]
                            row.append(blk.delta_c_lij[list(blk.l_bin_centers).index(l)].T)
                    rows.append(row)
                want = np.block(rows)
                ctx.check(np.array_equal(x.delta_c_lij[q], want), "joint-matrix", name=name, ell=l)
        f = ctx.scratch() / "d.h5"
        d.saveToHDF5(f)
        back = DeltaClCollection.fromHDF5(f)
        ctx.same((set(back.keys()), set(back.single_blocks)), (set(d.keys()), set(d.single_blocks)), "stored-names")
        ctx.check(back == d, "stored-equal")
        for k, b in d.single_blocks.items():
            o = back.single_blocks[k]
            ctx.check(all(np.array_equal(getattr(o, n), getattr(b, n)) for n in ("delta_c_lij", "noise_lij", "c_lij", "l_bin_centers", "l_bin_widths"))
                      and (o.probe_1, o.probe_2, o.name) == (b.probe_1, b.probe_2, b.name), "stored-block", key=k)
        k = list(d.single_blocks)[0]
        back.single_blocks[k].delta_c_lij = back.single_blocks[k].delta_c_lij * 1.0001
        ctx.check(not (back.single_blocks[k] == d.single_blocks[k]), "changed-block-equal")
        for n in ("noise_lij", "l_bin_centers", "l_bin_widths", "delta_c_lij"):
            other = DeltaClCollection.fromHDF5(f)
            k = str(ctx.rng.choice(list(d.single_blocks)))
            ctx.check(other.single_blocks[k] == d.single_blocks[k], "stored-block-equal", key=k)
            x = np.array(getattr(other.single_blocks[k], n), dtype=float)
            x.flat[int(ctx.rng.integers(x.size))] += 1 if x.max() == 0 else x.max()
            setattr(other.single_blocks[k], n, x)
            ctx.check(not (other.single_blocks[k] == d.single_blocks[k]), "changed-block-equal", of=n, key=k)


SECTIONS = [noise, noise_files, blocks]
