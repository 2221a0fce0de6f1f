"""P25: matrices, spectra and comparisons taken from files of other forecasting codes."""
import json

import numpy as np
import pandas as pd

from seyfert.cosmology.c_ells import AngularCoefficientsCollector
from seyfert.cosmology.cosmology import Cosmology
from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection
from seyfert.file_io.ext_input import ISTInputReader
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.utils import ist_comparison as ic

PROPERTY = "P25"
LEVEL = "exploration"
RULE = ("text files in the layouts of the IST forecast codes with random parameters, orders of columns, of rows and of redshifts, units, headers and displaced "
        "parameters are read and converted, and every element is compared with what was written; comparisons of codes recomputed; distinct = layout x parameters x order")
ASSUMPTIONS = ["external matter power spectra are in units of h, on one rectangular grid", "external angular spectra have 10 photometric and 4 spectroscopic bins"]
NEEDS = {"oracle.matrices": 30, "oracle.matter": 60, "oracle.angular": 30, "oracle.derivatives": 20, "oracle.codes": 20, "varied_h": 1, "extra_parameter": 1, "ten_biases": 1}

IST = {"Omegam": "Omm", "Omegab": "Omb", "Omegade": "OmDE", "w0": "w0", "wa": "wa", "h": "h", "ns": "ns", "sigma8": "sigma8", "gamma": "gamma"}
SHORT = {"Omb": "Ob", "OmDE": "Ode", "Omm": "Om", "h": "h", "ns": "ns", "sigma8": "s8", "w0": "w0", "wa": "wa"}
STEPS = {"6p3E-3": 0.00625, "1p3E-2": 0.01250, "1p9E-2": 0.01875, "2p5E-2": 0.02500, "3p8E-2": 0.03750, "5p0E-2": 0.05, "1p0E-1": 0.1}
FID = dict(Omm=.32, OmDE=.68, Omb=.05, w0=-1.0, wa=0.0, h=.67, ns=.96, sigma8=.816)
NAMES = {"WL": "[WL]", "GCph": "[GCph]", "GCsp": "[GCsp(Pk)]", "GCph_WL_XC": "[WL+GCph+XC(WL,GCph)]",
         "GCsp_GCph_WL_XC": "[WL+GCph+XC(WL,GCph)] + [GCsp(Pk)]"}


def _files(d):
    return {str(f.relative_to(d)): f.read_bytes() for f in sorted(d.rglob("*")) if f.is_file()}


def _spd(rng, n, cond=3):
    a = rng.normal(size=(n, n + 3)) * 10.0 ** rng.uniform(0, cond, size=(n, 1))
    return a @ a.T


def _write_matrix(path, cols, m, rng):
    sep = "\t" if rng.random() < .3 else "  "
    rows = [sep.join(cols)] + [sep.join(repr(float(v)) for v in r) for r in m]
    path.write_text("\n".join(rows) + "\n")


def _our(name):
    return IST.get(name) or f"bgph{int(name[1:]) - 1}"


# ------------------------------------------------------------------------------------------------ matrices
def matrices(ctx):
    rng = ctx.rng
    for it in range(ctx.n(14, 150)):
        base = ctx.scratch("ist")
        cosmo = [p for p in IST if p not in ("Omegade", "gamma") or rng.random() < .4]
        nb = int(rng.choice([0, 0, 3, 10, 13]))
        cols = cosmo + [f"b{i + 1}" for i in range(nb)]
        cols = [cols[i] for i in rng.permutation(len(cols))]
        m = _spd(rng, len(cols))
        key = list(NAMES)[int(rng.integers(len(NAMES)))]
        tail = ["_w0wa_flat_optimistic", "_w0wa_nonflat_pessimistic", "", "_LCDM_flat_optimistic", "_pessimistic", "_w0wa", "_hs_flat"][int(rng.integers(7))]
        stem = ["", "old_", "results-"][int(rng.integers(3))]
        f = base / f"{stem}EuclidISTF_{key}{tail}.txt"
        _write_matrix(f, cols, m, rng)
        kept = _files(base)
        where = dict(file=f.name, columns=cols)
        ctx.case((it, ctx.round, tuple(cols), f.name), where)
        our = [_our(c) for c in cols]
        if nb >= 10:
            ctx.saw("ten_biases")
        with ctx.op("matrix", **where):
            F = FisherMatrix.from_ISTfile(f)
            ctx.same(F.name, NAMES[key], "name", where=where)
            ctx.same(set(F.index), set(our), "parameters", where=where)
            ctx.same(list(F.index), list(F.columns), "axes", where=where)
            ctx.close(F.matrix.loc[our, our].to_numpy(), m, "elements", rtol=1e-11, where=where)
            ctx.same((set(F.cosmological_parameters), set(F.nuisance_parameters)), (set(our), set()), "default-kinds", where=where)
            cosmo_names = {IST[c] for c in cosmo}
            G = FisherMatrix.from_ISTfile(str(f), name="mine", cosmological_parameters=cosmo_names, nuisance_parameters=set(our) - cosmo_names)
            ctx.same((G.name, set(G.cosmological_parameters), set(G.nuisance_parameters)), ("mine", cosmo_names, set(our) - cosmo_names), "given-kinds", where=where)
            ctx.close(G.matrix.loc[our, our].to_numpy(), m, "given-elements", rtol=1e-11, where=where)
            errs = G.getMarginalizedErrors()
            sd = np.sqrt(np.diag(np.linalg.inv(m)))
            for p in cosmo_names:
                ctx.close(errs[p], sd[our.index(p)], "error", rtol=1e-5, where=where, par=p)
            # a file without the prefix has no name of its own, but can be given one
            g = base / "matrix.txt"
            g.write_text(f.read_text())
            H = FisherMatrix.from_ISTfile(g, name="[WL]")
            ctx.same(H.name, "[WL]", "unnamed-file", where=where)
            ctx.close(H.matrix.loc[our, our].to_numpy(), m, "unnamed-elements", rtol=1e-11, where=where)
            g.unlink()
            ctx.same(_files(base), kept, "source-changed", where=where)


# ------------------------------------------------------------------------------------------------ matter power spectra
def _parameters(rng, flat, extra, free=None):
    d = {}
    for n, v in FID.items():
        if n == "OmDE" and flat:
            fr = False
        else:
            fr = free is None or n in free
        d[n] = PhysicalParameter(name=n, fiducial=v, current_value=v, kind=PhysicalParameter.COSMO_PAR_STRING, is_free_parameter=fr, stem_factor=1.0)
    if extra:
        d["mnu"] = PhysicalParameter(name="mnu", fiducial=.06, current_value=.06, kind=PhysicalParameter.COSMO_PAR_STRING, is_free_parameter=False)
        d["gamma"] = PhysicalParameter(name="gamma", fiducial=.55, current_value=.55, kind=PhysicalParameter.COSMO_PAR_STRING, is_free_parameter=False)
        d["bgph0"] = PhysicalParameter(name="bgph0", fiducial=1.1, current_value=1.1, kind=PhysicalParameter.NUISANCE_PAR_STRING, is_free_parameter=True, probe="PhotometricGalaxy")
    names = list(d)
    return PhysicalParametersCollection(data_dict={names[i]: d[names[i]] for i in rng.permutation(len(names))}, is_universe_flat=flat)


def _value(n, eps):
    return FID[n] * (1 + eps) if FID[n] != 0 else eps


def matter(ctx):
    rng = ctx.rng
    for it in range(ctx.n(5, 40)):
        base = ctx.scratch("pk")
        src, dst = base / "src", base / "converted"
        src.mkdir()
        flat = bool(rng.random() < .6)
        extra = bool(rng.random() < .5)
        names = [n for n in FID if not (flat and n == "OmDE")]
        chosen = [names[i] for i in rng.permutation(len(names))[:int(rng.integers(1, 4))]]
        if it % 2 == 0 and "h" not in chosen:
            chosen.append("h")
        z = np.sort(rng.uniform(.01, 3, size=int(rng.integers(3, 7))))
        if rng.random() < .6:
            z = np.r_[0.0, z]
        k = np.sort(10.0 ** rng.uniform(-4, 1.5, size=int(rng.integers(4, 9))))
        falling = bool(rng.random() < .6)
        mixed = bool(rng.random() < .3)
        jobs = {("central", 0): None}
        order = list(STEPS)
        for n in chosen:
            for e in [order[i] for i in rng.permutation(7)[:int(rng.integers(1, 4))]]:
                for s in (-1, 1):
                    jobs[(n, s * (order.index(e) + 1))] = (n, "pl" if s > 0 else "mn", e)
        written = {}
        for key, spec in jobs.items():
            lin, non = rng.uniform(1, 9, size=(2, len(z), len(k))) * 10.0 ** rng.integers(1, 4)
            written[key] = lin, non
            rows = []
            for a in (range(len(z))[::-1] if falling else range(len(z))):
                for b in range(len(k)):
                    rows.append("  %r  %r  %r  %r" % (float(z[a]), float(k[b]), float(lin[a, b]), float(non[a, b])))
            if mixed:
                rows = [rows[i] for i in rng.permutation(len(rows))]
            if spec is None:
                f = src / "pkz-Fiducial.txt"
            else:
                f = src / SHORT[spec[0]] / f"pkz-{SHORT[spec[0]]}_{spec[1]}_eps_{spec[2]}.txt"
            f.parent.mkdir(exist_ok=True)
            f.write_text("\n".join(rows) + "\n")
        kept = _files(src)
        where = dict(flat=flat, extra=extra, jobs=list(jobs), nz=len(z), falling=falling, mixed=mixed)
        ctx.case((it, ctx.round, tuple(jobs), flat, falling), where)
        pars = _parameters(rng, flat, extra)
        with ctx.op("matter", **where):
            r = ISTInputReader(pars)
            if extra:
                r.checkISTParams()
                ctx.saw("extra_parameter")
                ctx.same(set(pars.params), set(FID), "only-their-parameters", where=where)
            else:
                r.checkISTParams()
                ctx.same(set(pars.params), set(FID), "their-parameters", where=where)
            r.convertISTPowerSpectra(src, dst, flat=flat, cosmo_model="w0_wa_CDM")
            ctx.same(_files(src), kept, "source-changed", where=where)
            ctx.same({n: (p.current_value, p.fiducial) for n, p in pars.items()}, {n: (v, v) for n, v in FID.items()}, "left-at-fiducial", where=where)
            outs = [d for d in base.iterdir() if d != src]
            ctx.check(len(outs) == 1 and outs[0].name.startswith("converted_"), "one-directory", where=where, got_dirs=[o.name for o in outs])
            want = {}
            for (n, st) in jobs:
                want[f"dvar_{n}_step_" + ("0" if st == 0 else f"{'p' if st > 0 else 'm'}_{abs(st)}")] = (n, st)
            ctx.same({d.name for d in outs[0].iterdir()}, set(want), "jobs", where=where)
            for dname, (n, st) in want.items():
                c = Cosmology.fromHDF5(outs[0] / dname / "p_mm.h5")
                vals = dict(FID)
                if st:
                    eps = np.sign(st) * STEPS[order[abs(st) - 1]]
                    vals[n] = _value(n, eps)
                    if flat and n == "Omm":
                        vals["OmDE"] = 1 - vals["Omm"]
                for p in FID:
                    ctx.close(c.params[p].current_value, vals[p], "value", rtol=1e-12, where=where, job=dname, par=p)
                    ctx.close(c.params[p].fiducial, FID[p], "fiducial", rtol=1e-12, where=where, job=dname, par=p)
                ctx.same((bool(c.is_flat), c.model_name), (flat, "w0_wa_CDM"), "model", where=where, job=dname)
                h = vals["h"]
                if n == "h":
                    ctx.saw("varied_h")
                lin, non = written[(n, st)]
                pos = z > 0
                ctx.close(c.power_spectrum.z_grid, z[pos], "redshifts", rtol=1e-11, where=where, job=dname)
                ctx.close(c.z_grid, z[pos], "cosmology-redshifts", rtol=1e-11, where=where, job=dname)
                ctx.close(c.power_spectrum.k_grid, k * h, "wavenumbers", rtol=1e-12, where=where, job=dname)
                ctx.close(c.power_spectrum.lin_p_mm_z_k, lin[pos] / h ** 3, "linear", rtol=1e-12, where=where, job=dname)
                ctx.close(c.power_spectrum.nonlin_p_mm_z_k, non[pos] / h ** 3, "nonlinear", rtol=1e-12, where=where, job=dname)
        # parameters the others do not have, or another expansion rate, are noticed
        bad = _parameters(rng, flat, False)
        miss = list(FID)[int(rng.integers(len(FID)))]
        if rng.random() < .5:
            del bad[miss]
        else:
            bad["h"].fiducial = .7
        ctx.raises(lambda: ISTInputReader(bad).checkISTParams(), "other-parameters", where=where)
        odd = src / "h" / "pkz-h_pl_eps_7p7E-3.txt"
        odd.parent.mkdir(exist_ok=True)
        odd.write_text("0.1 0.1 1 1\n")
        ctx.raises(lambda: ISTInputReader(_parameters(rng, flat, False)).convertISTPowerSpectra(src, base / "odd", flat, "w0_wa_CDM"), "unknown-displacement", where=where)


# ------------------------------------------------------------------------------------------------ angular spectra
KINDS = {"GCph": (10, 10), "GCsp": (4, 4), "XC": (10, 4)}
PAIR = {"GCph": ("PhotometricGalaxy", "PhotometricGalaxy"), "GCsp": ("SpectroscopicGalaxy", "SpectroscopicGalaxy"), "XC": ("PhotometricGalaxy", "SpectroscopicGalaxy")}


def _scamera(rng, path, kind, ells, values, start, delim, lines, reverse, shuffle):
    """writes values [ell, i, j] in their text layout"""
    ni, nj = KINDS[kind]
    pairs = [(i, j) for i in range(ni) for j in (range(i, nj) if ni == nj else range(nj))]
    if shuffle:
        pairs = [pairs[i] for i in rng.permutation(len(pairs))]
    labels = []
    for i, j in pairs:
        a, b = (j, i) if reverse and ni != nj else (i, j)
        labels.append(f"{a + start}{delim}{b + start}")
    if lines == 1:
        hdr = ["# ell  " + "  ".join(labels)]
    else:
        cut = len(labels) // 2
        hdr = ["# ell  " + "  ".join(labels[:cut]), "# " + "  ".join(labels[cut:])]
    rows = ["  ".join([repr(float(l))] + [repr(float(values[n, i, j])) for i, j in pairs]) for n, l in enumerate(ells)]
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_text("\n".join(hdr + rows) + "\n")


def _values(rng, kind, nl, sign=False):
    v = rng.uniform(.5, 5, size=(nl,) + KINDS[kind]) * 1e-6
    if sign:
        v *= rng.choice([-1, 1], size=v.shape)
    if kind != "XC":
        v = v + v.transpose(0, 2, 1)
    return v


def _layout(rng):
    return dict(start=int(rng.integers(0, 2)), delim=["-", "_", ",", ":"][int(rng.integers(4))], lines=int(rng.integers(1, 3)),
                reverse=bool(rng.random() < .4), shuffle=bool(rng.random() < .4))


def angular(ctx):
    rng = ctx.rng
    for it in range(ctx.n(4, 30)):
        base = ctx.scratch("cl")
        src, dst = base / "src", base / "converted"
        ells = np.sort(rng.uniform(10, 3000, size=int(rng.integers(2, 6))))
        order = list(STEPS)
        jobs = {("central", 0): None}
        for n in [list(SHORT)[i] for i in rng.permutation(8)[:int(rng.integers(1, 3))]]:
            e = order[int(rng.integers(7))]
            for s in (-1, 1):
                jobs[(n, s * (order.index(e) + 1))] = f"{SHORT[n]}_{'pl' if s > 0 else 'mn'}_eps_{e}"
        lay = _layout(rng)
        data = {}
        for key, label in jobs.items():
            for kind in KINDS:
                v = data[key, kind] = _values(rng, kind, len(ells))
                _scamera(rng, src / kind / f"Cij-{label or 'Fiducial'}.dat", kind, ells, v, **lay)
        kept = _files(src)
        where = dict(jobs=list(jobs), **lay)
        ctx.case((it, ctx.round, tuple(jobs), tuple(lay.items())), where)
        with ctx.op("angular", **where):
            r = ISTInputReader(_parameters(rng, False, False))
            r.convertSCameraDerivativesInput(src, dst)
            ctx.same(_files(src), kept, "source-changed", where=where)
            outs = [d for d in base.iterdir() if d != src]
            ctx.check(len(outs) == 1 and outs[0].name.startswith("converted"), "one-directory", where=where)
            want = {f"dvar_{n}_step_" + ("0" if s == 0 else f"{'p' if s > 0 else 'm'}_{abs(s)}"): (n, s) for n, s in jobs}
            ctx.same({d.name for d in outs[0].iterdir()}, set(want), "jobs", where=where)
            for dname, key in want.items():
                c = AngularCoefficientsCollector.fromHDF5(outs[0] / dname / "cl_PhotometricGalaxy_SpectroscopicGalaxy.h5")
                ctx.same({frozenset((x.probe1, x.probe2)) for x in c.cl_dict.values()}, {frozenset(p) for p in PAIR.values()}, "pairs", where=where, job=dname)
                for x in c.cl_dict.values():
                    kind = next(k for k in PAIR if set(PAIR[k]) == {x.probe1, x.probe2})
                    v = data[key, kind]
                    ctx.close(x.l_bin_centers, ells, "multipoles", rtol=1e-11, where=where, job=dname, kind=kind)
                    ctx.close(x.c_lij, v if (x.probe1, x.probe2) == PAIR[kind] else v.transpose(0, 2, 1), "elements", rtol=1e-11, where=where, job=dname, kind=kind)
        # incomplete or inconsistent sets of files
        which = int(rng.integers(3))
        victim = sorted((src / ["GCph", "GCsp", "XC"][int(rng.integers(3))]).glob("*.dat"))[0]
        kind = victim.parent.name
        if which == 0:
            victim.unlink()
        elif which == 1:
            _scamera(rng, victim, kind, np.r_[ells, 4000.0], _values(rng, kind, len(ells) + 1), **lay)
        else:
            small = {"GCph": "GCsp", "GCsp": "GCph", "XC": "GCsp"}[kind]
            _scamera(rng, victim, small, ells, _values(rng, small, len(ells)), **lay)
        try:
            ISTInputReader(_parameters(rng, False, False)).convertSCameraDerivativesInput(src, base / "second")
        except TypeError as exc:
            ctx.fail("refused-by-accident", f"the message of the refusal fails: {exc!r}", where=where, which=which)
        except Exception:
            ctx.check(True, "refused")
        else:
            ctx.fail("inconsistent-accepted", "an inconsistent set of spectra was converted", where=where, which=which)


def derivatives(ctx):
    rng = ctx.rng
    for it in range(ctx.n(6, 50)):
        src = ctx.scratch("dcl")
        ells = np.sort(rng.uniform(10, 3000, size=int(rng.integers(2, 6))))
        lay = _layout(rng)
        data = {}
        for n in [list(SHORT)[i] for i in rng.permutation(8)[:int(rng.integers(1, 9))]]:
            for kind in KINDS:
                if rng.random() < .8:
                    v = data[n, kind] = _values(rng, kind, len(ells), sign=True)
                    _scamera(rng, src / kind / f"dCijGGd{SHORT[n]}-{['opt-', '', 'x1-'][int(rng.integers(3))]}{SHORT[n]}-Stef.dat", kind, ells, v, **lay)
        where = dict(which=list(data), **lay)
        ctx.case((it, ctx.round, tuple(data), tuple(lay.items())), where)
        kept = _files(src)
        with ctx.op("derivatives", **where):
            got = ISTInputReader().readSCameraClDerivatives(src if rng.random() < .5 else str(src))
            ctx.same({(n, frozenset(k.split("_"))) for n in got for k in got[n]},
                     {(n, frozenset(PK[k].split("_"))) for n, k in data}, "which", where=where)
            for (n, kind), v in data.items():
                ctx.close(got[n][PK[kind]], v, "elements", rtol=1e-11, where=where, par=n, kind=kind)
            ctx.same(_files(src), kept, "source-changed", where=where)


PK = {"GCph": "PhotometricGalaxy_PhotometricGalaxy", "GCsp": "SpectroscopicGalaxy_SpectroscopicGalaxy", "XC": "PhotometricGalaxy_SpectroscopicGalaxy"}


# ------------------------------------------------------------------------------------------------ comparison of codes
def codes(ctx):
    rng = ctx.rng
    legend = {"AB": "CodeA", "CD": "CodeB", "EF": "CodeC", "GH": "CodeD"}
    for it in range(ctx.n(3, 24)):
        base = ctx.scratch("codes")
        flat, scenario = bool(rng.random() < .5), ["optimistic", "pessimistic"][int(rng.integers(2))]
        nb = int(rng.choice([2, 3, 11] if it else [11]))
        cols = ["Omegam", "Omegab", "h", "ns", "sigma8"] + ["w0", "wa"][:int(rng.integers(0, 3))] + ([] if flat else ["Omegade"]) + [f"b{i + 1}" for i in range(nb)]
        our0 = [_our(c) for c in cols]
        keys = list(legend)[:int(rng.integers(2, 5))]
        m0 = _spd(rng, len(cols), .5)
        mats = {}
        (base / "legend.json").write_text(json.dumps(legend))
        # the other directories hold other matrices
        for fl in ("Flat", "NonFlat"):
            for sc in ("optimistic", "pessimistic"):
                d = base / fl / sc
                d.mkdir(parents=True)
                for key in keys:
                    perm = rng.permutation(len(cols))
                    s = rng.uniform(.9, 1.1, size=len(cols))
                    m = m0 * s[:, None] * s
                    if (fl, sc) == ("Flat" if flat else "NonFlat", scenario):
                        mats[legend[key]] = m
                    _write_matrix(d / f"fisher_matrices_results_baseline_GR_{key}{['', '_x', '-v2'][int(rng.integers(3))]}.txt", [cols[i] for i in perm], m[np.ix_(perm, perm)], rng)
        where = dict(flat=flat, scenario=scenario, biases=nb, columns=cols, codes=keys)
        ctx.case((it, ctx.round, tuple(cols), tuple(keys)), where)
        with ctx.op("codes", **where):
            F = ic.read_ISTGCphFishers(base if rng.random() < .5 else str(base), flat, scenario)
            ctx.same(set(F), set(mats), "which", where=where)
            for c in mats:
                ctx.close(F[c].loc[our0, our0].to_numpy(), mats[c], "elements", rtol=1e-11, where=where, code=c)
            errs = ic.compute_errs(F)
            want = {}
            for c, m in mats.items():
                want["marg", c] = np.sqrt(np.diag(np.linalg.inv(m)))
                want["unmarg", c] = 1 / np.sqrt(np.diag(m))
                for kind in ("marg", "unmarg"):
                    ctx.close(errs.loc[(kind, c), our0].to_numpy(), want[kind, c], "errors", rtol=1e-6, where=where, code=c, kind=kind)
            ctx.same(errs.shape, (2 * len(mats), len(cols)), "errors-shape", where=where)
            deltas = ic.compute_deltas_errs(errs)
            ctx.same(deltas.shape, (4 * len(mats), len(cols)), "deltas-shape", where=where)
            for kind in ("marg", "unmarg"):
                tab = np.array([want[kind, c] for c in mats])
                for ref, fn in (("mean", np.mean), ("median", np.median)):
                    r = fn(tab, axis=0)
                    for c in mats:
                        ctx.close(deltas.loc[(ref, kind, c), our0].to_numpy(), 100 * (want[kind, c] - r) / r, "deltas", rtol=1e-5, atol=1e-6, where=where, code=c, kind=kind, ref=ref)
            # b sigma8 as parameters, sigma8 dropped; then back to the cosmology alone
            fid = {p: float(rng.uniform(.5, 2)) for p in our0}
            c = list(mats)[0]
            order = list(F[c].index)
            m = F[c].to_numpy()
            bias = [p for p in order if p.startswith("bg")]
            J = np.zeros((len(order),) * 2)  # d(new)/d(old)
            for i, p in enumerate(order):
                J[i, i] = fid["sigma8"] if p in bias else 1
                if p in bias:
                    J[i, order.index("sigma8")] = fid[p]
            K = np.linalg.inv(J)
            new = K.T @ m @ K
            keep = [i for i, p in enumerate(order) if p != "sigma8"]
            names = [order[i] + ("_sigma8" if order[i] in bias else "") for i in keep]
            sub = new[np.ix_(keep, keep)]
            g = ic.apply_T1_remove_sigma8(F[c].copy(), fid)
            ctx.same(set(g.index), set(names), "new-parameters", where=where)
            scale = np.sqrt(np.outer(np.diag(sub), np.diag(sub)))
            ctx.close(g.loc[names, names].to_numpy() / scale, sub / scale, "new-elements", rtol=1e-7, atol=1e-9, where=where)
            fin = [p for p in order if p not in bias]
            J2 = np.array([[(fid[order[i]] if q == "sigma8" else 0) if order[i] in bias else float(order[i] == q) for q in fin] for i in keep])
            w = J2.T @ sub @ J2
            g = ic.apply_T1_remove_sigma8_then_T2(F[c].copy(), fid)
            ctx.same(set(g.index), set(fin), "final-parameters", where=where)
            scale = np.sqrt(np.outer(np.diag(w), np.diag(w)))
            ctx.close(g.loc[fin, fin].to_numpy() / scale, w / scale, "final-elements", rtol=1e-6, atol=1e-8, where=where)
        ctx.raises(lambda: ic.read_ISTGCphFishers(base, flat, "realistic"), "other-scenario", ValueError, where=where)
        ctx.raises(lambda: ic.read_ISTGCphFishers(base, "Flat", scenario), "other-flatness", TypeError, where=where)
        ctx.raises(lambda: ic.read_ISTGCphFishers(base / "none", flat, scenario), "no-directory", FileNotFoundError, where=where)
        d = base / ("Flat" if flat else "NonFlat") / scenario
        if rng.random() < .5:
            (d / "other.txt").write_text("a b\n1 2\n")
            ctx.raises(lambda: ic.read_ISTGCphFishers(base, flat, scenario), "other-file", where=where)
        else:
            _write_matrix(d / "fisher_matrices_results_baseline_GR_ZZ.txt", cols, m0, rng)
            ctx.raises(lambda: ic.read_ISTGCphFishers(base, flat, scenario), "unknown-code", KeyError, where=where)


SECTIONS = [matrices, matter, angular, derivatives, codes]
