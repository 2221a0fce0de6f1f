"""P17: Fisher matrix files."""
import itertools

import numpy as np
import pandas as pd

from checks.p16 import COSMO, NUIS, _make
from seyfert.fisher.datavector import ClDataVector
from seyfert.fisher import fisher_utils as fu
from seyfert.fisher.fisher_analysis import FisherAnalysis
from seyfert.fisher.fisher_matrix import FisherMatrix, fromHDF5
from vlib import crash

PROPERTY = "P17"
LEVEL = "exploration"
RULE = ("generated matrices written and read in hdf5 and csv; names of all the data vectors and combinations a run can have; every line of a write is "
        "a crash point and a fault point; distinct = case x crash point")
ASSUMPTIONS = ["a crash is the process dying; loss of data the operating system already accepted is out of scope"]
NEEDS = {"oracle.round_trip": 300, "oracle.names": 300, "long_names": 200, "crash_points": 40, "fault_points": 40, "interrupted_with_previous": 20, "oracle.directories": 60}


def _names():
    """names of the data vectors of runs over any set of probes, and of their combinations"""
    out = []
    autos = ["WL", "GCph", "GCsp"]
    xcs = [f"XC({a},{b})" for a, b in itertools.combinations(autos, 2)]
    parts = autos + xcs
    for r in range(1, 7):
        for c in itertools.combinations(parts, r):
            out.append("[" + "+".join(c) + "]")
    out += ["[V]", "[WL+V]", "[GCsp(Pk)]", "[XC(WL,V)]", "[XC(GCph,V)]", "[GCph+V+XC(GCph,V)]"]
    return out


def names(ctx):
    base = _names()
    combos = [f"{a} {op} {b}" for a in base[:25] for b in base[:12] for op in "+-"]
    combos += [f"{a} - {b} + [GCsp(Pk)]" for a in base[:20] for b in base[:4]] + fu.load_a_posteriori_fisher_comb_names()
    allnames = list(dict.fromkeys(base + combos))
    seen = {}
    for n in allnames:
        fn = FisherMatrix(name=n).getFilename()
        ctx.check(fn.startswith("fisher") and fn.endswith(".hdf5") and "/" not in fn, "file-name-form", file=fn)
        ctx.check(fn not in seen, "two-names-share-a-file", first=seen.get(fn), second=n, file=fn)
        seen[fn] = n
    ctx.case((len(allnames), ctx.round), sample=dict(files=list(seen)[:6]))
    # matrices named without brackets (external files, older runs) and their sums, next to data vectors of several spectra
    plain = ["WL", "GCph", "GCsp", "Pk", "GCsp_Pk", "Planck18"]
    pool = plain + [f"{a} {op} {b}" for a in plain for b in plain if a != b for op in "+-"] + [n for n in base[:63] if "+" in n]
    pool += [f"{a} + {b} {op} {c}" for a, b, c in itertools.permutations(plain, 3) for op in "+-"]
    seen = {}
    for n in pool:
        fn = FisherMatrix(name=n).getFilename()
        ctx.check(fn not in seen, "two-names-share-a-file", first=seen.get(fn), second=n, file=fn)
        seen[fn] = n
    # long data vectors of any ordered pairs of probes, which differ in their last entries, and sums of them
    four = ["WL", "GCph", "GCsp", "V"]
    pairs = [f"XC({a},{b})" for a, b in itertools.permutations(four, 2)]
    seen = {}
    for it in range(ctx.n(40, 300)):
        head = list(ctx.rng.permutation(four)[:int(ctx.rng.integers(1, 5))]) + list(ctx.rng.permutation(pairs)[:int(ctx.rng.integers(3, 11))])
        last = [p for p in pairs if p not in head]
        some = ["[" + "+".join(head + [p]) + "]" for p in last] + ["[" + "+".join(head) + "]"]
        short = [n + t for n in some[:3] for t in (" + [GCsp(Pk)]", " - [GCsp(Pk)]") if len(n) < 190]
        for n in some + short:
            fn = FisherMatrix(name=n).getFilename()
            ctx.check(seen.setdefault(fn, n) == n, "two-long-names-share-a-file", first=seen.get(fn), second=n, file=fn)
        ctx.saw("long_names", len(some + short))
    # the written name identifies the data vector
    for n in base[:63]:
        ctx.same(ClDataVector.fromName(n).name, n, "name-is-the-datavector")


def _equal(ctx, g, f, tag):
    ctx.same(g.name, f.name, tag + "-name")
    ctx.check(isinstance(g.name, str) and all(isinstance(p, str) for p in list(g.index) + list(g.physical_parameters)), tag + "-text")
    ctx.same((list(g.index), list(g.columns)), (list(f.index), list(f.columns)), tag + "-labels-and-order")
    ctx.check(np.array_equal(g.matrix.to_numpy(float), f.matrix.to_numpy(float)), tag + "-elements")
    ctx.same((g.cosmological_parameters, g.nuisance_parameters), (f.cosmological_parameters, f.nuisance_parameters), tag + "-sets")
    ctx.check(g == f and f == g, tag + "-equal")


def round_trip(ctx):
    pool = _names()
    for it in range(ctx.n(12, 80)):
        d = ctx.scratch()
        f, _ = _make(ctx, str(ctx.rng.choice(pool)) + str(ctx.rng.choice(["", " + [GCsp(Pk)]", " - [GCsp]"])))
        if it % 5 == 0:
            f = _make(ctx, f.name, ["Omm"], [])[0]
        if it % 4 == 0:
            f.matrix *= 10.0 ** ctx.rng.integers(-300, 150)
        if it % 2:
            f.writeToFile(outdir=str(d) if it % 3 else d)
            file = d / f.getFilename()
        else:
            file = d / f"fisher_{it}.hdf5"
            f.writeToFile(outfile=file if it % 3 else str(file))
        ctx.same([x.name for x in d.iterdir()], [file.name], "files-written")
        ctx.case((len(f.cosmological_parameters), len(f.nuisance_parameters), f.name), sample=dict(name=f.name, parameters=list(f.index)))
        for g in (FisherMatrix.fromHDF5(file), fromHDF5(str(file))):
            _equal(ctx, g, f, "hdf5")
            ctx.check(g == f, "loaded-unequal")
        p = f.index[int(ctx.rng.integers(len(f.index)))]
        other = f.copy()
        other.matrix.loc[p, p] *= 1 + 1e-9
        ctx.check(not other == f, "unequal-element-equal")
        other = f.copy()
        if p in f.cosmological_parameters:
            other._cosmological_parameters = other.cosmological_parameters - {p}
        else:
            other._nuisance_parameters = other.nuisance_parameters - {p}
        ctx.check(not other == f, "unequal-sets-equal")
        g = _make(ctx)[0]
        g.evaluateInverse()
        g.loadFromFile(file)
        _equal(ctx, g, f, "reloaded-object")
        if it % 4:
            ctx.close(g.getMarginalizedErrors(fom=False, only_cosmo=False).sort_index(), f.getMarginalizedErrors(fom=False, only_cosmo=False).sort_index(),
                      "errors-of-loaded", rtol=1e-9)
        # existing files are only replaced on request
        h = _make(ctx, f.name)[0]
        before = file.read_bytes()
        ctx.raises(lambda: h.writeToFile(outfile=file), "overwrites-unasked", exc=FileExistsError)
        h.writeToFile(outfile=file, skip_if_exists=True)
        ctx.check(file.read_bytes() == before, "skip-modifies-file")
        h.writeToFile(outfile=file, overwrite=True, skip_if_exists=True)
        ctx.check(file.read_bytes() == before, "skip-modifies-file")
        h.writeToFile(outfile=file, overwrite=True)
        _equal(ctx, FisherMatrix.fromHDF5(file), h, "overwritten")
        h2 = _make(ctx, "[first]")[0]
        h2.writeToFile(outfile=d / "fisher_new.hdf5", skip_if_exists=True)
        _equal(ctx, FisherMatrix.fromHDF5(d / "fisher_new.hdf5"), h2, "skip-when-absent")
        ctx.raises(lambda: h.writeToFile(), "no-destination-accepted")
        # csv
        f2 = _make(ctx, "[c]")[0]
        f2.matrix.to_csv(d / "mat.csv")
        g = FisherMatrix.fromCSV(d / "mat.csv", f2.cosmological_parameters, f2.nuisance_parameters)
        ctx.same((list(g.index), list(g.columns), g.name), (list(f2.index), list(f2.columns), "mat"), "csv-labels")
        ctx.close(g.matrix.to_numpy(float), f2.matrix.to_numpy(float), "csv-elements", rtol=1e-11)
        ctx.same((g.cosmological_parameters, g.nuisance_parameters), (f2.cosmological_parameters, f2.nuisance_parameters), "csv-sets")
        k = FisherMatrix(name="[k]", cosmological_parameters=f2.cosmological_parameters, nuisance_parameters=f2.nuisance_parameters)
        k.loadFromFile(d / "mat.csv", file_ext="csv")
        ctx.close(k.matrix.to_numpy(float), f2.matrix.to_numpy(float), "csv-elements", rtol=1e-11)
        ctx.raises(lambda: k.loadFromFile(d / "mat.csv", file_ext="txt"), "unknown-format-accepted")
        ctx.raises(lambda: FisherMatrix.fromHDF5(d / "absent.hdf5"), "absent-file-accepted")


def _state(ctx, d, file, new, old, k, tag):
    """whatever was interrupted: every Fisher file found is complete, and is the old or the new one"""
    found = list(d.glob("fisher*.hdf5"))
    ctx.check(set(found) <= {file}, tag + "-stray-fisher-file", files=[x.name for x in d.iterdir()])
    if old is not None:
        ctx.check(file.exists(), tag + "-previous-file-lost", point=k)
        ctx.saw("interrupted_with_previous")
    if not file.exists():
        return "absent"
    try:
        g = FisherMatrix.fromHDF5(file)
        g.checkAttributes()
    except Exception as exc:
        ctx.fail(tag + "-unreadable-file", repr(exc), point=k)
        return "broken"
    state = "new" if g == new else "old" if old is not None and g == old else "mixed"
    ctx.check(state != "mixed", tag + "-mixed-file", point=k)
    if g == new:
        ctx.same((g.cosmological_parameters, g.nuisance_parameters), (new.cosmological_parameters, new.nuisance_parameters), tag + "-incomplete", point=k)
    return state


def interrupted(ctx):
    for it in range(ctx.n(2, 12)):
        new = _make(ctx, "[WL+GCph+XC(WL,GCph)]")[0]
        old = _make(ctx, new.name)[0] if (it + ctx.round) % 2 else None
        for tag, tool in (("crash", crash.crashes), ("fault", crash.faults)):
            d = ctx.scratch()
            file = d / new.getFilename()
            probe = ctx.scratch()
            total = crash.total(lambda: new.writeToFile(outdir=probe))
            start = 1 + int(ctx.rng.integers(3))
            points = range(start, total + 3, ctx.n(2, 1)) if ctx.quick else range(1, total + 3)
            write = lambda: new.writeToFile(outdir=d, overwrite=True)  # noqa: E731
            if old is not None:
                old.writeToFile(outdir=d)
            states = set()
            for k, code in tool(write, points):
                if code == 97:
                    ctx.fail(tag + "-write-raised", f"the write raised at point {k}")
                ctx.saw(tag + "_points")
                st = "completed" if code == 0 else _state(ctx, d, file, new, old, k, tag)
                if code == 0:
                    _state(ctx, d, file, new, old, k, tag)
                states.add(st)
                ctx.case((tag, k, st, old is not None), sample=dict(point=k, of=total, state=st))
                # what was left behind does not disturb a fresh attempt
                if st == "new" or code == 0:
                    for x in d.iterdir():
                        x.unlink()
                    if old is not None:
                        old.writeToFile(outdir=d)
            new.writeToFile(outdir=d, overwrite=True)
            _equal(ctx, FisherMatrix.fromHDF5(file), new, tag + "-recovered")
            ctx.check(len(states) >= 2, "harness-states", states=list(states))


def directories(ctx):
    for it in range(ctx.n(8, 50)):
        d = ctx.scratch()
        chosen = [str(x) for x in ctx.rng.choice(_names(), size=int(ctx.rng.integers(1, 6)), replace=False)]
        cosmo = [COSMO[k] for k in ctx.rng.permutation(len(COSMO))[:int(ctx.rng.integers(3, 7))]]
        fs = {n: _make(ctx, n, cosmo, [NUIS[k] for k in ctx.rng.permutation(len(NUIS))[:int(ctx.rng.integers(0, 4))]])[0] for n in chosen}
        first = FisherAnalysis(cosmo_pars_fiducial={p: 1. for p in cosmo}, fisher_matrices={n: f.copy() for n, f in fs.items()})
        first.saveFishersToDisk(d)
        for junk in ("other.hdf5", "readme.txt", "marginalized_errors_x.csv"):
            (d / junk).write_text("junk")
        (d / "fisher_sub").mkdir()
        keep = {p: float(ctx.rng.uniform(.1, 2)) for p in cosmo[:int(ctx.rng.integers(2, len(cosmo) + 1))]}
        for flag in (True, False):
            an = FisherAnalysis(cosmo_pars_fiducial=keep, marginalize_nuisance=flag)
            an.loadBaseFishersFromDir(d if it % 2 else str(d))
            an.useBaseFishers()
            ctx.case((tuple(chosen), flag, len(keep)), sample=dict(matrices=chosen, kept=list(keep), nuisance=flag))
            ctx.same(set(an.fisher_matrices), set(fs), "loaded-names")
            for n, f in fs.items():
                pars = sorted(set(keep) | (f.nuisance_parameters if flag else set()))
                g = an[n]
                ctx.same((sorted(g.index), sorted(g.columns)), (pars, pars), "loaded-slice")
                ctx.check(np.array_equal(g.matrix.loc[pars, pars].to_numpy(float), f.matrix.loc[pars, pars].to_numpy(float)), "loaded-elements")
                ctx.same((g.cosmological_parameters, g.nuisance_parameters), (set(keep), f.nuisance_parameters if flag else set()), "loaded-sets")
            an.evaluateMarginalizedErrors()
            for n, f in fs.items():
                pars = sorted(set(keep) | (f.nuisance_parameters if flag else set()))
                e = pd.Series(np.sqrt(np.diag(np.linalg.inv(f.matrix.loc[pars, pars]))), index=pars)
                ctx.close(an.marginalized_errors.loc[n, sorted(keep)].to_numpy(float), e.loc[sorted(keep)].to_numpy(), "loaded-errors", rtol=1e-6)
        an = FisherAnalysis()
        an.loadBaseFishersFromDir(d)
        ctx.check(all(an.base_fishers[n] == f for n, f in fs.items()), "loaded-whole")
        ctx.raises(lambda: FisherAnalysis().loadBaseFishersFromDir(d / "nope"), "absent-directory-accepted", exc=FileNotFoundError)
        ctx.raises(lambda: first.saveFishersToDisk(d), "directory-overwritten-unasked", exc=FileExistsError)
        first.saveFishersToDisk(d, overwrite=True)
        ctx.raises(lambda: FisherAnalysis().useBaseFishers(), "unloaded-base-used", exc=ValueError)


SECTIONS = [names, round_trip, interrupted, directories]
