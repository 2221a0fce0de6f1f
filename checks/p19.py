"""P19: final results of a run and their collection over runs."""
import json
import re
import types

import h5py
import numpy as np
import pandas as pd

from seyfert.fisher import fisher_utils as fu
from seyfert.fisher.final_results_core import create_final_results, evaluate_a_posteriori_fisher_combinations
from seyfert.fisher.fisher_analysis import FisherAnalysis
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.fisher.results_collector import ResultsCollector
from seyfert.utils.dir_explorer import DirectoryExplorer
from vlib import world

PROPERTY = "P19"
LEVEL = "exploration"
RULE = ("run directories with random base Fisher matrices (subsets of the known data vectors, external ones, random parameters and orders); every matrix, "
        "error and table of the final results is recomputed from the base matrices; distinct = run content")
ASSUMPTIONS = ["the base matrices of a run share its free cosmological parameters"]
NEEDS = {"oracle.results": 600, "oracle.collected": 60, "combinations": 60, "differences": 6, "external": 7, "oracle.explorer": 38}

PARTS = ["WL", "GCph", "GCsp", "XC(WL,GCph)", "XC(WL,GCsp)", "XC(GCph,GCsp)"]
PK_NUIS = ["lnbgs8_1", "lnbgs8_2", "Ps_1"]
FREE = {"w0_wa_CDM": {"Omm", "Omb", "h", "ns", "sigma8", "w0", "wa"}, "LCDM": {"Omm", "Omb", "h", "ns", "sigma8"}}


def _psd(ctx, pars):
    n = len(pars)
    a = ctx.rng.normal(size=(n, n + 4))
    s = 10 ** ctx.rng.uniform(-.5, 1.2, size=n)
    return pd.DataFrame((a @ a.T + .2 * np.eye(n)) * np.outer(s, s), index=pars, columns=pars)


def _add(a, b, sign=1):
    idx = sorted(set(a.index) | set(b.index))
    return a.reindex(idx, columns=idx).fillna(0) + sign * b.reindex(idx, columns=idx).fillna(0)


def _write(ctx, path, name, m, cosmo, nuis):
    p = [m.index[k] for k in ctx.rng.permutation(len(m))]
    with h5py.File(path, "w") as hf:
        t = h5py.special_dtype(vlen=str)
        hf.create_dataset("name", data=name, dtype=t)
        hf.create_dataset("indices", data=np.array(p, dtype=object), dtype=t)
        hf["fisher_matrix"] = m.loc[p, p].to_numpy()
        hf.create_dataset("cosmological_pars", data=np.array(sorted(cosmo), dtype=object), dtype=t)
        if nuis:
            hf.create_dataset("nuisance_pars", data=np.array(sorted(nuis), dtype=object), dtype=t)


class Run:
    def __init__(self, ctx, run_dir, cosmo, extra_opts=None, datavectors=None, fid=None):
        self.dir = run_dir
        (run_dir / "base_fishers").mkdir(parents=True)
        (run_dir / "input_files_dir").mkdir()
        self.cosmo = set(cosmo)
        self.fid = fid or {p: 0.0 if p == "wa" else float(ctx.rng.uniform(.2, 1.5) * ctx.rng.choice([-1, 1])) for p in list(world.COSMO)}
        self.params = {n: dict(name=n, fiducial=self.fid[n], current_value=self.fid[n], kind="CosmologicalParameter", is_free_parameter=n in self.cosmo,
                               stem_factor=1.0, derivative_method="SteM") for n in world.COSMO}
        nuis = {"WL": {"aIA", "etaIA"}, "GCph": {f"bgph{i}" for i in range(int(ctx.rng.integers(1, 12)))}, "GCsp": {f"bgsp{i}" for i in range(4)}}
        nuis["GCsp"] = set(list(sorted(nuis["GCsp"]))[:int(ctx.rng.integers(1, 5))])
        for p in sorted(set().union(*nuis.values())):
            self.params[p] = dict(name=p, fiducial=1.3, current_value=1.3, kind="NuisanceParameter", is_free_parameter=True, stem_factor=1.0,
                                  derivative_method="SteM", probe="PhotometricGalaxy")
        (run_dir / "input_files_dir" / "params.json").write_text(self.params_file())
        opts = dict(scenario="optimistic", n_sp_bins=4)
        opts.update(extra_opts or {})
        # the order in which a configuration file lists its options means nothing
        opts = {k: opts[k] for k in [sorted(opts)[i] for i in ctx.rng.permutation(len(opts))]}
        self.opts = opts
        (run_dir / "input_files_dir" / "forecast.json").write_text(json.dumps({"metadata": {}, "synthetic_opts": opts, "probes": {}, "survey": {"f_sky": 0.3}}))
        (run_dir / "input_files_dict.json").write_text(json.dumps(
            {"params": "input_files_dir/params.json", "forecast": "input_files_dir/forecast.json", "input_data_dir": str(run_dir / "input_files_dir")}))
        (run_dir / "run_metadata.json").write_text(json.dumps({"run_id": run_dir.name}))
        part = {}
        for x in PARTS:
            ps = sorted(self.cosmo | set().union(*[nuis[q] for q in re.findall("WL|GCph|GCsp", x)]))
            part[x] = _psd(ctx, ps)
        self.base, self.sets = {}, {}
        for dv in datavectors:
            xs = dv.strip("[]").split("+") if dv != "[GCsp(Pk)]" else []
            if xs:
                m = None
                for x in re.findall(r"XC\([A-Za-z,]+\)|[A-Za-z]+", dv.strip("[]")):
                    m = part[x] if m is None else _add(m, part[x])
                nu = set().union(*[nuis[q] for q in re.findall("WL|GCph|GCsp", dv)])
            else:
                nu = set(PK_NUIS)
                m = _psd(ctx, sorted(self.cosmo | nu))
                ctx.saw("external")
            self.base[dv], self.sets[dv] = m, (set(self.cosmo), nu)
            _write(ctx, run_dir / "base_fishers" / FisherMatrix(name=dv).getFilename(), dv, m, self.cosmo, nu)

    def params_file(self):
        return json.dumps(list(self.params.values()) + [{"base_stem_disps": [0.01, 0.02], "is_universe_flat": True}])

    def expected(self, cosmology, mode):
        free = self.cosmo & FREE[cosmology]
        out = {}
        for n, m in self.base.items():
            nu = self.sets[n][1]
            keep = sorted(free | nu)
            m = m.loc[keep, keep]
            if mode == "nuis_fixed":
                m = m.loc[sorted(free), sorted(free)]
            elif mode == "marg_before":
                c, v = sorted(free), sorted(nu)
                if v:
                    a = m.loc[c, c].to_numpy() - m.loc[c, v].to_numpy() @ np.linalg.solve(m.loc[v, v].to_numpy(), m.loc[v, c].to_numpy())
                    m = pd.DataFrame(a, index=c, columns=c)
                else:
                    m = m.loc[c, c]
            out[n] = m
        base = dict(out)
        for name in fu.load_a_posteriori_fisher_comb_names():
            terms = re.split(r" ([+-]) ", name)
            if all(t in base for t in terms[::2]):
                r = base[terms[0]]
                for s, t in zip(terms[1::2], terms[2::2]):
                    r = _add(r, base[t], 1 if s == "+" else -1)
                out[name] = r
        return free, out


KNOWN = None


def _datavectors(ctx):
    global KNOWN
    if KNOWN is None:
        KNOWN = sorted({t for n in fu.load_a_posteriori_fisher_comb_names() for t in re.split(r" [+-] ", n)})
    k = int(ctx.rng.integers(3, 12))
    out = {"[WL]", "[GCph]", "[GCsp]"} if ctx.rng.random() < .6 else set()
    out |= {KNOWN[q] for q in ctx.rng.permutation(len(KNOWN))[:k]}
    if ctx.rng.random() < .7:
        out |= {"[GCsp(Pk)]", "[GCsp]", str(ctx.rng.choice([n for n in KNOWN if n.count("+") >= 2 and "GCsp+" in n]))}
    return sorted(out)


def _cosmo(ctx):
    base = ["Omm", "Omb", "h", "ns", "sigma8", "w0", "wa", "gamma", "mnu"]
    if ctx.rng.random() < .4:
        return base[:7]
    keep = {p for p in base if ctx.rng.random() < .7} | {"Omm"}
    return sorted(keep | {"h"})


def _check_dir(ctx, run, d, cosmology, mode, tag=""):
    free, want = run.expected(cosmology, mode)
    files = {}
    for f in d.glob("fisher*.hdf5"):
        with h5py.File(f) as hf:
            idx = [x.decode() for x in hf["indices"][()]]
            files[hf["name"][()].decode()] = (f, pd.DataFrame(hf["fisher_matrix"][()], index=idx, columns=idx),
                                              {x.decode() for x in hf["cosmological_pars"][()]}, {x.decode() for x in hf["nuisance_pars"][()]} if "nuisance_pars" in hf else set())
    ctx.same(set(files), set(want), tag + "which-matrices", cosmology=cosmology, mode=mode)
    errs = pd.DataFrame({n: pd.Series(np.sqrt(np.diag(np.linalg.inv(m))), index=m.index).reindex(sorted(free)) for n, m in want.items()}).T
    fom = {"w0", "wa"} <= free
    if fom:
        for n, m in want.items():
            i = pd.DataFrame(np.linalg.inv(m), index=m.index, columns=m.index).loc[["w0", "wa"], ["w0", "wa"]].to_numpy()
            errs.loc[n, "FoM"] = 1 / np.sqrt(np.linalg.det(i))
    for n, m in want.items():
        if n not in files:
            continue
        f, g, c, nu = files[n]
        p = sorted(m.index)
        ctx.same(sorted(g.index), p, tag + "matrix-parameters", name=n, mode=mode)
        if sorted(g.index) == p:
            sc = np.sqrt(np.abs(np.outer(np.diag(m.loc[p, p]), np.diag(m.loc[p, p]))))
            ctx.close(g.loc[p, p].to_numpy() / sc, m.loc[p, p].to_numpy() / sc, tag + "matrix", atol=1e-6, name=n, mode=mode, cosmology=cosmology)
        ctx.same((c, nu), (free, set(m.index) - free), tag + "matrix-sets", name=n)
        ctx.saw("combinations", int(" + " in n or " - " in n))
        ctx.saw("differences", int(" - " in n))
    den = pd.Series({p: abs(run.fid[p]) or 1. for p in free} | ({"FoM": 1.} if fom else {}))
    for kind, table in (("marginalized_errors", errs), ("relative_marginalized_errors", errs / den)):
        for suffix in ("csv", "xlsx"):
            fs = list(d.glob(f"{kind}*.{suffix}"))
            ctx.same(len(fs), 1, tag + "one-table", kind=kind)
            t = (pd.read_csv if suffix == "csv" else pd.read_excel)(fs[0], index_col=0)
            ctx.same((set(t.index), set(t.columns), len(t)), (set(want), set(table.columns), len(want)), tag + "table-labels", kind=kind)
            if set(t.index) == set(want):
                ctx.close(t.loc[table.index, table.columns].to_numpy(float), table.to_numpy(float), tag + kind, rtol=1e-4, mode=mode, cosmology=cosmology)
    return free, want, errs, errs / den


def results(ctx):
    for it in range(ctx.n(3, 20)):
        run = Run(ctx, ctx.scratch() / "run_x", _cosmo(ctx), datavectors=_datavectors(ctx))
        before = {f.name: f.read_bytes() for f in (run.dir / "base_fishers").iterdir()}
        create_final_results(run.dir, "final_results")
        ctx.case((tuple(sorted(run.cosmo)), tuple(run.base)), sample=dict(free=sorted(run.cosmo), base=list(run.base)))
        ctx.check({f.name: f.read_bytes() for f in (run.dir / "base_fishers").iterdir()} == before, "base-matrices-modified")
        out = run.dir / "final_results"
        ctx.same({str(x.relative_to(out)) for x in out.glob("*/*")}, {f"{c}/{m}" for c in FREE for m in ("marg_before", "marg_after", "nuis_fixed")}, "layout")
        for c in FREE:
            tabs = {}
            for mode in ("marg_before", "marg_after", "nuis_fixed"):
                free, want, errs, rel = _check_dir(ctx, run, out / c / mode, c, mode)
                tabs[mode] = errs
                # the analysis of that directory
                an = FisherAnalysis.fromRundir(run.dir, cosmology=c, res_subdir_name=mode)
                ctx.same(set(an.fisher_matrices), set(want), "analysis-matrices")
                an.evaluateMarginalizedErrors()
                ctx.close(an.marginalized_errors.loc[errs.index, sorted(free)].to_numpy(float), errs[sorted(free)].to_numpy(float), "analysis-errors", rtol=1e-4)
                ctx.close(an.relative_marginalized_errors.loc[errs.index, sorted(free)].to_numpy(float), rel[sorted(free)].to_numpy(float), "analysis-relative-errors", rtol=1e-4)
                ctx.same(an.cosmo_pars_set, free, "analysis-parameters")
            base = list(run.base)
            a, b, f = (tabs[m].loc[base, sorted(free)].to_numpy(float) for m in ("marg_after", "marg_before", "nuis_fixed"))
            ctx.close(a, b, "marginalizing-order-of-one-matrix", rtol=1e-4)
            ctx.check(np.all(f <= a * (1 + 1e-6)), "fixing-nuisance-widens")
        ctx.raises(lambda: create_final_results(run.dir, "final_results"), "overwritten-unasked", exc=FileExistsError)
        # results of changed base matrices, on request
        new = Run(ctx, ctx.scratch() / "run_x", run.cosmo, datavectors=list(run.base))
        for f in (new.dir / "base_fishers").iterdir():
            (run.dir / "base_fishers" / f.name).write_bytes(f.read_bytes())
        (run.dir / "input_files_dir" / "params.json").write_text(new.params_file())
        create_final_results(run.dir, "final_results", overwrite=True)
        for c in FREE:
            for mode in ("marg_before", "marg_after", "nuis_fixed"):
                _check_dir(ctx, new, out / c / mode, c, mode, "overwritten-")


def collected(ctx):
    for it in range(ctx.n(2, 8)):
        root = ctx.scratch()
        runs = {}
        cosmo = ["Omm", "Omb", "h", "ns", "sigma8", "w0", "wa"]
        dvs = _datavectors(ctx) + ["[GCsp(Pk)]"]
        dvs = sorted(set(dvs))
        for scen in ("optimistic", "pessimistic"):
            for nb in (4, 12):
                o = dict(scenario=scen, n_sp_bins=nb, shot_noise_sp_reduced=False, gcph_minus_gcsp=False, gcph_only_bins_in_spectro_range=bool(it % 2))
                r = Run(ctx, root / f"scenario_{scen}__n_sp_bins_{nb}", cosmo, extra_opts=o, datavectors=dvs,
                        fid=next(iter(runs.values())).fid if runs else None)
                create_final_results(r.dir, "final_results")
                runs[scen, nb] = r
        (root / "unrelated").mkdir()
        mode = ("marg_before", "marg_after", "nuis_fixed")[it % 3]
        c = ("w0_wa_CDM", "LCDM")[it % 2]
        rc = ResultsCollector()
        rc.loadWorkSpaces(str(root))
        ctx.same({ws.run_dir.name for ws in rc.ws_list}, {r.dir.name for r in runs.values()}, "runs-found")
        ctx.case((c, mode, tuple(dvs)), sample=dict(cosmology=c, mode=mode))
        want = {}
        for key, r in runs.items():
            free, m = r.expected(c, mode)
            e = pd.DataFrame({n: pd.Series(np.sqrt(np.diag(np.linalg.inv(x))), index=x.index).reindex(sorted(free)) for n, x in m.items()}).T
            want[key] = (e, e / pd.Series({p: abs(r.fid[p]) or 1. for p in free}))

        def table(t, which, tag):
            ctx.same(len(t), sum(len(w[0]) for w in want.values()), tag + "-rows")
            for key, w in want.items():
                sub = t[(t["scenario"] == key[0]) & (t["n_sp_bins"] == key[1])].set_index("fisher")
                ctx.same(set(sub.index), set(w[which].index), tag + "-names")
                ctx.close(sub.loc[w[which].index, w[which].columns].to_numpy(float), w[which].to_numpy(float), tag, rtol=1e-4)

        table(rc.buildMarginalizedErrorsTable(cosmology=c, res_subdir_name=mode), 0, "errors-table")
        table(rc.buildRelativeMarginalizedErrorsTable(cosmology=c, res_subdir_name=mode), 1, "relative-table")
        outd = ctx.scratch() / "collected"
        rc.collectAndDumpResults(outd if it % 2 else str(outd), cosmology=c, res_subdir_name=mode)
        table(pd.read_excel(outd / c / mode / "marginalized_errors.xlsx"), 0, "dumped-table")
        table(pd.read_excel(outd / c / mode / "relative_marginalized_errors.xlsx"), 1, "dumped-relative-table")
        back = ResultsCollector()
        back.loadFisherAnalysesPickle(outd / c / mode / "fisher_analyses.pickle")
        table(back.getMarginalizedErrorsTableFromAnalysesDataFrame(), 0, "analyses-table")
        table(back.getRelativeMarginalizedErrorsTableFromAnalysesDataFrame(), 1, "analyses-relative-table")
        some = list(want["optimistic", 4][0].index)[:3][::-1]
        for sel in ({"n_sp_bins": 12, "scenario": "pessimistic"}, {"n_sp_bins": 4}, {"scenario": "optimistic", "shot_noise_sp_reduced": False}):
            df = back.getFisherAnalysesSubDf(sel, sel_fishers=some)
            keys = [k for k in want if all(dict(scenario=k[0], n_sp_bins=k[1], shot_noise_sp_reduced=False)[a] == b for a, b in sel.items())]
            ctx.same(sorted(zip(df["scenario"], df["n_sp_bins"])), sorted(keys), "selection")
            for row in df.itertuples():
                e = want[row.scenario, row.n_sp_bins][0]
                ctx.same((set(row.analysis.fisher_matrices), row.analysis.fishers_order), (set(some), some), "selected-matrices")
                ctx.close(row.analysis.marginalized_errors.loc[some, e.columns].to_numpy(float), e.loc[some].to_numpy(float), "selected-errors", rtol=1e-4)
        back.replaceHybridFishersWith4BinsEquivalents()
        for (scen, nb), w in list(want.items()):
            pk = [n for n in w[0].index if "Pk" in n]
            for q in (0, 1):
                w[q].loc[pk] = want[scen, 4][q].loc[pk]
        table(back.getMarginalizedErrorsTableFromAnalysesDataFrame(), 0, "replaced-table")
        table(back.getRelativeMarginalizedErrorsTableFromAnalysesDataFrame(), 1, "replaced-relative-table")


def _stand_in(names, v):
    df = pd.DataFrame({"w0": [v + k for k in range(len(names))], "FoM": [10 * v + k for k in range(len(names))]}, index=names)
    return types.SimpleNamespace(fisher_matrices={n: (v, n) for n in names}, marginalized_errors=df.copy(), relative_marginalized_errors=df / 2)


def replaced(ctx):
    """every matrix with the galaxy power spectrum in it, wherever in its name, becomes that of the 4-bin run of the same settings, and no other"""
    for it in range(ctx.n(6, 40)):
        terms = ["[WL]", "[GCph]", "[GCsp(Pk)]", "[GCsp]", "[WL+GCph+XC(WL,GCph)]", "[XC(WL,GCsp)]"]
        names = list(dict.fromkeys(" ".join(x for t in ctx.rng.permutation(terms)[:int(ctx.rng.integers(1, 5))] for x in (str(ctx.rng.choice(["+", "-"])), str(t)))[2:]
                                   for _ in range(9))) + ["[GCsp(Pk)] + [WL]", "[GCsp(Pk)]"]
        names = list(dict.fromkeys(names))
        kinds = [("optimistic", False, False, False), ("pessimistic", True, False, False), ("optimistic", False, True, bool(ctx.rng.integers(2)))]
        rows, v0 = [], {}
        for k, kind in enumerate(kinds):
            for nb in ctx.rng.permutation([4, 12, 24, 40]):
                v0[int(nb), kind] = 100. * k + int(nb)
                rows.append(dict(zip(("scenario", "shot_noise_sp_reduced", "gcph_minus_gcsp", "gcph_only_bins_in_spectro_range"), kind), n_sp_bins=int(nb),
                                 analysis=_stand_in(names, 100. * k + int(nb))))
        rows = [rows[k] for k in ctx.rng.permutation(len(rows))]
        rc = ResultsCollector()
        rc.analyses_df = pd.DataFrame(rows)
        ctx.case((it, ctx.round, tuple(names)), sample=dict(names=names))
        rc.replaceHybridFishersWith4BinsEquivalents()
        df = rc.analyses_df.reset_index()
        ctx.same(len(df), len(rows), "rows-replaced")
        for _, r in df.iterrows():
            kind = (r["scenario"], r["shot_noise_sp_reduced"], r["gcph_minus_gcsp"], r["gcph_only_bins_in_spectro_range"])
            an = r["analysis"]
            for k, n in enumerate(names):
                v = v0[4 if "(Pk)" in n else int(r["n_sp_bins"]), kind]
                ctx.same((an.fisher_matrices[n], float(an.marginalized_errors.loc[n, "w0"]), float(an.marginalized_errors.loc[n, "FoM"]),
                          float(an.relative_marginalized_errors.loc[n, "w0"])), ((v, n), v + k, 10 * v + k, (v + k) / 2), "replaced-matrices", name=n, bins=int(r["n_sp_bins"]))


def explorer(ctx):
    for it in range(ctx.n(8, 20)):
        root = ctx.scratch()
        names = {}
        for _ in range(8):
            scen, nb = str(ctx.rng.choice(["optimistic", "pessimistic"])), int(ctx.rng.choice([4, 12, 24, 40]))
            tail = str(ctx.rng.choice(["", "_x", "__gcph_minus_gcsp", "_2021-01-01"]))
            form = int(ctx.rng.integers(3))
            n = [f"run_{scen}_v1{tail}", f"{scen}_{nb}_sp_bins_{tail}", f"scenario_{scen}__n_sp_bins_{nb}{tail}"][form]
            names[n] = {"scenario": scen} | ({"nbins": str(nb)} if form else {})
        junk = ["other", "xscenario_optimistic__n_sp_bins_4", "optimistic_sp_bins", "scenario_middle__n_sp_bins_4", "gcph_minus_gcsp"]
        for n in list(names) + junk:
            (root / n).mkdir()
        (root / "run_optimistic_file").write_text("")
        ex = DirectoryExplorer(root if it % 2 else str(root))
        got = {k.split("/")[-1]: v for k, v in ex.selectDirectories().items()}
        ctx.case((tuple(sorted(names)),), sample=dict(directories=sorted(names)))
        ctx.same(got, names, "found")
        for kw, pred in ((dict(containing=["gcph_minus"]), lambda n: "gcph_minus" in n), (dict(not_containing=["_x", "2021"]), lambda n: "_x" not in n and "2021" not in n),
                         (dict(add_filters=[lambda n: n.endswith("_x")]), lambda n: n.endswith("_x")),
                         (dict(add_patterns=[r"gcph_(minus|plus)_gcsp"]), lambda n: "gcph_minus_gcsp" in n)):
            ctx.same({k.split("/")[-1] for k in ex.selectDirectories(**kw)}, {n for n in names if pred(n)}, "filtered", by=str(list(kw)))
        deep = root / "other" / "more" / "scenario_optimistic__n_sp_bins_99"
        deep.mkdir(parents=True)
        ctx.same({k.split("/")[-1] for k in ex.selectDirectories(recursive=True)}, set(names) | {deep.name}, "recursive")
        ctx.same({k.split("/")[-1] for k in ex.selectDirectories()}, set(names), "not-recursive")
        ctx.same({w.run_dir.name for w in ex.selectWorkspaces()}, set(names), "workspaces")


def combinations(ctx):
    """sums and differences of any number of matrices, written as text, are those sums and differences"""
    for it in range(ctx.n(12, 80)):
        pool = ["[WL]", "[GCph]", "[GCsp]", "[GCsp(Pk)]", "[WL+GCph+XC(WL,GCph)]", "[WL+GCph+GCsp+XC(WL,GCph)+XC(WL,GCsp)+XC(GCph,GCsp)]", "[XC(WL,GCsp)]"]
        have = [pool[k] for k in ctx.rng.permutation(len(pool))[:int(ctx.rng.integers(3, 8))]]
        Fs, mats, nuis = {}, {}, {}
        for n in have:
            nuis[n] = {p for p in ("aIA", "bgph0", "bgsp0") if ctx.rng.random() < .5}
            mats[n] = _psd(ctx, sorted({"Omm", "h", "w0"} | nuis[n]))
            Fs[n] = FisherMatrix(matrix_df=mats[n].copy(), name=n, cosmological_parameters={"Omm", "h", "w0"}, nuisance_parameters=set(nuis[n]))
        names = []
        for _ in range(4):
            k = int(ctx.rng.integers(2, 7))
            terms = [str(x) for x in ctx.rng.choice(pool if ctx.rng.random() < .3 else have, size=k)]
            name = terms[0]
            for t in terms[1:]:
                name += f" {ctx.rng.choice(['+', '-'])} {t}"
            names.append(name)
        ctx.case(tuple(names), sample=dict(matrices=have, combinations=names))
        evaluate_a_posteriori_fisher_combinations(Fs, post_fishers_names=list(names))
        want = {}
        for name in names:
            terms = re.split(r" ([+-]) ", name)
            if all(t in mats for t in terms[::2]):
                r = mats[terms[0]]
                for s, t in zip(terms[1::2], terms[2::2]):
                    r = _add(r, mats[t], 1 if s == "+" else -1)
                want[name] = (r, set().union(*[nuis[t] for t in terms[::2]]))
                ctx.saw("long_combinations", len(terms) > 5)
        ctx.same(set(Fs), set(have) | set(want), "combination-names")
        for name, (m, nu) in want.items():
            f = Fs[name]
            p = sorted(m.index)
            ctx.same((f.name, sorted(f.matrix.index), f.cosmological_parameters, f.nuisance_parameters), (name, p, {"Omm", "h", "w0"}, nu), "combination-labels")
            sc = np.abs(np.array([[max(mats[t].loc[a, b] if {a, b} <= set(mats[t].index) else 0 for t in re.split(r" [+-] ", name)) for b in p] for a in p])).max()
            ctx.close(f.matrix.loc[p, p].to_numpy() / sc, m.loc[p, p].to_numpy() / sc, "combination", atol=1e-9, name=name)
        for n in have:
            ctx.close(Fs[n].matrix.loc[mats[n].index, mats[n].index].to_numpy(), mats[n].to_numpy(), "term-modified", rtol=0, atol=0)


SECTIONS = [results, collected, replaced, combinations, explorer]
