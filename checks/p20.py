"""P20: results of a results configuration, their directory, and the plots drawn from them."""
import json
import re

import h5py
import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from matplotlib.patches import Ellipse
from scipy import special, stats

from checks.p19 import _add, _psd, _write
from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection
from seyfert.fisher.fisher_analysis import FisherAnalysis
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.fisher.fisher_plot import FisherPlotter
from seyfert.fisher.fisher_results import FisherResultsCollector
from seyfert.utils import filesystem_utils as fsu
from vlib import world

PROPERTY = "P20"
LEVEL = "exploration"
RULE = ("random results configurations (cosmologies, parameters, sums of matrices) over directories of random base matrices: the analyses, the "
        "directories written and what reading them back gives are recomputed from the base matrices; artists of the contour figures are read "
        "back from the figure; distinct = configuration x base matrices")
ASSUMPTIONS = ["all base matrices hold the free cosmological parameters", "figures are judged by the artists they contain, not by pixels"]
NEEDS = {"oracle.configured": 466, "sums": 9, "oracle.figures": 300, "ellipses": 33, "gaussians": 28}

NUIS = {"WL": ["aIA", "etaIA"], "GCph": ["bgph0", "bgph1", "bgph2"], "GCsp": ["bgsp0", "bgsp1"]}
STYLES = [["WL", "GCph", "GCsp", "WL+GCph+XC", "WL+GCsp+XC", "GCph+GCsp+XC", "WL+GCph+GCsp+XC"],
          ["[WL]", "[GCph]", "[GCsp]", "[WL+GCph+XC(WL,GCph)]", "[WL+GCsp+XC(WL,GCsp)]", "[GCph+GCsp+XC(GCph,GCsp)]",
           "[WL+GCph+GCsp+XC(WL,GCph)+XC(WL,GCsp)+XC(GCph,GCsp)]"]]
COSMOS = {"LCDM": ["h", "Omm", "Omb", "ns", "sigma8"], "w0_wa_CDM": ["h", "Omm", "Omb", "ns", "sigma8", "w0", "wa"],
          "mnu_LCDM": ["h", "Omm", "Omb", "ns", "sigma8", "mnu"], "gamma_w0_wa_CDM": ["h", "Omm", "Omb", "ns", "sigma8", "w0", "wa", "gamma"],
          "few": ["Omm", "wa"]}


class Setup:
    def __init__(self, ctx):
        self.free = set(world.COSMO) - {"OmDE"} if ctx.rng.random() < .5 else {"h", "Omm", "Omb", "ns", "sigma8", "w0", "wa"}
        self.fid = {p: 0.0 if p == "wa" else float(ctx.rng.uniform(.2, 1.5) * ctx.rng.choice([-1, 1]) * 10.0 ** ctx.rng.choice([0, 0, 0, -1, -3])) for p in world.COSMO}
        pars = [PhysicalParameter(name=p, fiducial=self.fid[p], kind="CosmologicalParameter", is_free_parameter=p in self.free) for p in world.COSMO]
        for q, l in NUIS.items():
            pars += [PhysicalParameter(name=p, fiducial=1.0, kind="NuisanceParameter", probe=q, is_free_parameter=True) for p in l]
        self.pars = PhysicalParametersCollection()
        self.pars.update({pars[k].name: pars[k] for k in ctx.rng.permutation(len(pars))})
        self.dir = ctx.scratch() / "fishers"
        self.dir.mkdir()
        names = STYLES[int(ctx.rng.integers(2))]
        keep = [n for n in names if ctx.rng.random() < .75] or names[:2]
        self.base, self.nuis = {}, {}
        for n in keep:
            nu = {p for q in NUIS if q in n for p in NUIS[q]} if ctx.rng.random() < .9 else set()
            self.base[n] = _psd(ctx, sorted(self.free | nu))
            self.nuis[n] = nu
            _write(ctx, self.dir / FisherMatrix(name=n).getFilename(), n, self.base[n], self.free, nu)
        (self.dir / "notes.txt").write_text("x")

    def expected(self, pars, addends, marginalize):
        out = {}
        for group in addends or [[n] for n in self.base]:
            m = None
            for n in group:
                p = sorted(set(pars) | (self.nuis[n] if marginalize else set()))
                f = self.base[n].loc[p, p]
                m = f if m is None else _add(m, f)
            out["+".join(group)] = m.loc[sorted(m.index), sorted(m.index)]
        return out


def _errors(m, pars):
    inv = pd.DataFrame(np.linalg.inv(m), index=m.index, columns=m.index)
    e = pd.Series(np.sqrt(np.diag(inv)), index=m.index)[sorted(pars)]
    if {"w0", "wa"} <= set(pars):
        e["FoM"] = 1 / np.sqrt(np.linalg.det(inv.loc[["w0", "wa"], ["w0", "wa"]]))
    return e, inv


def _table(t, want, ctx, tag, **kw):
    ctx.same((set(t.index), set(t.columns), len(t)), (set(want.index), set(want.columns), len(want)), tag + "-labels", **kw)
    if set(t.index) == set(want.index) and set(want.columns) <= set(t.columns):
        ctx.close(t.loc[want.index, want.columns].to_numpy(float), want.to_numpy(float), tag, rtol=1e-5, **kw)


def configured(ctx):
    for it in range(ctx.n(5, 40)):
        s = Setup(ctx)
        cosmos = {}
        for c, p in COSMOS.items():
            if set(p) <= s.free:
                cosmos[c] = dict(present=str(ctx.rng.choice(["true", "True", "false"])) if c != "LCDM" else "true", pars=[p[k] for k in ctx.rng.permutation(len(p))],
                                 pars_to_plot="all")
        names = list(s.base)
        groups = [[n] for n in names if ctx.rng.random() < .6]
        for _ in range(3):
            g = [names[k] for k in ctx.rng.permutation(len(names))[:int(ctx.rng.integers(1, 4))]]
            if sorted(g) not in [sorted(x) for x in groups] and "+".join(g) not in names:
                groups.append(g)
        if it % 3 == 2 or not groups:
            groups = []
        marg = bool(it % 4 != 3)
        cfgfile = ctx.scratch() / "results_config.json"
        default = json.loads((fsu.config_files_dir() / "results_config.json").read_text())
        cfgfile.write_text(json.dumps(dict(plot_settings=default["plot_settings"], fishers_addends_list=groups, cosmologies=cosmos)))
        name = str(ctx.rng.choice(["run_1", "euclid", "a-b"])) if it % 2 else None
        rc = FisherResultsCollector(phys_pars=s.pars, analysis_name=name, fishers_dir=s.dir if it % 2 else str(s.dir), results_config_file=cfgfile,
                                    do_plots=False, marginalize_nuisance=marg)
        rc.setUp()
        present = {c for c in cosmos if cosmos[c]["present"].lower() == "true"}
        ctx.case((tuple(names), tuple(map(tuple, groups)), tuple(sorted(present)), marg), sample=dict(base=names, sums=groups, cosmologies=sorted(present)))
        ctx.same(set(rc.analysis_dict), present, "cosmologies")
        out = ctx.scratch() / "results"
        rc.writeResultsAndDoPlots(out)
        back = FisherResultsCollector()
        back.loadFromResultsDir(out if it % 2 else str(out))
        ctx.same(set(back.analysis_dict), present, "cosmologies-read")
        for c in present:
            pars = cosmos[c]["pars"]
            want = s.expected(pars, groups, marg)
            ctx.saw("sums", sum(len(g) > 1 for g in groups))
            errs = pd.DataFrame({n: _errors(m, pars)[0] for n, m in want.items()}).T
            den = pd.Series({p: abs(s.fid[p]) or 1. for p in pars} | {"FoM": 1.})[list(errs.columns)]
            corr = {}
            for n, m in want.items():
                i = _errors(m, pars)[1].loc[sorted(pars), sorted(pars)]
                d = np.sqrt(np.diag(i))
                corr[n] = i / np.outer(d, d)
            for an, tag in ((rc.analysis_dict[c], "computed"), (back.analysis_dict[c], "read")):
                _table(an.marginalized_errors, errs, ctx, tag + "-errors", cosmology=c)
                _table(an.relative_marginalized_errors, errs / den, ctx, tag + "-relative-errors", cosmology=c)
                got = {}
                for k, f in an.fisher_matrices.items():
                    got[k] = f
                    # a sum is the same data whichever way its terms are joined
                keys = {k.replace(" + ", "+"): k for k in got}
                ctx.same(set(keys), set(want), tag + "-matrices")
                for n in want:
                    if n not in keys:
                        continue
                    f, m = got[keys[n]], want[n]
                    ctx.same((sorted(f.matrix.index), f.cosmological_parameters, f.nuisance_parameters), (sorted(m.index), set(pars), set(m.index) - set(pars)),
                             tag + "-parameters", name=n)
                    sc = np.sqrt(np.outer(np.diag(m), np.diag(m)))
                    ctx.close(f.matrix.loc[m.index, m.index].to_numpy() / sc, m.to_numpy() / sc, tag + "-matrix", atol=1e-8, name=n)
                    k = f.correlation
                    ctx.check(k is not None, tag + "-correlation-missing", name=n)
                    if k is not None:
                        ctx.same((set(k.index), set(k.columns)), (set(pars), set(pars)), tag + "-correlation-parameters")
                        ctx.close(k.loc[sorted(pars), sorted(pars)].to_numpy(float), corr[n].to_numpy(), tag + "-correlation", atol=1e-6, name=n)
            # the files themselves
            d = out / c
            fs = sorted(x.name for x in (d / "errors").iterdir())
            stem = name or "test_analysis"
            ctx.same(fs, sorted(f"{k}_{stem}.{e}" for k in ("marginalized_errors", "relative_marginalized_errors") for e in ("csv", "xlsx")), "error-files")
            _table(pd.read_csv(d / "errors" / f"marginalized_errors_{stem}.csv", index_col=0), errs, ctx, "errors-file")
            _table(pd.read_excel(d / "errors" / f"relative_marginalized_errors_{stem}.xlsx", index_col=0), errs / den, ctx, "relative-errors-file")
            ctx.same(len(list((d / "fishers").glob("*.hdf5"))), len(want), "matrix-files")
            ctx.same(len(list((d / "correlations").glob("*.csv"))), len(want), "correlation-files")
        # parameters the forecast does not have, matrices the directory does not have
        bad = dict(plot_settings={}, fishers_addends_list=[], cosmologies={"X": dict(present="true", pars=["Omm", "nowhere"], pars_to_plot="all")})
        cfgfile.write_text(json.dumps(bad))
        ctx.raises(FisherResultsCollector(phys_pars=s.pars, fishers_dir=s.dir, results_config_file=cfgfile, do_plots=False).setUp, "unknown-parameter-accepted")
        fixed = [n for n, p in s.pars.items() if p.is_cosmological and not p.is_free_parameter]
        if fixed:
            bad["cosmologies"]["X"]["pars"] = [sorted(s.free)[0], fixed[int(ctx.rng.integers(len(fixed)))]]
            cfgfile.write_text(json.dumps(bad))
            ctx.raises(FisherResultsCollector(phys_pars=s.pars, fishers_dir=s.dir, results_config_file=cfgfile, do_plots=False).setUp, "fixed-parameter-accepted")
            ctx.saw("fixed_parameters_asked_for")
        bad = dict(plot_settings={}, fishers_addends_list=[[names[0], "[V]"]], cosmologies={"X": dict(present="true", pars=["Omm"], pars_to_plot="all")})
        cfgfile.write_text(json.dumps(bad))
        ctx.raises(FisherResultsCollector(phys_pars=s.pars, fishers_dir=s.dir, results_config_file=cfgfile, do_plots=False).setUp, "unknown-matrix-accepted")


def _rgba(c):
    return np.round(matplotlib.colors.to_rgba(c), 6)


def _check_figure(ctx, s, pl, an, want, pars, ranges, default, tag, order=None):
    """every panel of the triangular figure against the base matrices"""
    names = list(an.fishers_order)
    everyone = names
    inv = {n: _errors(m, [p for p in m.index if p in s.fid])[1] for n, m in want.items()}
    n = len(pars)
    ctx.same(pl.axes.shape, (n, n), tag + "panels")
    cmap = matplotlib.colormaps[default["graphics"]["color_map"]]
    colour = {k: np.array(cmap(np.linspace(0, 1, len(everyone))[q])) for q, k in enumerate(everyone)}
    names = order or everyone
    ticks = int(default["graphics"]["ticks"]["number"]) if "ticks" in default["graphics"] else None
    tex = pl.translator.phys_par_name_to_tex
    cl = default["graphics"]["cl_alpha_dict"]
    for i in range(n):
        for j in range(n):
            ax = pl.axes[i, j]
            x, y = pars[j], pars[i]
            arts = [a for a in ax.get_children() if isinstance(a, Ellipse)]
            if i < j:
                ctx.check(not ax.axison, tag + "upper-panel-shown")
                ctx.check(not arts and not ax.lines, tag + "upper-panel-drawn")
                continue
            ctx.close(ax.get_xlim(), ranges[x], tag + "x-range", rtol=1e-6, parameter=x)
            if i == j:
                ctx.same((len(ax.lines), len(ax.collections)), (len(names) * len(cl["gauss"]),) * 2, tag + "curves")
                k = 0
                for name in names:
                    sig = np.sqrt(inv[name].loc[x, x])
                    for c, alpha in cl["gauss"].items():
                        line, fill = ax.lines[k], ax.collections[k]
                        k += 1
                        gx, gy = line.get_data()
                        ctx.saw("gaussians")
                        ctx.close(gy, np.exp(-.5 * ((gx - s.fid[x]) / sig) ** 2), tag + "gaussian", rtol=1e-5, atol=1e-9, parameter=x, name=name)
                        ctx.close([gx.min(), gx.max()], sorted(ranges[x]), tag + "gaussian-range", rtol=1e-6)
                        ctx.close(_rgba(line.get_color()), colour[name], tag + "gaussian-colour", atol=1e-3)
                        half = sig * stats.norm.ppf(.5 + float(c) / 2)
                        inside = gx[np.abs(gx - s.fid[x]) <= half]
                        v = np.vstack([p.vertices for p in fill.get_paths()]) if fill.get_paths() else np.zeros((0, 2))
                        if len(inside) > 1 and len(v):
                            ctx.close([v[:, 0].min(), v[:, 0].max()], [inside.min(), inside.max()], tag + "shaded-interval", rtol=1e-5, atol=1e-5 * sig, cl=c)
                            ctx.close(fill.get_alpha(), float(alpha), tag + "shade")
            else:
                ctx.close(ax.get_ylim(), ranges[y], tag + "y-range", rtol=1e-6, parameter=y)
                ctx.same(len(arts), 2 * len(names) * len(cl["ellipse"]), tag + "ellipses")
                seen = {}
                for a in arts:
                    # the region |delta| <= k sigma of both parameters' joint Gaussian: boundary points satisfy d^T C^-1 d = k^2
                    t = np.linspace(0, 2 * np.pi, 13)[:-1]
                    th = np.deg2rad(a.get_angle())
                    u = np.stack([a.width / 2 * np.cos(t), a.height / 2 * np.sin(t)])
                    d = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]]) @ u
                    ctx.close(a.get_center(), [s.fid[x], s.fid[y]], tag + "ellipse-centre", atol=1e-12)
                    ctx.saw("ellipses")
                    best = None
                    for name in names:
                        c = inv[name].loc[[x, y], [x, y]].to_numpy()
                        for level, alpha in cl["ellipse"].items():
                            k = np.sqrt(2) * special.erfinv(float(level))
                            q = np.sum(d * np.linalg.solve(c, d), axis=0) / k ** 2
                            ok = np.max(np.abs(q - 1)) < 1e-5
                            col = np.allclose(_rgba(a.get_edgecolor())[:3], colour[name][:3], atol=1e-3)
                            if ok and col:
                                best = (name, level, bool(a.get_fill()))
                                if a.get_fill():
                                    ctx.close(a.get_alpha(), float(alpha), tag + "ellipse-shade")
                    ctx.check(best is not None, tag + "ellipse-of-no-matrix", x=x, y=y)
                    seen[best] = seen.get(best, 0) + 1
                ctx.same(set(seen), {(nm, lv, f) for nm in names for lv in cl["ellipse"] for f in (True, False)}, tag + "ellipse-of-each-matrix")
            ctx.same(ax.get_xlabel(), f"${tex[x]}$" if i == n - 1 else "", tag + "x-label", parameter=x)
            if i != j:
                ctx.same(ax.get_ylabel(), f"${tex[y]}$" if j == 0 else "", tag + "y-label", parameter=y)
            for along, p in (("x", x), ("y", y)):
                if along == "y" and i == j:
                    continue
                at = np.asarray(getattr(ax, f"get_{along}ticks")())
                ctx.check(len(at) >= 2, tag + "ticks")
                ctx.close([at.min(), at.max()], sorted(ranges[p]), tag + "ticks", rtol=1e-6, parameter=p, along=along)
    if pl.figure.legends:
        leg = pl.figure.legends[0]
        ctx.same(len(leg.get_texts()), len(names), tag + "legend-entries")
        ctx.same(leg.get_title().get_text(), an.name, tag + "legend-title")
        texts = [t.get_text() for t in leg.get_texts()]
        ctx.same(len(set(texts)), len(names), tag + "legend-texts")
        for name, text in zip(names, texts):
            probes = re.findall(r"WL|GCph|GCsp", name)
            plain = re.sub(r"[^A-Za-z]", "", re.sub(r"\\(mathrm|rm|text|left|right|!)", "", text))
            ctx.check([x.replace("_", "") for x in re.findall(r"WL|GCph|GCsp", plain)] == probes, tag + "legend-text-of-matrix", name=name, text=text)
        for name, h in zip(names, leg.legend_handles):
            ctx.close(_rgba(h.get_facecolor())[:3], colour[name][:3], tag + "legend-colour", atol=1e-3, name=name)


def figures(ctx):
    for it in range(ctx.n(3, 25)):
        s = Setup(ctx)
        c = [k for k in COSMOS if set(COSMOS[k]) <= s.free][int(ctx.rng.integers(100)) % len([k for k in COSMOS if set(COSMOS[k]) <= s.free])]
        pars = COSMOS[c]
        k = int(ctx.rng.integers(2, min(4, len(pars)) + 1))
        sub = [pars[q] for q in ctx.rng.permutation(len(pars))[:k]]
        whole = bool(it % 3 == 2) and len(pars) < 6
        names = list(s.base)
        g = [[n] for n in names[:3]] + ([names[:2]] if len(names) > 1 and "+".join(names[:2]) not in names else [])
        settings = json.loads((fsu.config_files_dir() / "results_config.json").read_text())["plot_settings"]
        settings["graphics"]["color_map"] = str(ctx.rng.choice(["rainbow", "viridis", "plasma"]))
        settings["graphics"]["cl_alpha_dict"] = {"gauss": {"0.68": .3, "0.9": .1}, "ellipse": {"0.5": .45, "0.95": .25, "0.99": .1}} if it % 2 else \
            settings["graphics"]["cl_alpha_dict"]
        settings["graphics"]["dpi"] = 40
        cfg = ctx.scratch() / "results_config.json"
        cfg.write_text(json.dumps(dict(plot_settings=settings, fishers_addends_list=g,
                                       cosmologies=dict(([("Other", dict(present="true", pars=pars[::-1], pars_to_plot=pars[-2:]))] if it % 4 == 1 else [])
                                                        + [(c, dict(present="true", pars=pars, pars_to_plot="all" if whole else sub))]))))
        rf = None
        ranges = None
        if it % 2:
            ranges = {p: [s.fid[p] - float(ctx.rng.uniform(.5, 2)), s.fid[p] + float(ctx.rng.uniform(.5, 2))] for p in pars}
            rf = ctx.scratch() / "ranges.json"
            rf.write_text(json.dumps(ranges))
        rc = FisherResultsCollector(phys_pars=s.pars, analysis_name="fig", fishers_dir=s.dir, results_config_file=cfg, plot_ranges_file=rf)
        rc.setUp()
        pl, an = rc.plotters_dict[c], rc.analysis_dict[c]
        plotted = sorted(pars) if whole else sub
        ctx.case((c, tuple(plotted), tuple(map(tuple, g)), rf is not None), sample=dict(cosmology=c, parameters=plotted, matrices=g))
        ctx.same(list(pl.pars_to_plot), plotted, "plotted-parameters")
        want = s.expected(pars, g, True)
        if ranges is None:
            z = stats.norm.ppf(.995)
            ranges = {}
            for p in plotted:
                half = np.mean([z * _errors(m, pars)[0][p] for m in want.values()])
                ranges[p] = [s.fid[p] - half, s.fid[p] + half]
        for p in plotted:
            ctx.close(list(pl.plot_ranges[p]), ranges[p], "range", rtol=1e-5, parameter=p)
        if it % 2 or ctx.round % 2:
            an.fishers_order = [list(an.fishers_order)[q] for q in ctx.rng.permutation(len(an.fishers_order))]
            ctx.saw("ordered_figures")
        _, _ = pl.makeTriangularPlot()
        _check_figure(ctx, s, pl, an, want, plotted, ranges, settings, "")
        plt.close(pl.figure)
        # a chosen order draws those matrices, in the colours they have in the whole
        if it % 3 == 0:
            some = [list(an.fishers_order)[q] for q in ctx.rng.permutation(len(an.fishers_order))][:max(1, len(an.fishers_order) - 1)]
            ctx.saw("chosen_matrices")
            with ctx.op("chosen", some=some):
                pl.makeTriangularPlot(order=some)
                _check_figure(ctx, s, pl, an, want, plotted, ranges, settings, "chosen-", order=some)
            plt.close(pl.figure)
        mine = ctx.scratch() / "my_ranges.json"
        pl.writeParameterPlotRangesToFile(mine)
        first = json.loads(mine.read_text())
        for p in plotted:
            ctx.close(first[p], ranges[p], "written-range", rtol=1e-5, parameter=p)
        mine.write_text("{}")
        pl.writeParameterPlotRangesToFile(mine)
        ctx.same(mine.read_text(), "{}", "ranges-overwritten")
        pl.writeParameterPlotRangesToFile(mine, overwrite=True)
        ctx.same(json.loads(mine.read_text()), first, "ranges-not-overwritten")
        out = ctx.scratch() / "results"
        rc.writeResultsAndDoPlots(out)
        got = sorted(x.name for x in (out / c / "plots").iterdir())
        ctx.same(got, sorted(["contour_fig.pdf", "plot_ranges.json"] + [f"correlation_fig_{n}.pdf" for n in want]), "plot-files")
        for f in (out / c / "plots").glob("*.pdf"):
            b = f.read_bytes()
            ctx.check(b.startswith(b"%PDF") and b.rstrip().endswith(b"%%EOF"), "pdf", file=f.name)
        stored = json.loads((out / c / "plots" / "plot_ranges.json").read_text())
        for p in plotted:
            ctx.close(stored[p], ranges[p], "stored-range", rtol=1e-5)
        for n, m in want.items():
            plt.close("all")
            fig, ax = pl.makeSingleCorrelationPlot(n)
            inv = _errors(m, pars)[1].loc[sorted(pars), sorted(pars)]
            d = np.sqrt(np.diag(inv))
            mesh = ax.collections[0]
            ctx.close(np.asarray(mesh.get_array()).reshape(len(pars), len(pars)), (inv / np.outer(d, d)).to_numpy(), "correlation-figure", atol=1e-6, name=n)
            ctx.same(tuple(mesh.get_clim()), (-1.0, 1.0), "correlation-scale")
            tr = pl.translator
            ctx.same([t.get_text() for t in ax.get_xticklabels()], ["$%s$" % tr.phys_par_name_to_tex[p] for p in sorted(pars)], "correlation-labels")
            ctx.same([t.get_text() for t in ax.get_yticklabels()], ["$%s$" % tr.phys_par_name_to_tex[p] for p in sorted(pars)], "correlation-labels")
            fig.canvas.draw()
        plt.close("all")


SECTIONS = [configured, figures]
