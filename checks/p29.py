"""P29: names, tables and figures made of the results say what the results say."""
import datetime
import itertools
import json
import re
import types

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

from checks import p19
from seyfert.fisher.final_results_core import create_final_results
from seyfert.fisher.fisher_analysis import FisherAnalysis
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.notebook_helpers import barplots, contours, fom_gain_plots, load_helpers, misc as nmisc, table_helpers as th
from seyfert.plot_utils import cl_plot, misc as pmisc
from seyfert.utils import formatters as fm, table_utils
from seyfert.utils.encoders import NumpyJSONEncoder
from seyfert.utils.tex_utils import TeXTranslator

PROPERTY = "P29"
LEVEL = "exploration"
RULE = ("random result tables over data vectors, numbers of bins and options, and random analyses, spectra and names, go through the table, TeX and figure helpers; every "
        "cell, label, line and bar is recomputed from the table; distinct = rows x columns x selection")
ASSUMPTIONS = ["a result table has one row per data vector, number of bins and options"]
NEEDS = {"oracle.names": 100, "oracle.tables": 100, "oracle.latex": 40, "oracle.bars": 20, "oracle.grids": 20, "oracle.analyses": 10, "negative_gain": 1, "hybrid": 1}

NAMES = ["[WL]", "[GCph]", "[GCsp]", "[GCsp(Pk)]", "[GCph] + [GCsp]", "[GCph] + [GCsp(Pk)]", "[WL+GCph+XC(WL,GCph)]", "[WL+GCph+XC(WL,GCph)] + [GCsp(Pk)]",
         "[WL+GCph+GCsp+XC(WL,GCph)+XC(WL,GCsp)+XC(GCph,GCsp)]", "[WL] + [GCsp]", "[GCph+GCsp+XC(GCph,GCsp)]"]
SAID = ["XC", "[WL+XC]", "Cl", "[GCsp(Pk)] + XC", "XC_of", "[WL] only"]
PARS = ["Omm", "Omb", "h", "ns", "sigma8", "w0", "wa"]
OPTS = ["scenario", "shot_noise_sp_reduced", "gcph_minus_gcsp", "gcph_only_bins_in_spectro_range"]
TEX = {"w0": "w_0", "wa": "w_a", "mnu": r"M_\nu[\mathrm{eV}]", "Omm": r"\Omega_m", "OmDE": r"\Omega_{DE}", "Omb": r"\Omega_b", "sigma8": r"\sigma_8", "ns": "n_s", "h": "h",
       "gamma": r"\gamma", "aIA": r"\mathcal{A}_{\rm IA}", "etaIA": r"\eta_{\rm IA}", "betaIA": r"\beta_{\rm IA}", "FoM": r"\mathrm{FoM}"}
PROBE = {"WL": r"\mathrm{WL}", "GCph": r"\mathrm{GC_{ph}}", "GCsp": r"\mathrm{GC_{sp}}"}


def _tex_name(name):
    """the TeX form of the name of a data vector"""
    out = name.replace("Pk", "P_k")
    out = re.sub("WL|GCph|GCsp", lambda m: PROBE[m.group()], out)
    return out.replace("XC", r"\mathrm{XC}")


def _alias_name(name):
    out = name.replace("Pk", "P_k")
    out = re.sub(r"XC\((\w+),(\w+)\)", r"\\xc{\1}{\2}", out)
    return re.sub("WL|GCph|GCsp", lambda m: "\\" + m.group(), out)


def _table(rng, names=None, bins=(4, 12, 24), options=True):
    names = names or [NAMES[i] for i in rng.permutation(len(NAMES))[:int(rng.integers(4, 9))]]
    rows = []
    for n in names:
        for b in bins:
            for scen, red in itertools.product(("optimistic", "pessimistic"), (False, True)) if options else [("optimistic", False)]:
                r = dict(fisher=n, FoM=float(10 ** rng.uniform(0, 3)))
                r.update({p: float(10 ** rng.uniform(-3, 0)) for p in PARS})
                r["n_sp_bins"] = b
                r.update(scenario=scen, shot_noise_sp_reduced=red, gcph_minus_gcsp=False, gcph_only_bins_in_spectro_range=False)
                rows.append(r)
    rows = [rows[i] for i in rng.permutation(len(rows))]
    df = pd.DataFrame(rows)
    return df if options else df.drop(columns=OPTS)


class _AlignmentPars(dict):
    """parameters of which some belong to the alignments"""
    def __init__(self):
        super().__init__(aIA=1., etaIA=2., bgph1=3.)

    def getNuisanceParametersForProbe(self, probe):
        return {k: v for k, v in self.items() if k.endswith("IA")} if probe == "Lensing" else {}


def _key(r):
    return (r["fisher"], r["n_sp_bins"]) + tuple(r[o] for o in OPTS if o in r)


# ------------------------------------------------------------------------------------------------ names
def names(ctx):
    rng = ctx.rng
    t = TeXTranslator()
    seen = {}
    for p in TEX:
        ctx.same(t.CosmoParNameToTeX(p), TEX[p], "parameter", par=p)
        ctx.same(t.CosmoParTeXToName(TEX[p]), p, "parameter-back", par=p)
        ctx.same((t.PhysParNameToTeX(p), t.PhysParNameToTeX(p, include_dollar=True)), (TEX[p], f"${TEX[p]}$"), "physical", par=p)
        seen[TEX[p]] = p
    biases = [f"bg{k}{i}" for k in ("ph", "sp") for i in [0, 1, 9] + [int(v) for v in rng.integers(10, 60, size=6)]]
    for b in sorted(set(biases)):
        g = t.PhysParNameToTeX(b)
        kind, i = re.match("bg(ph|sp)(.*)", b).groups()
        ctx.same(g, r"b^{\mathrm{%s}}_{%s}" % (kind, i), "bias", par=b)
        ctx.check(seen.get(g, b) == b, "same-name-twice", par=b, other=seen.get(g))
        seen[g] = b
    ctx.same(t.PhysParsNamesToTeX(biases, include_dollar=True), [f"${t.PhysParNameToTeX(b)}$" for b in biases], "list")
    ctx.same(t.PhysParsNamesToTeX(set(biases)), {t.PhysParNameToTeX(b) for b in biases}, "set")
    for bad in ("omega", "xbgph1", "", "bgwl1"):
        ctx.raises(lambda: t.PhysParNameToTeX(bad), "unknown-parameter", KeyError, par=bad)
    for c, tex in (("LCDM", r"\Lambda\mathrm{CDM}"), ("w0_wa_CDM", r"w_0w_a\mathrm{CDM}"), ("mnu_LCDM", r"\nu\Lambda\mathrm{CDM}"), ("mnu_w0_wa_CDM", r"\nu w_0w_a\mathrm{CDM}"),
                   ("mnuLCDM", r"\nu\Lambda\mathrm{CDM}"), ("w0waCDM", r"w_0w_a\mathrm{CDM}"), ("mnuw0waCDM", r"\nu w_0w_a\mathrm{CDM}")):
        ctx.same(t.CosmologyNameToTeX(c), tex, "cosmology")
        ctx.same(t.CosmologyNameToTeX(t.CosmologyTeXToName(tex)), tex, "cosmology-back")
    probes = ["WL", "GCph", "GCsp", "XC", "V", "Lensing", "PhotometricGalaxy", "SpectroscopicGalaxy", "Void"]
    one = dict(WL=PROBE["WL"], GCph=PROBE["GCph"], GCsp=PROBE["GCsp"], XC=r"\mathrm{XC}", V=r"\mathrm{V}", Lensing=PROBE["WL"], PhotometricGalaxy=PROBE["GCph"],
               SpectroscopicGalaxy=PROBE["GCsp"], Void=r"\mathrm{V}")
    for it in range(ctx.n(25, 200)):
        some = [probes[i] for i in rng.permutation(len(probes))[:int(rng.integers(1, 5))]]
        sep = ["+", " + "][int(rng.integers(2))]
        tex = t.ProbeNameToTeX(sep.join(some))
        ctx.same(tex, "+".join(one[p] for p in some), "probes", probes=some)
        with ctx.op("probes-back", probes=some):
            ctx.same(t.ProbeNameToTeX(t.ProbeTeXToName(tex)), tex, "probes-back", probes=some)
        n = NAMES[int(rng.integers(len(NAMES)))]
        ctx.same(t.toTeX(n), _tex_name(n), "data-vector", name=n)
        ctx.same(t.toTeX(n, use_aliases=True), _alias_name(n), "data-vector-alias", name=n)
        ctx.same(FisherMatrix(name=n).tex_name, _tex_name(n), "matrix-name", name=n)
        w = SAID[int(rng.integers(len(SAID)))]
        ctx.same(t.toTeX(w), _tex_name(w).replace("Cl", r"C_{\ell}"), "words", text=w)
        # durations and dates
        dt = float(10 ** rng.uniform(-4, 6)) if rng.random() < .8 else float(rng.integers(0, 10 ** 5))
        h, m, s, ms = fm.time_format(dt)
        ctx.check(0 <= m < 60 and 0 <= s < 60 and 0 <= ms <= 1000 and h >= 0, "duration-range", dt=dt)
        ctx.close(3600 * h + 60 * m + s + ms / 1000, dt, "duration", rtol=1e-12, atol=2e-6, dt=dt)
        txt = fm.string_time_format(dt)
        v = [float(x) for x in re.match(r"(\S+)h (\S+)m (\S+)s (\S+)ms$", txt).groups()]
        ctx.close(3600 * v[0] + 60 * v[1] + v[2] + v[3] / 1000, dt, "duration-text", rtol=1e-12, atol=2e-6, dt=dt)
        d = datetime.datetime(int(rng.integers(1980, 2090)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), *[int(x) for x in rng.integers(0, [24, 60, 60])])
        hs = ["-", ":", ""][int(rng.integers(3))]
        ctx.same(fm.date_from_str(fm.datetime_str_format(d, hour_sep=hs), hour_sep=hs), d, "date", date=str(d))
        e = d + datetime.timedelta(seconds=int(rng.integers(1, 10 ** 7)))
        ctx.check(fm.datetime_str_format(d) < fm.datetime_str_format(e), "dates-sort", dates=(str(d), str(e)))
        a = rng.normal(size=tuple(rng.integers(1, 4, size=int(rng.integers(1, 4)))))
        ctx.same(np.array(json.loads(json.dumps(dict(a=a), cls=NumpyJSONEncoder))["a"]), a, "array-text")
        ctx.case((it, ctx.round, tuple(some), n), dict(probes=some, name=n))
    for v in ("true", "True", "TRUE", "false", "False"):
        ctx.same(fm.str_to_bool(v), v.lower() == "true", "boolean")
    for v in ("yes", "1", "", "truefalse"):
        ctx.raises(lambda: fm.str_to_bool(v), "not-a-boolean", ValueError)


# ------------------------------------------------------------------------------------------------ tables
def tables(ctx):
    rng = ctx.rng
    for it in range(ctx.n(5, 40)):
        base = ctx.scratch("tab")
        df = _table(rng)
        fishers = list(dict.fromkeys(df["fisher"]))
        orig = {_key(r): r for r in df.to_dict("records")}
        where = dict(fishers=fishers, rows=len(df))
        ctx.case((it, ctx.round, tuple(fishers)), where)
        with ctx.op("tables", **where):
            f = base / "errors.xlsx"
            table_utils.write_dataframe_table(df, f, index=False)
            kept = f.read_bytes()
            table_utils.write_dataframe_table(df * 2 if False else df.iloc[:1], f, index=False)
            ctx.same(f.read_bytes(), kept, "overwritten", where=where)
            empty = base / "empty.csv"
            empty.write_text("")
            table_utils.write_dataframe_table(df, empty, index=False)
            ctx.same(empty.read_bytes(), b"", "empty-overwritten", where=where)
            table_utils.write_dataframe_table(df, f, overwrite=True, index=False)
            g = base / "errors.csv"
            table_utils.write_dataframe_table(df, str(g), index=False)
            ctx.close(pd.read_csv(g)[PARS].to_numpy(), df[PARS].to_numpy(), "csv", rtol=1e-12, where=where)
            ctx.raises(lambda: table_utils.write_dataframe_table(df, base / "errors.odd"), "format")
            # hybrid data vectors take the values they have with four bins
            res = th.load_and_setup_table(f)
            ctx.same(set(res.columns), set(df.columns), "columns", where=where)
            got = {_key(r): r for r in res.to_dict("records")}
            ctx.same(set(got), set(orig), "rows", where=where)
            for k, r in got.items():
                src = orig[(k[0], 4) + k[2:]] if "GCsp(Pk)" in k[0] else orig[k]
                if "GCsp(Pk)" in k[0] and k[1] != 4:
                    ctx.saw("hybrid")
                ctx.close([r[p] for p in PARS + ["FoM"]], [src[p] for p in PARS + ["FoM"]], "cell", rtol=1e-12, where=where, row=k)
            # selection
            q = th.query_dict(scenario=["optimistic", "pessimistic"][int(rng.integers(2))], shot_noise_sp_reduced=bool(rng.random() < .5), other=3)
            ctx.same(set(q), set(OPTS), "query", where=where)
            q2 = th.query_dict(exclude=["scenario", "nothing"])
            ctx.same(q2, {k: v for k, v in th.default_query_dict().items() if k != "scenario"}, "query-exclude", where=where)
            if rng.random() < .5:
                q["n_sp_bins"] = 12
            for drop, rem in itertools.product((False, True), (False, True)):
                sel = th.select_from_query_dict(res, q, drop_index=drop, remove_constant_columns=rem)
                want = res[np.logical_and.reduce([res[k] == v for k, v in q.items()])]
                cols = [c for c in want.columns if not rem or want[c].nunique() > 1]
                ctx.same(list(sel.columns), cols, "selected-columns", where=where, query=q)
                ctx.same(sel.to_numpy().tolist(), want[cols].to_numpy().tolist(), "selected-rows", where=where, query=q)
                ctx.same(list(sel.index), list(range(len(want))) if drop else list(want.index), "selected-index", where=where)
            n, b = fishers[int(rng.integers(len(fishers)))], [4, 12, 24][int(rng.integers(3))]
            for few in (dict(fisher=n), dict(fisher=n, n_sp_bins=b, scenario="optimistic"), dict(q, fisher=n, n_sp_bins=b), dict(fisher=n, n_sp_bins=b, shot_noise_sp_reduced=True)):
                for rem in (False, True):
                    sel = th.select_from_query_dict(res, few, remove_constant_columns=rem)
                    want = res[np.logical_and.reduce([res[k] == v for k, v in few.items()])]
                    cols = [c for c in want.columns if not rem or len(want) == 1 or want[c].nunique() > 1]
                    ctx.same((list(sel.columns), sel.to_numpy().tolist()), (cols, want[cols].to_numpy().tolist()), "selected-few", where=where, query=few, rows=len(want))
            ctx.raises(lambda: th.select_from_query_dict(res, {"bins": 4}), "unknown-query", KeyError)
            sel = th.select_from_query_dict(res, dict(th.default_query_dict(), scenario=q["scenario"]), drop_index=True)
            num = th.drop_not_numeric_columns(sel)
            ctx.same(set(num.columns), set(PARS) | {"FoM", "n_sp_bins"}, "numeric", where=where)
            # a subset in a given order
            order = [fishers[i] for i in rng.permutation(len(fishers))[:int(rng.integers(2, len(fishers) + 1))]]
            sub = th.get_subdf_for_fishers(sel, order, sort_by=["fisher", "n_sp_bins"])
            ctx.same(list(zip(sub["fisher"], sub["n_sp_bins"])), [(n, b) for n in order for b in (4, 12, 24)], "ordered", where=where, order=order)
            for r in sub.to_dict("records"):
                w = sel[(sel["fisher"] == r["fisher"]) & (sel["n_sp_bins"] == r["n_sp_bins"])].iloc[0]
                ctx.close([r[p] for p in PARS], [w[p] for p in PARS], "ordered-cells", rtol=1e-12, where=where)
            ctx.raises(lambda: th.get_subdf_for_fishers(sel, order + ["[V]"]), "unknown-fisher", KeyError)
            # differences
            idx = th.set_results_indices(sel, inplace=False)
            ctx.same((list(idx.index.names), "fisher" in sel.columns), (["fisher", "n_sp_bins"], True), "indices", where=where)
            val = {(r["fisher"], r["n_sp_bins"]): r for r in sel.to_dict("records")}
            ref = order[0]
            part = idx.loc[order]  # remembers the names that were left out
            for fn, rule, tag in ((th.compute_percentage_differences_table, lambda a, b: 100 * (a - b) / b, "percentage"), (th.compute_simple_differences_table, lambda a, b: a - b, "simple")):
                for minu in (None, order[1:]):
                    with ctx.op(f"{tag}-differences", **where):
                        d = fn(part, ref, minuend_fishers=minu)
                        ctx.same(set(d.index), {(n, b) for n in (minu or order) for b in (4, 12, 24)}, tag + "-rows", where=where)
                        for (n, b), row in d.iterrows():
                            for p in PARS + ["FoM"]:
                                ctx.close(row[p], rule(val[n, b][p], val[ref, b][p]), tag, rtol=1e-9, atol=1e-12, where=where, row=(n, b), par=p)
            one = sel[sel["n_sp_bins"] == 12].drop(columns="n_sp_bins").set_index("fisher")
            d = th.compute_percentage_differences_table(one, ref, minuend_fishers=order[1:])
            for n in order[1:]:
                ctx.close(d.loc[n, PARS].to_numpy(float), [100 * (val[n, 12][p] - val[ref, 12][p]) / val[ref, 12][p] for p in PARS], "one-level", rtol=1e-9, where=where)
            # gains with respect to several references
            dmap = {n: order[int(rng.integers(len(order)))] for n in order if rng.random() < .7}
            dmap[order[-1]] = ref
            fom = th.get_fom_table_for_fishers(sel, order, dmap)
            ctx.same(set(fom.index), {(n, b) for n in order for b in (4, 12, 24)}, "gain-rows", where=where)
            for (n, b), r in fom.iterrows():
                if n in dmap:
                    a, z = val[n, b]["FoM"], val[dmap[n], b]["FoM"]
                    ctx.close((r["Delta FoM"], r["Delta FoM (%)"]), (a - z, 100 * (a - z) / z), "gain", rtol=1e-9, atol=1e-12, where=where, row=(n, b))
                else:
                    ctx.check(np.isnan(r["Delta FoM"]) and np.isnan(r["Delta FoM (%)"]), "gain-without-reference", where=where, row=(n, b))
                ctx.close([r[p] for p in PARS], [val[n, b][p] for p in PARS], "gain-cells", rtol=1e-12, where=where)
            # spreadsheets
            out = base / "table.xlsx"
            th.write_excel_table(fom, out)
            kept = out.read_bytes()
            ctx.raises(lambda: th.write_excel_table(fom.iloc[:2], out), "spreadsheet-exists", FileExistsError)
            ctx.same(out.read_bytes(), kept, "spreadsheet-kept", where=where)
            back = pd.read_excel(out).set_index(["fisher", "n_sp_bins"])
            for (n, b), r in fom.iterrows():
                ctx.close(back.loc[(n, b), list(fom.columns)].to_numpy(float), r.to_numpy(float), "spreadsheet", rtol=1e-12, where=where)


# ------------------------------------------------------------------------------------------------ text of tables
def _cells(line):
    return [c.strip() for c in line.strip().removesuffix("\\\\").split("&")]


def _number(c):
    c = re.sub(r"\\(positive|negative)\{(.*)\}", r"\2", c).replace("\\%", "")
    return 0.0 if c == r"\text{--}" else float(c)


def latex(ctx):
    rng = ctx.rng
    for it in range(ctx.n(6, 50)):
        df = _table(rng, options=False)
        fishers = list(dict.fromkeys(df["fisher"]))
        val = {(r["fisher"], r["n_sp_bins"]): r for r in df.to_dict("records")}
        ref = fishers[0]
        where = dict(fishers=fishers)
        ctx.case((it, ctx.round, tuple(fishers)), where)
        with ctx.op("rows", **where):
            for (n, b), r in val.items():
                for with_bins in (True, False):
                    row = pd.Series(dict(([("nbins", b)] if with_bins else []) + [("fisher", n), ("FoM", r["FoM"])] + [(p, r[p]) for p in PARS]))
                    rf = None if rng.random() < .3 else (r["FoM"] if rng.random() < .1 else val[ref, b]["FoM"])
                    if rf == r["FoM"]:
                        ctx.saw("no_gain")
                    c = _cells(th.get_latex_row(row, ref_fom=rf))
                    want = ([str(b)] if with_bins else []) + [_tex_name(n), "%.2f" % r["FoM"]]
                    ctx.same(c[:len(want)], want, "row-head", where=where)
                    g = c[len(want)]
                    if rf is None:
                        ctx.same(g, "--", "row-no-gain", where=where)
                    else:
                        gain = 100 * (r["FoM"] - rf) / rf
                        if gain < 0:
                            ctx.saw("negative_gain")
                        ctx.check(re.fullmatch(r"[+-]\d+\.\d\d\\%", g) is not None and abs(float(g[:-2]) - gain) < .00501, "row-gain", where=where, text=g, gain=gain)
                    ctx.same(c[len(want) + 1:], ["%.4f" % r[p] for p in PARS], "row-errors", where=where, with_bins=with_bins)
        with ctx.op("table", **where):
            tab = df.set_index(["fisher", "n_sp_bins"]).sort_index()
            gain = {k: 100 * (r["FoM"] - val[ref, k[1]]["FoM"]) / val[ref, k[1]]["FoM"] for k, r in val.items()}
            tab.insert(1, "Delta FoM (%)", [gain[k] for k in tab.index])
            f = ctx.scratch("tex") / "t.tex"
            txt = th.write_latex_table(tab, filepath=f, caption="The caption", label="tab:x")
            ctx.same(f.read_text(), txt, "file", where=where)
            ctx.check(th.write_latex_table(tab, filepath=f, ret_text=False) is None, "no-text", where=where)
            ctx.check(r"\caption{The caption}" in txt and r"\label{tab:x}" in txt, "caption", where=where)
            body = [_cells(x) for x in txt.splitlines() if "&" in x]
            head = body[0]
            ctx.check(all(any(t in c for c in head) for t in (r"\FoM", r"\Omm", r"\Omb", r"\sige", r"\wz", r"\wa", r"\ns", r"\h")), "heading", where=where, head=head)
            cur, got = None, {}
            for c in body:
                if len(c) == 2 + len(tab.columns) and re.fullmatch(r"\d+", c[1]):
                    if c[0]:
                        cur = re.sub(r"^\\multirow\{\d+\}\{\*\}\{(.*)\}$", r"\1", c[0])
                    got[cur, int(c[1])] = c[2:]
            ctx.same(set(got), {(_alias_name(n), b) for n, b in val}, "table-rows", where=where)
            for (n, b), r in val.items():
                c = got[_alias_name(n), b]
                ctx.same([c[0]] + c[2:], ["%.2f" % r["FoM"]] + ["%.4f" % r[p] for p in tab.columns[2:]], "table-cells", where=where, row=(n, b))
                ctx.check(abs(_number(c[1]) - gain[n, b]) < .00501, "table-gain", where=where, row=(n, b), text=c[1], gain=gain[n, b])
                if gain[n, b] == 0:
                    ctx.same(c[1], r"\text{--}", "table-none", where=where, row=(n, b))
                if abs(gain[n, b]) > .01:
                    ctx.check(c[1].startswith(r"\positive{+" if gain[n, b] > 0 else r"\negative{-"), "table-sign", where=where, text=c[1], gain=gain[n, b])


# ------------------------------------------------------------------------------------------------ figures
def bars(ctx):
    rng = ctx.rng
    for it in range(ctx.n(2, 14)):
        df = _table(rng, bins=(4, 12, 24, 40), options=False)
        fishers = list(dict.fromkeys(df["fisher"]))
        order = [fishers[i] for i in rng.permutation(len(fishers))[:int(rng.integers(2, 5))]]
        kept = df.copy(deep=True)
        val = {(r["fisher"], r["n_sp_bins"]): r for r in df.to_dict("records")}
        where = dict(fishers=order)
        ctx.case((it, ctx.round, tuple(order)), where)

        def judge(ax, nb, legend, tag, usetex=True):
            cols = [c for c in df.columns if c not in ("fisher", "n_sp_bins")]
            ctx.same(len(ax.containers), len(order), tag + "-groups", where=where)
            best = max(val[n, nb]["FoM"] for n in order)
            for n, cont in zip(order, ax.containers):
                got = [p.get_width() for p in cont.patches]
                ctx.close(got, [val[n, nb][c] / (best if c == "FoM" else 1) for c in cols], tag + "-bars", rtol=1e-12, where=where, fisher=n, bins=nb)
            ctx.check(any(t.get_text().endswith(f"${nb}$") for t in ax.texts), tag + "-bins", where=where)
            if usetex:
                ctx.same([t.get_text() for t in ax.get_yticklabels()], [r"$\mathrm{FoM}/\mathrm{FoM_{max}}$" if c == "FoM" else f"${TEX[c]}$" for c in cols], tag + "-labels", where=where)
            if legend:
                ctx.same([t.get_text() for t in ax.get_legend().get_texts()], [f"${_tex_name(n)}$" for n in order], tag + "-legend", where=where)
            else:
                ctx.check(ax.get_legend() is None, tag + "-no-legend", where=where)
        with ctx.op("bars", **where):
            pl = barplots.ErrorBarPlotter(df)
            nb = [4, 12, 24, 40][int(rng.integers(4))]
            lab = bool(rng.random() < .7)
            ax = pl.doSingleErrorBarPlot(order, nb, do_legend=lab, usetex=False)
            judge(ax, nb, lab, "single", False)
            plt.close("all")
            fig, axs = pl.doPairErrorBarPlot(order, 12, 4)
            judge(axs[0], 12, True, "pair")
            judge(axs[1], 4, False, "pair")
            plt.close("all")
            fig, axs = pl.doGridErrorBarPlot(order)
            for ax, b in zip(axs, (4, 12, 24, 40)):
                judge(ax, b, b == 12, "grid", usetex=b in (4, 24))
            plt.close("all")
            ctx.check(df.equals(kept), "table-changed", where=where)
        # gains against the number of bins
        gb = [(4, 12, 24), (4, 9, 12, 24, 40), (4, 40), (4, 6, 8, 10, 12, 24)][int(rng.integers(4))]
        full = _table(rng, names=order, bins=gb)
        full = full[full["scenario"] == "optimistic"].drop(columns=["scenario", "gcph_minus_gcsp", "gcph_only_bins_in_spectro_range"])
        ind = full.set_index(["fisher", "shot_noise_sp_reduced", "n_sp_bins"]).sort_index()
        with ctx.op("gains", **where):
            d = th.compute_percentage_differences_table(ind, order[0], minuend_fishers=order[1:])
            fig, axs = fom_gain_plots.comparison_plot_fom_gain(d, order[0], order[1:], logscale=bool(rng.random() < .5))
            for k, red in enumerate((False, True)):
                ctx.same(len(axs[k].lines), len(order) - 1, "gain-lines", where=where)
                for n, line in zip(order[1:], axs[k].lines):
                    ctx.same(line.get_label(), f"${_tex_name(n)}$", "gain-label", where=where)
                    ctx.same(list(line.get_xdata()), list(gb), "gain-bins", where=where)
                    v = [ind.loc[(n, red, b), "FoM"] / ind.loc[(order[0], red, b), "FoM"] * 100 - 100 for b in gb]
                    ctx.close(line.get_ydata(), v, "gain-values", rtol=1e-9, atol=1e-9, where=where)
            ctx.check(_tex_name(order[0]) in fig._suptitle.get_text(), "gain-title", where=where)
            plt.close("all")
            n, red = order[-1], bool(rng.random() < .5)
            ax = plt.figure().gca()
            got, _ = fom_gain_plots.single_plot_fom_gain(d, n, red, ax, label="mine", add_ylabel=red, color="red")
            v = [ind.loc[(n, red, b), "FoM"] / ind.loc[(order[0], red, b), "FoM"] * 100 - 100 for b in gb]
            ctx.close(ax.lines[0].get_ydata(), v, "gain-alone", rtol=1e-9, atol=1e-9, where=where)
            ctx.close(got.loc[list(gb)].to_numpy(), v, "gain-alone", rtol=1e-9, atol=1e-9, where=where)
            ctx.same((ax.lines[0].get_label(), ax.get_ylabel() != "", list(ax.get_xticks())), ("mine", red, list(gb)), "gain-alone-label", where=where)
            plt.close("all")


def grids(ctx):
    rng = ctx.rng
    for it in range(ctx.n(3, 20)):
        nb, nl = int(rng.integers(1, 5)), int(rng.integers(2, 6))
        sets = int(rng.integers(1, 3))
        ells = [np.sort(rng.uniform(10, 1000, size=nl)) for _ in range(sets)]
        cls = [rng.uniform(.1, 2, size=(nl, nb, nb)) for _ in range(sets)]
        lo, lj = int(rng.integers(0, nb)), int(rng.integers(0, nb))
        hi, hj = int(rng.integers(lo, nb)), int(rng.integers(lj, nb))
        where = dict(bins=nb, rows=(lo, hi), columns=(lj, hj), sets=sets)
        ctx.case((it, ctx.round, nb, nl, lo), where)
        log = bool(rng.random() < .5)
        with ctx.op("spectra", **where):
            fig, axes = cl_plot.cl_plot(ells, cls, [f"s{k}" for k in range(sets)], i_min=lo, j_min=lj, i_max=hi, j_max=hj, logx=log, logy=log, figsize=(3, 3))
            ctx.same(np.shape(axes), (hi - lo + 1, hj - lj + 1), "panels", where=where)
            for a, b in itertools.product(*map(range, np.shape(axes))):
                ax = axes[a, b]
                ctx.same((ax.get_xlabel(), ax.get_ylabel()), (str(b + lj) if a + lo == hi else "", str(a + lo) if b == 0 else ""), "panel-names", where=where, panel=(a, b))
                if a + lo >= b + lj:
                    ctx.same(len(ax.lines), sets, "curves", where=where)
                    for k, line in enumerate(ax.lines):
                        ctx.same((line.get_xdata(), line.get_ydata(), line.get_label()), (ells[k], cls[k][:, a + lo, b + lj], f"s{k}"), "curve", where=where, panel=(a, b))
                    ctx.same((ax.get_xscale(), ax.get_yscale()), ("log",) * 2 if log else ("linear",) * 2, "scale", where=where)
                else:
                    ctx.check(not ax.axison and not ax.lines, "hidden", where=where)
            plt.close("all")
        with ctx.op("grid", **where):
            ni, nj = int(rng.integers(1, 5)), int(rng.integers(1, 5))
            tri = ni == nj and bool(rng.random() < .6)
            y = rng.uniform(.1, 2, size=(ni, nj, nl))
            fig, axes = cl_plot.grid_plot(ells[0], y, label="a", triangular=tri, figsize=(3, 3), xlabel="x")
            cl_plot.grid_plot(ells[0], y * 2, label="b", triangular=tri, axes=axes)
            ctx.same(np.shape(axes), (ni, nj), "grid-panels", where=where)
            for a, b in itertools.product(range(ni), range(nj)):
                said = sorted({t.get_text() for t in axes[a, b].texts})
                ctx.same(said, sorted(([f"i = {a}"] if b == 0 else []) + ([f"j = {b}"] if (a == b if tri else a == 0) else [])), "grid-indices", where=where, panel=(a, b), triangular=tri)
                if tri and a < b:
                    ctx.check(not axes[a, b].axison and not axes[a, b].lines, "grid-hidden", where=where)
                else:
                    ctx.same([(l.get_xdata(), l.get_ydata()) for l in axes[a, b].lines], [(ells[0], y[a, b]), (ells[0], 2 * y[a, b])], "grid-curve", where=where, panel=(a, b))
            plt.close("all")
            if ni != nj:
                ctx.raises(lambda: cl_plot.grid_plot(ells[0], y, triangular=True), "not-square")
                plt.close("all")
        # weights of the three probes, with and without intrinsic alignments
        with ctx.op("weights", **where):
            z = np.sort(rng.uniform(.01, 2.5, size=6))
            nbs = {p: int(rng.integers(1, 5)) for p in ("PhotometricGalaxy", "SpectroscopicGalaxy", "Lensing")}
            wts = {p: types.SimpleNamespace(z_grid=z, n_bins=n, w_bin_z=rng.normal(size=(n, 6))) for p, n in nbs.items()}
            ia, asked = rng.normal(size=(nbs["Lensing"], 6)), {}
            wts["Lensing"].computeIntrinsicAlignmentContribution = lambda: (asked.update(vars(wts["Lensing"])), ia)[1]
            cosmo, pars = object(), _AlignmentPars()
            fig, axs = cl_plot.plot_weight_funcs(types.SimpleNamespace(weight_dict=wts), cosmo, pars)
            ctx.same((set(asked["nuisance_params"]), asked["cosmology"] is cosmo), ({"aIA", "etaIA"}, True), "weights-alignment", where=where)
            for ax, p in zip(axs, nbs):
                w = wts[p].w_bin_z
                solid, dashed = [[l for l in ax.lines if l.get_linestyle() == s] for s in ("-", "--")]
                ctx.same([(l.get_xdata(), l.get_ydata(), l.get_label()) for l in solid], [(z, w[i], f"${i + 1}$") for i in range(nbs[p])], "weights", where=where, probe=p)
                # the weight of the lensing has the alignments taken away already
                ctx.same([l.get_ydata() for l in dashed], list(w + ia) if p == "Lensing" else [], "weights-without-alignment", where=where, probe=p)
                for a, b in zip(dashed, solid):
                    ctx.same(a.get_color(), b.get_color(), "weights-colour", where=where)
                short = [k for k, v in (("GCph", "PhotometricGalaxy"), ("GCsp", "SpectroscopicGalaxy"), ("WL", "Lensing")) if v == p][0]
                ctx.check(any(t.get_text() == f"${PROBE[short]}$" for t in ax.texts), "weights-name", where=where, probe=p)
            said = {t.get_text(): l.get_linestyle() for leg in axs[2].get_children() if isinstance(leg, matplotlib.legend.Legend) for t, l in zip(leg.get_texts(), leg.get_lines())}
            ctx.same({k: v for k, v in said.items() if "IA" in k}, {"IA included": "-", "IA not included": "--"}, "weights-legend", where=where)
            plt.close("all")
        # differences between codes
        codes = ["A", "B", "C"][:int(rng.integers(2, 4))]
        pars = [PARS[i] for i in rng.permutation(len(PARS))[:int(rng.integers(2, 7))]]
        d = {k: pd.DataFrame(rng.normal(size=(len(codes), len(pars))), index=codes, columns=pars) for k in ("marg", "unmarg")}
        both = bool(rng.random() < .6)
        with ctx.op("codes", **where):
            fig, ax = pmisc.plot_errs_deltas(pd.concat(d) if both else d["marg"], title="T", scenario="optimistic")
            pts = np.concatenate([np.ma.filled(c.get_offsets(), np.nan) for c in ax.collections if type(c).__name__ == "PathCollection" and len(c.get_offsets())])
            want = sorted((float(k), round(float(d["marg"].loc[c, p]), 9)) for c in codes for k, p in enumerate(pars))
            ctx.same(sorted((float(x), round(float(v), 9)) for x, v in pts), want, "points", where=where)
            ctx.same([t.get_text() for t in ax.get_xticklabels()], [f"${TEX[p]}$" for p in pars], "point-labels", where=where)
            bands = [c for c in ax.collections if type(c).__name__ == "PolyCollection"]
            ctx.same(len(bands), 2 if both else 0, "bands", where=where)
            for band, k in zip(bands, ("marg", "unmarg")):
                v = band.get_paths()[0].vertices
                for x, p in enumerate(pars):
                    ys = v[np.isclose(v[:, 0], x)][:, 1]
                    ctx.close((ys.min(), ys.max()), (d[k][p].min(), d[k][p].max()), "band", rtol=1e-9, where=where, kind=k)
            plt.close("all")
        s = pd.Series(rng.normal(size=len(pars)), index=pars)
        for kind in ("scatter", "line"):
            ax = pmisc.plot_series(s, usetex=True, kind=kind, ax=plt.figure().gca())
            got = np.asarray(ax.collections[0].get_offsets())[:, 1] if kind == "scatter" else ax.lines[0].get_ydata()
            ctx.close(got, s.to_numpy(), "series", rtol=1e-12, where=where)
            ctx.same([t.get_text() for t in ax.get_xticklabels()], [f"${TEX[p]}$" for p in pars], "series-labels", where=where)
        # matrices, with parameters that have no TeX name
        labs = [["w0", "bgph1", "bgph11", "lnbgs8_1", "Ps_1", "aIA", "mine"][i] for i in rng.permutation(7)[:int(rng.integers(2, 7))]]
        with ctx.op("matrix", **where):
            m = pd.DataFrame(rng.uniform(.1, 1, size=(len(labs),) * 2), index=labs, columns=labs)
            ax = pmisc.heatmap(m, usetex=True, title="T", logscale=bool(rng.random() < .5), ax=plt.figure().gca())
            want = [f"${TEX[p]}$" if p in TEX else "$b^{\\mathrm{ph}}_{%s}$" % p[4:] if p.startswith("bgph") else p for p in labs]
            for tl in (ax.get_xticklabels(), ax.get_yticklabels()):
                ctx.same([t.get_text() for t in tl], want, "matrix-labels", where=where, labels=labs)
            ctx.close(np.ma.filled(ax.collections[0].get_array(), np.nan).reshape(m.shape), m.to_numpy(), "matrix-drawn", rtol=1e-12, where=where)
            ctx.check((ax.yaxis_inverted(), ax.get_title()) == (False, "T"), "matrix-axes", where=where)
            r = int(rng.integers(1, len(labs)))
            part = m.iloc[:r, ::-1]
            ax = pmisc.heatmap(part, usetex=True, ax=plt.figure().gca(), invert_yaxis=False)
            ctx.same([[t.get_text() for t in tl] for tl in (ax.get_xticklabels(), ax.get_yticklabels())], [want[::-1], want[:r]], "part-labels", where=where, labels=labs)
            ctx.close(np.ma.filled(ax.collections[0].get_array(), np.nan).reshape(part.shape), part.to_numpy(), "part-drawn", rtol=1e-12, where=where)
            ctx.check(ax.yaxis_inverted(), "part-axes", where=where)
            scen, bins = str(rng.choice(["optimistic", "pessimistic"])), [None, 4, 12][int(rng.integers(3))]
            fig = plt.figure()
            for obj in (fig, fig.gca()):
                pmisc.add_scenario_n_bins_text_box(obj, .25, .5, scen, bins)
                t = obj.texts[-1]
                ctx.check(scen in t.get_text() and (f"${bins}$" in t.get_text()) == (bins is not None) and tuple(t.get_position()) == (.25, .5), "text-box", where=where, text=t.get_text())
        ctx.raises(lambda: pmisc.plot_series(s, kind="bars"), "series-kind", ValueError)
        plt.close("all")


# ------------------------------------------------------------------------------------------------ analyses of several runs
def analyses(ctx):
    rng = ctx.rng
    for it in range(ctx.n(1, 6)):
        base = ctx.scratch("runs")
        cosmo = {"Omm", "Omb", "h", "ns", "sigma8", "w0", "wa"}
        dvs = ["[WL]", "[GCph]", "[GCsp]", "[GCsp(Pk)]", "[GCph+GCsp+XC(GCph,GCsp)]"]
        runs, fid = {}, None
        prefix = ["optm", "pess"][int(rng.integers(2))]
        sub = (it + ctx.round) % 4 > 1
        NB = (4, 12) if it % 2 else (4, 12, 24, 40)
        more = ["_1.3.8_2025-01-01T00-00-00", "_final", ""][(it + ctx.round) % 3]
        for nb in NB:
            for tail in ("", "gcph_minus_gcsp"):
                if nb not in (4, 12) and bool(tail) != sub:
                    continue
                r = runs[nb, tail] = p19.Run(ctx, base / f"{prefix}_{nb}_sp_bins_{tail or 'plain'}{more}", cosmo, extra_opts=dict(scenario="optimistic", n_sp_bins=nb), datavectors=dvs, fid=fid)
                fid = r.fid
                create_final_results(r.dir, "final_results")
        (base / "other").mkdir()
        (base / f"{prefix}_4_sp_bins_file").write_text("")
        tail = "gcph_minus_gcsp" if sub else ""
        where = dict(sub=sub, prefix=prefix)
        ctx.case((it, ctx.round, sub, prefix), where)
        with ctx.op("analyses", **where):
            ws = load_helpers.load_workspaces_for_scenario(prefix, gcph_sub_flag=sub, base_dir=base)
            ctx.same({k: w.run_dir.name for k, w in ws.items()}, {nb: runs[nb, tail].dir.name for nb in NB}, "runs", where=where)
            ans = load_helpers.load_fisher_analyses_for_scenario(prefix, gcph_sub_flag=sub, base_dir=base, cosmology="w0_wa_CDM", res_subdir_name="marg_before")
            want = {nb: runs[nb, tail].expected("w0_wa_CDM", "marg_before")[1] for nb in NB}
            some = ["[GCsp(Pk)]", "[GCph] + [GCsp]", "[GCph+GCsp+XC(GCph,GCsp)]"]
            some = [s for s in some if s in want[4]]

            def errors(ans, names, src, tag):
                for nb in NB:
                    for n in names:
                        m = want[src(nb, n)][n]
                        e = pd.Series(np.sqrt(np.diag(np.linalg.inv(m))), index=m.index)
                        ctx.close(ans[nb].marginalized_errors.loc[n, e.index].to_numpy(float), e.to_numpy(), tag, rtol=1e-4, where=where, name=n, bins=nb)
                        rel = [e[p] / (abs(fid[p]) or 1) for p in e.index]
                        ctx.close(ans[nb].relative_marginalized_errors.loc[n, e.index].to_numpy(float), rel, tag + "-relative", rtol=1e-4, where=where, name=n, bins=nb)
            with ctx.op("subset", **where):
                part = nmisc.get_subset_analyses_for_fishers(ans, some)
                for nb in NB:
                    ctx.same((set(part[nb].fisher_matrices), part[nb].fishers_order), (set(some), some), "subset-names", where=where)
                    ctx.check(set(ans[nb].fisher_matrices) >= set(want[nb]), "subset-left", where=where)
                errors(part, some, lambda nb, n: nb, "subset-errors")
            load_helpers.invert_fishers_in_all_analyses(ans)
            errors(ans, list(want[4]), lambda nb, n: nb, "errors")
            load_helpers.replace_hybrid_fishers_with_4_bins_equivalents(ans)
            load_helpers.invert_fishers_in_all_analyses(ans)
            errors(ans, list(want[4]), lambda nb, n: 4 if "GCsp(Pk)" in n else nb, "hybrid-errors")
        # every matrix with the galaxy power spectrum in it, wherever in its name
        names = ["[WL]", "[GCsp(Pk)]", "[WL] + [GCsp(Pk)]", "[GCsp(Pk)] + [WL]", "[GCph] + [GCsp(Pk)] - [WL]", "[GCsp]", "[GCph]"]
        names = [names[k] for k in rng.permutation(len(names))]
        alone = {int(nb): types.SimpleNamespace(fisher_matrices={n: (int(nb), n) for n in names}) for nb in rng.permutation([4, 12, 40])}
        load_helpers.replace_hybrid_fishers_with_4_bins_equivalents(alone)
        for nb, a in alone.items():
            ctx.same(a.fisher_matrices, {n: (4 if "(Pk)" in n else nb, n) for n in names}, "hybrid-matrices", bins=nb)
        # figures with a given style
        with ctx.op("contours", **where):
            an = ans[4].getSubsetAnalysis(some)
            pars = [PARS[i] for i in rng.permutation(len(PARS))[:3]]
            pl = contours.build_plotter(an, pars, config_dict={"color_map": "viridis"} if False else {"usetex": False}, params_ticks_fmts={pars[0]: "%.7f"})
            ctx.same((pl.pars_to_plot, pl.params_ticks_fmts[pars[0]]), (pars, "%.7f"), "plotter", where=where)
            ctx.same(set(pl.plot_ranges), set(pars), "plotter-ranges", where=where)


SECTIONS = [names, tables, latex, bars, grids, analyses]
