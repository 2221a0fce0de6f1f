"""P21: configurations say what their files say."""
import argparse
import copy
import itertools
import json
from pathlib import Path

import numpy as np

from seyfert.config import cmd_line, main_config
from seyfert.config.forecast_config import ForecastConfig, ForecastConfigEditor
from seyfert.file_io.json_io import JSONForecastConfig
from seyfert.main import orchestration
from seyfert.utils import filesystem_utils as fsu
from vlib import world
from vlib.world import LONG

PROPERTY = "P21"
LEVEL = "exploration"
RULE = ("random surveys (probes in random order, own or external multipoles, files in any of the three searched places with decoys in the others, nuisance "
        "parameters from bias files and from the configuration) are loaded and every attribute is compared with an independent reading of the same files; "
        "single fields are changed to see equality follow; distinct = survey x probe set x field")
ASSUMPTIONS = ["nuisance parameters of different probes have different names"]
NEEDS = {"oracle.surveys": 547, "oracle.equality": 25, "oracle.editor": 300, "oracle.main_configs": 60, "oracle.command_line": 60, "files.alias": 5, "files.long": 5, "files.root": 5, "files.missing": 5, "ells.external": 3, "ells.own": 13, "shared": 4, "nuis.free": 5, "nuis.fixed": 5, "failed_writes": 2}


def _survey(ctx, **kw):
    rng = ctx.rng
    probes = [p for p in LONG if rng.random() < .7] or ["GCph"]
    s = world.Survey(ctx.scratch("sv"), probes=probes, n_bins={p: int(rng.integers(1, 5)) for p in LONG}, n_ell=int(rng.integers(2, 9)),
                     bases=tuple(sorted(rng.uniform(.001, .2, size=int(rng.integers(1, 8))))), f_sky=float(rng.uniform(.05, 1)),
                     marginalize=bool(rng.integers(2)), reduced=bool(rng.integers(2)), include_IA=bool(rng.integers(2)),
                     free=[n for n in world.COSMO if rng.random() < .5], free_ia=bool(rng.integers(2)))
    s.cfg["cosmology"]["flat"] = bool(rng.integers(2))
    for d in s.cfg["cosmology"]["parameters"]:
        d["fiducial"] = float(rng.normal()) if rng.random() < .8 else 0.0
        d["current_value"] = d["fiducial"] if rng.random() < .7 else float(rng.normal())
        d["stem_factor"] = float(rng.uniform(.5, 9))
        if rng.random() < .3:
            d["units"], d["description"] = "eV", "a parameter"
        if rng.random() < .3:
            d["derivative_method"] = "FiniteDifference"
    order = [list(LONG)[k] for k in rng.permutation(4)]
    s.cfg["probes"] = {p: s.cfg["probes"][p] for p in order}
    for p, d in s.cfg["probes"].items():
        d["l_min"], d["l_max"] = int(rng.integers(2, 50)), int(rng.integers(60, 3000))
        d["ell_log_selection"] = bool(rng.random() < .7)
        if p != "WL":
            d["marginalize_bias_flag"] = bool(rng.integers(2))
            d["bias_derivative_method"] = str(rng.choice(["SteM", "FiniteDifference"]))
            if rng.random() < .3:
                d["extra_nuisance_parameters"] = [dict(name=f"extra{p}{k}", fiducial=float(rng.normal()), kind="NuisanceParameter", probe=LONG[p],
                                                       is_free_parameter=bool(rng.integers(2))) for k in range(int(rng.integers(1, 3)))]
        d["specific_settings"] = {"a_setting": int(rng.integers(100))} if rng.random() < .5 else d["specific_settings"]
        if rng.random() < .3:
            n = int(rng.integers(1, 9))
            ell = np.sort(rng.uniform(5, 900, size=n))
            np.savetxt(s.data / f"ells_{p}.txt", np.column_stack([ell, rng.uniform(1, 5, size=n)]))
            d["ell_external_filename"] = f"ells_{p}.txt"
        # the same file name in several of the searched places: the first one counts
        for key in ("density_file", "bias_file"):
            if key not in d:
                continue
            src = s.data / d[key]
            blob = src.read_bytes()
            places = [("alias", s.data / p), ("long", s.data / LONG[p]), ("root", s.data)]
            have = [t for t in places if rng.random() < .5] or [places[int(rng.integers(3))]]
            src.unlink()
            for _, directory in have:
                directory.mkdir(exist_ok=True)
                (directory / d[key]).write_bytes(blob)
            if p in s.probes:
                ctx.saw("files." + have[0][0])
    if rng.random() < .3:
        (s.data / "shot_noise").mkdir()
        (s.data / "shot_noise" / "sn.h5").write_bytes(b"")
        s.cfg["survey"]["shot_noise_file"] = "sn.h5"
    s.write()
    return s


def _first(s, p, name):
    for d in (s.data / p, s.data / LONG[p], s.data):
        if (d / name).is_file():
            return d / name
    return None


def _bias_nuis(path):
    import h5py
    with h5py.File(path, "r") as hf:
        return {k: float(v[()]) for k, v in hf["bias_model/nuisance_parameters"].items()}


def _ells(s, d):
    if d.get("ell_external_filename"):
        rows = [[float(x) for x in line.split()] for line in (s.data / d["ell_external_filename"]).read_text().splitlines()]
        return np.array([r[0] for r in rows]), np.array([r[1] for r in rows])
    if d["ell_log_selection"]:
        e = d["l_min"] * (d["l_max"] / d["l_min"]) ** (np.arange(d["log_l_number"] + 1) / d["log_l_number"])
    else:
        e = np.arange(d["l_min"], d["l_max"] + 1, dtype=float)
    return (e[1:] + e[:-1]) / 2, e[1:] - e[:-1]


def _want_params(s):
    out = {}
    for d in s.cfg["cosmology"]["parameters"]:
        out[d["name"]] = dict(units="None", description="", probe=None, current_value=d["fiducial"], **{}) | d
    for p, d in s.cfg["probes"].items():
        if not d["presence_flag"]:
            continue
        if p != "WL":
            for k, v in _bias_nuis(_first(s, p, d["bias_file"])).items():
                out[k] = dict(name=k, fiducial=v, current_value=v, kind="NuisanceParameter", probe=LONG[p], stem_factor=1.0,
                              is_free_parameter=d["marginalize_bias_flag"], derivative_method=d["bias_derivative_method"], units="None", description="")
        for e in d.get("extra_nuisance_parameters", []):
            out[e["name"]] = dict(units="None", description="", current_value=e["fiducial"], stem_factor=1.0, derivative_method="SteM") | e
    return out


def surveys(ctx):
    for it in range(ctx.n(12, 80)):
        s = _survey(ctx)
        before = json.loads(json.dumps(s.cfg))
        two_steps = it % 2
        fc = s.forecast_config(load=not two_steps)
        if two_steps:
            fc.loadPhysicalParametersFromJSONConfig()
        ctx.case((it, ctx.round, tuple(s.cfg["probes"]), s.probes), {"probes": s.probes})
        present = [LONG[p] for p, d in s.cfg["probes"].items() if d["presence_flag"]]
        ctx.same(list(fc.present_probes), present, "present-probes")
        ctx.same([tuple(c) for c in fc.probes_combinations], list(itertools.combinations_with_replacement(present, 2)), "combinations")
        ctx.same(fc.survey_f_sky, s.cfg["survey"]["f_sky"], "f-sky")
        ctx.same(fc.is_universe_flat, s.cfg["cosmology"]["flat"], "flat")
        ctx.same(fc.scenario, "optimistic", "scenario")
        ctx.same(fc.n_sp_bins, s.n_bins["GCsp"], "n-sp-bins")
        ctx.same(fc.shot_noise_sp_reduced, s.cfg["synthetic_opts"]["shot_noise_sp_reduced"], "reduced")
        sn = s.cfg["survey"]["shot_noise_file"]
        ctx.same(fc.shot_noise_file and Path(fc.shot_noise_file), sn and s.data / "shot_noise" / sn, "shot-noise-file")
        for p, d in s.cfg["probes"].items():
            if not d["presence_flag"]:
                ctx.check(LONG[p] not in fc.probe_configs, "absent-probe-loaded")
                continue
            pc = fc[LONG[p]]
            ctx.same(pc.long_name, LONG[p], "probe-name")
            ctx.same(pc.alias_name, p, "probe-alias")
            ell, w = _ells(s, d)
            ctx.saw("ells.external" if d["ell_external_filename"] else "ells.own")
            ctx.close(pc.l_bin_centers, ell, "multipoles", rtol=1e-11)
            ctx.close(pc.l_bin_widths, w, "multipole-widths", rtol=1e-8, atol=1e-9)
            ctx.same(Path(pc.density_init_file), _first(s, p, d["density_file"]), "density-file")
            ctx.same(pc.specific_settings, d["specific_settings"], "specific-settings")
            want_n = {k for k, v in _want_params(s).items() if v["probe"] == LONG[p]}
            ctx.same(set(pc.nuisance_parameters), want_n, "probe-nuisance-names")
            ctx.same(set(pc.present_nuisance_parameters), {k for k in want_n if _want_params(s)[k]["is_free_parameter"]}, "probe-free-nuisance")
            if p != "WL":
                ctx.same(Path(pc.bias_init_file), _first(s, p, d["bias_file"]), "bias-file")
                ctx.same(pc.marginalize_bias, d["marginalize_bias_flag"], "marginalize-flag")
                ctx.saw("nuis.free" if d["marginalize_bias_flag"] else "nuis.fixed")
        want = _want_params(s)
        ctx.same(set(fc.phys_pars.keys()), set(want), "parameter-names")
        for n, w in want.items():
            par = fc.phys_pars[n]
            got = {k: getattr(par, k) for k in w}
            ctx.same(got, w, "parameter", name=n)
        cosmo = {n: w for n, w in want.items() if w["kind"] == "CosmologicalParameter"}
        ctx.same(fc.cosmo_pars_fiducials, {n: w["fiducial"] for n, w in cosmo.items()}, "cosmological-fiducials")
        ctx.same(set(fc.present_cosmological_parameters), {n for n, w in cosmo.items() if w["is_free_parameter"]}, "free-cosmological")
        ctx.same(set(fc.nuisance_parameters), set(want) - set(cosmo), "nuisance-names")
        b = np.sort(s.cfg["derivative_settings"]["base_stem_disps"])
        ctx.close(fc.phys_pars.stem_disps, np.concatenate([-b[::-1], b]), "displacements", rtol=1e-15)
        ctx.same(fc.phys_pars.is_universe_flat, s.cfg["cosmology"]["flat"], "parameters-flat")
        # common multipoles
        for a, b2 in itertools.product(present, repeat=2):
            ea, eb = fc[a].l_bin_centers, fc[b2].l_bin_centers
            com = sorted(set(ea.tolist()) & set(eb.tolist()))
            if com:
                ell, w = fc.getMultipoleArraysForProbeComb(f"{a}_{b2}")
                ctx.same(list(ell), com, "common-multipoles")
                ctx.same(list(w), [fc[a].l_bin_widths[list(ea).index(x)] for x in com], "common-widths")
            else:
                ctx.raises(lambda: fc.getMultipoleArraysForProbeComb(f"{a}_{b2}"), "no-common-multipoles-accepted")
        bad = any(not set(fc[a].l_bin_centers) & set(fc[b2].l_bin_centers) for a, b2 in itertools.combinations(present, 2))
        if bad:
            ctx.raises(fc.checkProbesMultipoles, "incompatible-multipoles-accepted", exc=ValueError)
        else:
            with ctx.op("compatible-multipoles"):
                fc.checkProbesMultipoles()
        # reading a configuration changes none of its files, and writing it gives the same configuration
        ctx.same(json.loads(s.fcfg_file.read_text()), before, "configuration-file-changed")
        out = s.base / "again.json"
        fc.writeToJSON(out)
        again = json.loads(out.read_text())
        again.pop("metadata"), before.pop("metadata")
        ctx.same(again, before, "written-configuration")
        fc2 = ForecastConfig(input_file=out, input_data_dir=s.data, load_phys_params=True)
        ctx.check(fc == fc2 and fc2 == fc, "written-configuration-differs")
        # a missing input file is reported when the configuration is loaded
        p = s.probes[int(ctx.rng.integers(len(s.probes)))]
        d = s.cfg["probes"][p]
        key = "density_file" if p == "WL" or ctx.rng.random() < .5 else "bias_file"
        for directory in (s.data / p, s.data / LONG[p], s.data):
            if (directory / d[key]).is_file():
                (directory / d[key]).unlink()
        if ctx.rng.random() < .3:
            (s.data / p).mkdir(exist_ok=True)
            (s.data / p / d[key]).mkdir()
        ctx.saw("files.missing")
        ctx.raises(lambda: s.forecast_config(load=bool(it % 2)), "missing-input-file-accepted", exc=FileNotFoundError, probe=p, file=key)
    s = world.Survey(ctx.scratch("sn"), probes=("GCph",), shot_noise_file="none.h5")
    ctx.raises(s.forecast_config, "missing-shot-noise-accepted", exc=FileNotFoundError)
    (s.data / "shot_noise" / "none.h5").mkdir(parents=True)
    ctx.raises(s.forecast_config, "directory-as-shot-noise-accepted", exc=FileNotFoundError)
    # what a probe cannot do without
    for p in ("GCph", "GCsp", "V"):
        for key in ("bias_file", "log_l_number", "density_file", "l_min"):
            s = world.Survey(ctx.scratch("need"), probes=(p,))
            s.cfg["probes"][p].pop(key)
            if key == "log_l_number":
                s.cfg["probes"][p]["ell_log_selection"] = True
            s.write()
            ctx.case((p, key))
            ctx.raises(s.forecast_config, "missing-probe-setting-accepted", probe=p, setting=key)
    # two probes which share some of their multipoles, each with its own widths
    for it in range(ctx.n(4, 20)):
        s = world.Survey(ctx.scratch("w"), probes=("WL", "GCph"))
        ell = np.sort(ctx.rng.choice(np.arange(10, 60) + .5, size=12, replace=False))
        own = {p: np.sort(ctx.rng.choice(ell, size=int(ctx.rng.integers(7, 13)), replace=False)) for p in ("WL", "GCph")}
        wid = {p: dict(zip(own[p], ctx.rng.uniform(.5, 3, size=len(own[p])))) for p in own}
        for p in own:
            np.savetxt(s.data / f"e_{p}.txt", np.array([[e, wid[p][e]] for e in own[p]]))
            s.cfg["probes"][p]["ell_external_filename"] = f"e_{p}.txt"
        s.write()
        fc = s.forecast_config()
        ctx.case((it, ctx.round, len(own["WL"]), len(own["GCph"])))
        com = sorted(set(own["WL"]) & set(own["GCph"]))
        for a, b in (("WL", "GCph"), ("GCph", "WL")):
            e, w = fc.getMultipoleArraysForProbeComb(f"{LONG[a]}_{LONG[b]}")
            ctx.same(list(e), com, "shared-multipoles")
            ctx.close(w, [wid[a][x] for x in com], "widths-of-the-first-probe", rtol=1e-12)
        ctx.saw("shared")


def _change(ctx, s, what):
    """one changed field; returns the changed configuration"""
    c = copy.deepcopy(s.cfg)
    rng = ctx.rng
    present = [p for p, d in c["probes"].items() if d["presence_flag"]]
    p = present[int(rng.integers(len(present)))]
    d = c["probes"][p]
    if what == "f_sky":
        c["survey"]["f_sky"] *= 1 + float(rng.choice([1e-9, -.01, .1]))
    elif what == "flat":
        c["cosmology"]["flat"] = not c["cosmology"]["flat"]
    elif what == "fiducial":
        q = c["cosmology"]["parameters"][int(rng.integers(len(c["cosmology"]["parameters"])))]
        q["fiducial"] = q["fiducial"] * 1.01 + .001
        q["current_value"] = q["fiducial"]
    elif what == "probes":
        d["presence_flag"] = False
        if len(present) == 1:
            return None
    elif what == "multipoles":
        d["ell_external_filename"] = None
        d["l_min"] += 1
    elif what == "widths":
        pc = s.forecast_config()[LONG[p]]
        w = np.array(pc.l_bin_widths, dtype=float)
        w[int(rng.integers(len(w)))] *= 1.25
        np.savetxt(s.data / "widths.txt", np.column_stack([pc.l_bin_centers, w]), fmt="%.17g")
        d["ell_external_filename"] = "widths.txt"
    elif what == "n_ell":
        if d["ell_external_filename"] or not d["ell_log_selection"]:
            return None
        d["log_l_number"] += 1
    elif what == "density":
        src = _first(s, p, d["density_file"])
        (s.data / "other.h5").write_bytes(src.read_bytes())
        d["density_file"] = "other.h5"
    elif what == "bias":
        if p == "WL":
            return None
        src = _first(s, p, d["bias_file"])
        (s.data / "other_b.h5").write_bytes(src.read_bytes())
        d["bias_file"] = "other_b.h5"
    elif what == "marginalize":
        if p == "WL":
            return None
        d["marginalize_bias_flag"] = not d["marginalize_bias_flag"]
    elif what == "settings":
        d["specific_settings"] = {"other": 1}
    elif what == "nuisance":
        d["extra_nuisance_parameters"] = d.get("extra_nuisance_parameters", []) + [
            dict(name="added", fiducial=1.0, kind="NuisanceParameter", probe=LONG[p], is_free_parameter=True)]
    return c


def equality(ctx):
    fields = ["f_sky", "flat", "fiducial", "probes", "multipoles", "widths", "n_ell", "density", "bias", "marginalize", "settings", "nuisance"]
    for it in range(ctx.n(4, 25)):
        s = _survey(ctx)
        a = s.forecast_config()
        copy_file = s.base / "copy.json"
        copy_file.write_text(json.dumps(s.cfg, sort_keys=False))
        b = ForecastConfig(input_file=copy_file, input_data_dir=s.data, load_phys_params=True)
        ctx.check(a == b and b == a, "same-configurations-differ")
        for what in fields:
            c = _change(ctx, s, what)
            if c is None:
                continue
            f = s.base / f"{what}.json"
            f.write_text(json.dumps(c))
            o = ForecastConfig(input_file=f, input_data_dir=s.data, load_phys_params=True)
            ctx.case((what, it, ctx.round), {"changed": what})
            ctx.check(not (a == o) and not (o == a), "different-configurations-equal", changed=what)


FILES = {False: ("gcph_dndz_redbook.h5", "gcph_bias_piecewise.h5"),
         True: ("gcph_dndz_redbook_only_bins_in_spectro_range.h5", "gcph_bias_piecewise_only_bins_in_spectro_range.h5")}


def editor(ctx):
    names = {}
    ids = {}
    basic = json.loads((fsu.config_files_dir() / "basic_forecast_config.json").read_text())
    for sc, n, minus, red, only in itertools.product(("optimistic", "pessimistic"), (4, 12, 24, 40), *[(False, True)] * 3):
        opts = dict(scenario=sc, n_sp_bins=n, gcph_minus_gcsp=minus, shot_noise_sp_reduced=red, gcph_only_bins_in_spectro_range=only)
        ed = ForecastConfigEditor(dict(opts))
        ctx.case(tuple(opts.items()), opts)
        for date in (False, True):
            fn = ed.createFileName(add_datetime=date)
            ctx.check(fn.endswith(".json") and "/" not in fn, "file-name", name=fn)
            if not date:
                ctx.same(names.setdefault(fn, opts), opts, "two-configurations-one-file", name=fn)
        if minus and only:
            ctx.raises(ed.updateData, "incompatible-options-accepted")
            continue
        ed.updateData()
        d = ctx.scratch()
        ed.writeJSON(d)
        files = list(d.iterdir())
        ctx.same(len(files), 1, "editor-files")
        got = json.loads(files[0].read_text())
        ctx.same({k: got["synthetic_opts"][k] for k in opts}, opts, "editor-options")
        lmax = 750 if sc == "pessimistic" else 3000
        for p in ("GCph", "GCsp"):
            q = got["probes"][p]
            ctx.same([q["l_min"], q["l_max"], q["log_l_number"], q["ell_log_selection"]], [10, lmax, 100, True], "editor-multipoles")
        ctx.same(got["probes"]["WL"]["ell_external_filename"],
                 "wl_pess_ells_10_750_log_nell_100_and_750_1500_lin.txt" if sc == "pessimistic" else
                 "wl_optm_ells_10_3000_log_nell_100_and_3000_5000_lin.txt", "editor-lensing-multipoles")
        ctx.same(got["probes"]["GCsp"]["density_file"], f"gcsp_dndz_{n}_bins.h5", "editor-gcsp-density")
        ctx.same(got["probes"]["GCsp"]["bias_file"], f"gcsp_bias_piecewise_{n}_bins.h5", "editor-gcsp-bias")
        if minus:
            ctx.same(got["probes"]["GCph"]["density_file"], "gcph_dndz_redbook_gcsp_subtracted.h5", "editor-gcph-density")
        else:
            ctx.same((got["probes"]["GCph"]["density_file"], got["probes"]["GCph"]["bias_file"]), FILES[only], "editor-gcph-files")
        for key in ("survey", "cosmology", "derivative_settings"):
            ctx.same(got[key], basic[key], "editor-changes-the-rest", key=key)
        cid = JSONForecastConfig(file=files[0]).getConfigID()
        ctx.same(ids.setdefault(cid, opts), opts, "two-configurations-one-id", id=cid)
    seen = {}
    for nb in (1, 2, 4, 12, 24, 48):
        for sc in ("optimistic", "pessimistic"):
            for flags in itertools.product((False, True), repeat=2):
                o = dict(scenario=sc, n_sp_bins=nb, gcph_minus_gcsp=flags[0], shot_noise_sp_reduced=flags[1])
                cid = JSONForecastConfig(data=dict(synthetic_opts=o)).getConfigID()
                ctx.same(seen.setdefault(cid, o), o, "two-options-one-id", id=cid)
                ctx.check(sc in cid and f"n_sp_bins_{nb}" in cid, "id-without-its-options", id=cid, options=o)
    ok = dict(scenario="optimistic", n_sp_bins=4, gcph_minus_gcsp=False, shot_noise_sp_reduced=False, gcph_only_bins_in_spectro_range=False)
    for key, bad in (("scenario", "realistic"), ("n_sp_bins", 5), ("n_sp_bins", "4"), ("gcph_minus_gcsp", 1), ("shot_noise_sp_reduced", "no"),
                     ("gcph_only_bins_in_spectro_range", None), ("shot_noise_sp_reduced", 1), ("shot_noise_sp_reduced", 0), ("gcph_minus_gcsp", 0),
                     ("gcph_minus_gcsp", "True"), ("gcph_only_bins_in_spectro_range", 1), ("gcph_only_bins_in_spectro_range", 0), ("n_sp_bins", None),
                     ("scenario", "Optimistic")):
        ctx.raises(lambda: ForecastConfigEditor({**ok, key: bad}), "invalid-option-accepted", option=key, value=bad)
    for key in ok:
        ctx.raises(lambda: ForecastConfigEditor({k: v for k, v in ok.items() if k != key}), "missing-option-accepted", option=key)
    ctx.raises(lambda: ForecastConfigEditor({**ok, "extra": True}), "unknown-option-accepted")


def json_files(ctx):
    """what cannot be written leaves the previous file; metadata is optional"""
    for it in range(ctx.n(4, 12)):
        s = world.Survey(ctx.scratch("j"), probes=("GCph",))
        if it % 2:
            s.cfg.pop("metadata")
            s.write()
        else:
            s.cfg["metadata"]["purpose"] = f"run {int(ctx.rng.integers(99))}"
            s.write()
        j = JSONForecastConfig(file=s.fcfg_file)
        with ctx.op("write-configuration"):
            j.toJSON(s.fcfg_file)
        got = json.loads(s.fcfg_file.read_text())
        ctx.check({"author", "creation_date", "version"} <= set(got["metadata"]), "metadata-missing")
        notes = {k: v for k, v in s.cfg.get("metadata", {}).items() if k not in ("author", "creation_date", "version")}
        ctx.same({k: v for k, v in got["metadata"].items() if k not in ("author", "creation_date", "version")}, notes, "notes-of-the-author")
        rest = {k: v for k, v in s.cfg.items() if k != "metadata"}
        ctx.same({k: v for k, v in got.items() if k != "metadata"}, rest, "configuration-content")
        j.data["survey"]["extra"] = {1, 2} if it % 4 < 2 else object()
        before = s.fcfg_file.read_bytes()
        try:
            j.toJSON(s.fcfg_file)
            failed = False
        except Exception:
            failed = True
        ctx.saw("failed_writes", failed)
        ctx.case((it, ctx.round))
        if failed:
            ctx.same(s.fcfg_file.read_bytes(), before, "failed-write-destroys-configuration")
        j2 = JSONForecastConfig(data=copy.deepcopy(rest))
        for part in ("survey", "cosmology", "probes", "synthetic_opts", "derivative_settings"):
            ctx.same(getattr(j2, part), rest[part], "configuration-part", part=part)
            ctx.same(j2[part], rest[part], "configuration-item", part=part)
            ctx.check(part in j2, "configuration-contains", part=part)
        for att, p in (("WL", "WL"), ("GCph", "GCph"), ("GCsp", "GCsp"), ("Void", "V")):
            ctx.same(getattr(j2, att), rest["probes"][p], "configuration-probe", probe=p)


def main_configs(ctx):
    rng = ctx.rng
    for task in ("PowerSpectrum", "Angular", "Derivative", "Fisher"):
        src = fsu.config_files_dir() / {"PowerSpectrum": "power_spectrum_config.json", "Angular": "angular_config.json",
                                        "Derivative": "derivative_config.json", "Fisher": "fisher_config.json"}[task]
        raw = json.loads(src.read_text())
        for _ in range(3):
            raw[f"extra{int(rng.integers(9))}"] = {"x": float(rng.normal()), "y": [1, "b", None, True]}
            raw.update(nothing=None, no=False, zero=0, empty="", none_inside={"a": None, "b": {}})
            f = ctx.scratch() / "c.json"
            f.write_text(json.dumps(raw))
            c = main_config.config_for_task(task, f)
            ctx.case((task, ctx.round, _))
            ctx.same(type(c).__name__, task + "Config", "config-class")
            ctx.same({k: c[k] for k in raw}, raw, "config-content")
            g = f.parent / "d.json"
            c.writeToJSON(g)
            ctx.same({k: v for k, v in json.loads(g.read_text()).items() if k in raw}, raw, "config-written")
            ctx.check(type(c).fromJSON(g) == c, "config-reload")
    ctx.raises(lambda: main_config.config_for_task("Main", f), "unknown-task-accepted", exc=ValueError)
    for it in range(ctx.n(10, 40)):
        raw = json.loads((fsu.config_files_dir() / "power_spectrum_config.json").read_text())
        lo, hi, n = float(rng.uniform(0, .5)), float(rng.uniform(1, 4)), int(rng.integers(2, 400))
        raw["redshift_grid"] = {"z_min": lo, "z_max": hi, "n_redshifts": n}
        f = ctx.scratch() / "p.json"
        f.write_text(json.dumps(raw))
        c = main_config.PowerSpectrumConfig(json_input=f)
        ctx.close(c.z_grid, lo + (hi - lo) * np.arange(n) / (n - 1), "redshift-grid", rtol=1e-12, atol=1e-14)
        c.z_min, c.z_max, c.n_redshifts = lo + .1, hi + 1, n + 3
        ctx.close(c.z_grid, lo + .1 + (hi - lo + .9) * np.arange(n + 3) / (n + 2), "redshift-grid-set", rtol=1e-12, atol=1e-14)
        ctx.same(c.boltzmann_code, raw["boltzmann_codes_settings"]["code"], "boltzmann-code")
        a = ctx.scratch() / "a.json"
        kx, ky = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        a.write_text(json.dumps({"cl_integration_settings": {"lensing_efficiency": "m1", "cl": "m2"},
                                 "limber_pmm_spline_settings": {"kx": str(kx), "ky": ky, "s": 0}}))
        c = main_config.AngularConfig(json_input=a)
        ctx.same((c.lensing_efficiency_integration_method, c.cl_integration_method, c.limber_spline_kx, c.limber_spline_ky, c.limber_spline_s),
                 ("m1", "m2", kx, ky, 0), "angular-settings")
        # presence flags of the cross-correlation derivatives: under either order of the pair
        names = list(LONG.values())
        pairs = [t for t in itertools.combinations_with_replacement(names, 2)]
        flags, want = {}, {}
        for (p, q) in pairs:
            if rng.random() < .7:
                v = bool(rng.integers(2))
                flags[f"{p}_{q}" if rng.random() < .5 else f"{q}_{p}"] = v
                want[frozenset((p, q))] = v
        fc = main_config.FisherConfig()
        fc["cl_derivatives"] = flags
        for p, q in itertools.product(names, repeat=2):
            k = frozenset((p, q))
            if k in want:
                ctx.same(fc.getXCDerivativeFlag(f"{p}_{q}"), want[k], "derivative-flag", pair=(p, q))
            else:
                ctx.raises(lambda: fc.getXCDerivativeFlag(f"{p}_{q}"), "unknown-derivative-flag", exc=KeyError)


def command_line(ctx):
    rng = ctx.rng
    every = ["forecast_config", "powerspectrum_config", "angular_config", "derivative_config", "fisher_config", "input_data_dir", "powerspectrum_dir",
             "angular_dir", "derivative_dir", "fisher_dir"]
    others = dict(run_id="r_config1", execution="batch", queue="long", memory=2048, n_cores_per_job=3, verbose=False, test=True, overwrite_results=False)
    for it in range(ctx.n(6, 20)):
        d = {k: None if rng.random() < .4 else f"/x/{k}{it}" for k in every} | others
        for arg in (dict(d), argparse.Namespace(**d)):
            a = cmd_line.JobSubmitterCommandLineArgs(arg)
            ctx.case((it, type(arg).__name__, ctx.round))
            for k in every:
                ctx.same(a[k], None if d[k] is None else Path(d[k]), "path-argument", key=k)
                ctx.check(a[k] is None or isinstance(a[k], Path), "path-argument-type", key=k)
            ctx.same({k: a[k] for k in others}, others, "other-arguments")
        cl = cmd_line.ClCLIArgs(dict(rundir="/r", workdir=None, main_config="/m.json", forecast_config="/f", power_spectrum_dir="/p", dvar="w0",
                                     step=str(-it), niz_file="/n", logfile="l"))
        ctx.same((cl.rundir, cl.workdir, cl.main_config, cl.power_spectrum_dir, cl.step, cl.dvar), (Path("/r"), None, Path("/m.json"), Path("/p"), -it, "w0"),
                 "cl-arguments")
        # lists of paths: one per line, blank lines and surrounding blanks do not count
        base = ctx.scratch()
        lists, want = [], []
        for k in range(int(rng.integers(1, 4))):
            rows = [f"/runs/r{k}_{j}" for j in range(int(rng.integers(1, 4)))]
            text = "".join(("\n" if rng.random() < .3 else "") + (" " if rng.random() < .3 else "") + ("\t\n" if rng.random() < .2 else "") + r + (" \n" if rng.random() < .5 else "\n") for r in rows)
            f = base / f"l{k}.txt"
            f.write_text(text + ("\n" if rng.random() < .5 else ""))
            lists.append(f if rng.random() < .5 else str(f))
            want += [Path(r) for r in rows]
            ctx.same(list(cmd_line.read_json_txt_list_file(f)), rows, "list-file")
        ctx.same(list(cmd_line.get_paths_from_files_list(lists)), want, "paths-of-files")
        with ctx.op("paths-of-every-kind"):
            mixed = lists[:1] + ["/a", "/b.json"]
            ctx.same(list(cmd_line.get_paths_from_files_list(mixed)), [Path(x) for x in mixed], "paths-of-every-kind")
        ctx.same(list(cmd_line.get_paths_from_files_list(["/a", "/b"])), [Path("/a"), Path("/b")], "paths-given")
        j = base / "l.json"
        j.write_text(json.dumps(["/a", "b c"]))
        ctx.same(cmd_line.read_json_txt_list_file(j), ["/a", "b c"], "json-list-file")
        dirs = [base / f"pmm{k}" for k in range(3)]
        for d2 in dirs:
            d2.mkdir()
        t = base / "pmms.txt"
        t.write_text("\n".join(map(str, dirs)) + "\n\n")
        ctx.same([Path(x) for x in orchestration.get_pmm_dirs(argparse.Namespace(angular=True, powerspectra=t))], dirs, "spectra-directories")
        ctx.same(orchestration.get_pmm_dirs(argparse.Namespace(angular=True, powerspectra=dirs[0])), [dirs[0]], "spectra-directory")
        ctx.same(orchestration.get_pmm_dirs(argparse.Namespace(angular=False, powerspectra=t)), [None], "no-spectra-directory")
        t.write_text(f"{dirs[0]}\n{base}/nope\n")
        ctx.raises(lambda: orchestration.get_pmm_dirs(argparse.Namespace(angular=True, powerspectra=t)), "missing-spectra-accepted", exc=FileNotFoundError)
        ctx.raises(lambda: orchestration.get_pmm_dirs(argparse.Namespace(angular=True, powerspectra=None)), "no-spectra-accepted", exc=ValueError)
    ctx.raises(lambda: cmd_line.read_json_txt_list_file(base / "x.csv"), "unknown-list-format-accepted")
    ctx.raises(lambda: cmd_line.JobSubmitterCommandLineArgs([1]), "argument-type-accepted", exc=TypeError)


SECTIONS = [surveys, equality, editor, json_files, main_configs, command_line]
