"""P30: the configuration window writes, for every setting it shows, the value shown, and the file loads as the same forecast."""
import argparse
import copy
import json
import os
import subprocess
import sys

import numpy as np
from PyQt5 import QtCore, QtWidgets

from seyfert import VERSION
from seyfert.config.forecast_config import ForecastConfig
from seyfert.gui.interface_window import ConfigGUIWindow, GUIFileInterface
from seyfert.utils import filesystem_utils as fsu
from vlib import scripts

PROPERTY = "P30"
LEVEL = "exploration"
RULE = ("the real configuration window, without a display, has every box, field, list and table cell set at random, on its own or through the dialog of the gui_config program; the file "
        "is compared field by field with the widgets and loaded next to a configuration file written by hand with the same values; distinct = settings")
ASSUMPTIONS = ["the Qt platform plugin without a display behaves as one with", "the number fields of the window hold the number typed, within their range and decimals"]
NEEDS = {"oracle.written": 800, "oracle.loaded": 100, "oracle.program": 120, "present.V": 1, "present.WL": 1}

PROBES = {"WL": "Lensing", "GCph": "PhotometricGalaxy", "GCsp": "SpectroscopicGalaxy", "V": "Void"}
TABS = {"WL": "Lensing", "GCph": "PhotometricGalaxy", "GCsp": "SpectroscopicGalaxy", "V": "Void"}
DENSITY = {"WL": ["gcph_dndz_redbook.h5", "convolved_gcph_dndz_redbook.h5"], "GCph": ["gcph_dndz_redbook.h5", "convolved_gcph_dndz_redbook.h5"],
           "GCsp": ["gcsp_dndz_4_bins.h5", "gcsp_dndz_granett_fine_binning_model1.h5"], "V": ["voids_dndz_flagship_old.h5"]}
BIAS = {"GCph": ["gcph_bias_piecewise.h5", "gcph_bias_constant.h5", "gcph_bias_equal_one_piecewise.h5"],
        "GCsp": ["gcsp_bias_piecewise_4_bins.h5", "gcsp_bias_constant.h5", "gcsp_bias_equal_one_piecewise.h5"], "V": ["voids_bias_vdn.h5", "voids_bias_fiducial_growth.h5"]}
ELLS = ["oule3_ell_bins.txt", "wl_optm_ells_10_3000_log_nell_100_and_3000_5000_lin.txt", "wl_pess_ells_10_750_log_nell_100_and_750_1500_lin.txt"]
PARS = ["h", "w0", "wa", "OmDE", "Omm", "Omb", "ns", "sigma8", "mnu"]
IA = ["aIA", "cIA", "etaIA", "betaIA"]


# ------------------------------------------------------------------------------------------------ choices
def flip(rng, p=.5):
    return bool(rng.random() < p)


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def number(rng, lo, hi, digits=4):
    return f"{rng.uniform(lo, hi):.{digits}f}"


def choices(rng):
    ch = {"f_sky": repr(float(rng.uniform(.01, 1))), "flat": flip(rng), "model": "CPL", "cosmo": {}, "probes": {},
          "disps": [repr(float(x)) for x in np.sort(rng.uniform(1e-3, .2, size=7))]}
    for k, name in enumerate(PARS):
        ch["cosmo"][name] = [number(rng, -1.2, 3, int(rng.integers(1, 9))), pick(rng, ["true", "false", "True", "False"]), pick(rng, ["None", "eV", "km/s"]),
                             number(rng, .5, 9, 2), pick(rng, ["SteM", "analytic", "5-point stencil"])]
    for p in PROBES:
        d = {"presence_flag": flip(rng, .7), "density_file": pick(rng, DENSITY[p]), "ell_external_checkbox": flip(rng), "ell_log_selection": flip(rng),
             "ell_external_filename": pick(rng, ELLS) if flip(rng, .8) else "", "log_l_number": int(rng.integers(20, 201)),
             "l_min": float(rng.integers(200, 10000)) / 100, "l_max": float(rng.integers(75100, 150000)) / 100}
        if p != "WL":
            d["bias_file"] = pick(rng, BIAS[p])
            d["marginalize_bias_flag"] = flip(rng)
        if p in ("GCph", "GCsp"):
            d["bias_derivative_method"] = int(rng.integers(3))
        if p == "WL":
            d["include_IA"] = flip(rng)
            for n in IA:
                d["nuis_param_" + n] = number(rng, -3, 3, int(rng.integers(1, 7)))
        if p == "GCsp":
            d["compute_gcsp_cl_offdiag"] = flip(rng)
        if p == "V":
            d["void_kcut_invMpc"] = float(number(rng, .01, 5, 3))
            d["void_kcut_width_invMpc"] = float(number(rng, .01, 5, 3))
        ch["probes"][p] = d
    return ch


def tabs(ui):
    stack = ui.centralwidget.findChildren(QtWidgets.QStackedWidget)[0]
    out = {}
    for w in stack.children():
        if isinstance(w, QtWidgets.QWidget) and w.whatsThis() == "probe":
            name = w.objectName().lower()
            p = "WL" if name in ("wl", "lensing") else "V" if name in ("v", "void") else "GCph" if name in ("gcph", "photometricgalaxy") else "GCsp"
            out[p] = {x.whatsThis(): x for x in w.findChildren(QtWidgets.QWidget) if x.whatsThis()}
    return out


def put(ui, ch, order=None):
    """set the widgets, in the given order of probes and fields; what lists show is put back in the choices"""
    ui.f_sky.setText(ch["f_sky"])
    ui.is_universe_flat.setChecked(ch["flat"])
    t = ui.cosmo_pars
    assert [t.verticalHeaderItem(i).text() for i in range(t.rowCount())] == PARS
    for i, name in enumerate(PARS):
        for j, text in enumerate(ch["cosmo"][name]):
            t.item(i, j).setText(text)
    ch["model"] = ui.cosmological_model.currentText()
    for i, text in enumerate(ch["disps"]):
        ui.stem_disps.item(i, 0).setText(text)
    w = tabs(ui)
    fields = [(p, k) for p in ch["probes"] for k in ch["probes"][p]]
    for n in order if order is not None else range(len(fields)):
        p, k = fields[n]
        v, x = ch["probes"][p][k], w[p][k]
        if isinstance(x, QtWidgets.QCheckBox):
            x.setChecked(v)
        elif isinstance(x, QtWidgets.QLineEdit):
            x.setText(v)
        elif isinstance(x, QtWidgets.QComboBox):
            x.setCurrentIndex(v % x.count())
            ch["probes"][p][k] = x.itemText(v % x.count())
        else:
            x.setValue(v)
    return ch


def expected(ch):
    """what a configuration file with these values holds"""
    out = {"survey": {"f_sky": float(ch["f_sky"]), "shot_noise_file": None},
           "cosmology": {"model_name": ch["model"], "flat": ch["flat"], "parameters": []}, "probes": {},
           "derivative_settings": {"base_stem_disps": [float(x) for x in ch["disps"]]}}
    for name in PARS:
        fid, free, units, factor, method = ch["cosmo"][name]
        out["cosmology"]["parameters"].append({"name": name, "fiducial": float(fid), "current_value": float(fid), "kind": "CosmologicalParameter",
                                               "is_free_parameter": free.lower() == "true", "stem_factor": float(factor), "derivative_method": method, "units": units})
    for p, d in ch["probes"].items():
        external = d["ell_external_filename"] if d["ell_external_checkbox"] and d["ell_external_filename"] else None
        e = {"long_name": PROBES[p], "presence_flag": d["presence_flag"], "density_file": d["density_file"], "ell_external_filename": external,
             "l_min": d["l_min"], "l_max": d["l_max"], "ell_log_selection": d["ell_log_selection"], "log_l_number": d["log_l_number"], "specific_settings": {},
             "extra_nuisance_parameters": []}
        for k in ("bias_file", "marginalize_bias_flag", "bias_derivative_method"):
            if p != "WL":
                e[k] = d.get(k)
        for k in ("include_IA", "compute_gcsp_cl_offdiag", "void_kcut_invMpc", "void_kcut_width_invMpc"):
            if k in d:
                e["specific_settings"][k] = d[k]
        if p == "WL":
            for n in IA:
                v = float(d["nuis_param_" + n])
                e["extra_nuisance_parameters"].append({"name": n, "fiducial": v, "current_value": v, "kind": "NuisanceParameter", "stem_factor": 1.0,
                                                       "is_free_parameter": d["include_IA"] and n != "cIA", "units": "None", "probe": "Lensing", "derivative_method": "SteM"})
        out["probes"][p] = e
    return out


def compare(ctx, got, want, where):
    ctx.same(got["survey"]["f_sky"], want["survey"]["f_sky"], f"{where}-sky-fraction")
    ctx.same(got["survey"].get("shot_noise_file"), None, f"{where}-shot-noise")
    ctx.same(got["cosmology"]["flat"], want["cosmology"]["flat"], f"{where}-flat")
    ctx.same(got["cosmology"].get("model_name"), want["cosmology"]["model_name"], f"{where}-model")
    ctx.same([p["name"] for p in got["cosmology"]["parameters"]], PARS, f"{where}-parameter-names")
    for g, w in zip(got["cosmology"]["parameters"], want["cosmology"]["parameters"]):
        for k in w:
            ctx.same(g.get(k), w[k], f"{where}-parameter-{k}", parameter=w["name"])
    ctx.same([float(x) for x in got["derivative_settings"]["base_stem_disps"]], want["derivative_settings"]["base_stem_disps"], f"{where}-displacements")
    ctx.same(set(got["probes"]), set(PROBES), f"{where}-probes")
    for p, w in want["probes"].items():
        g = got["probes"][p]
        skip = {"extra_nuisance_parameters"}
        if w["ell_external_filename"] is not None:
            skip |= {"l_min", "l_max", "ell_log_selection", "log_l_number"}
        elif not w["ell_log_selection"]:
            skip |= {"log_l_number"}
        for k in set(w) - skip:
            ctx.same(g.get(k), w[k], f"{where}-{k}", probe=p)
        pars = {x["name"]: x for x in g.get("extra_nuisance_parameters", [])}
        ctx.same(set(pars), {x["name"] for x in w["extra_nuisance_parameters"]}, f"{where}-nuisance-names", probe=p)
        for x in w["extra_nuisance_parameters"]:
            for k in ("name", "fiducial", "kind", "is_free_parameter", "probe"):
                ctx.same(pars[x["name"]].get(k), x[k], f"{where}-nuisance-{k}", parameter=x["name"])


APP = []


def application():
    """the one application of this process, kept while windows live"""
    if not APP:
        os.environ.setdefault("XDG_RUNTIME_DIR", os.environ.get("TMPDIR", "/tmp"))
        APP.append(QtWidgets.QApplication.instance() or QtWidgets.QApplication(["verif"]))
    return APP[0]


# ------------------------------------------------------------------------------------------------ the file
def written(ctx):
    rng = ctx.rng
    app = application()
    win = ConfigGUIWindow(argparse.Namespace(no_datetime=True))
    for it in range(ctx.n(12, 120)):
        if it % 4 == 0:
            win = ConfigGUIWindow(argparse.Namespace(no_datetime=True))
        ch = choices(rng)
        n = sum(len(d) for d in ch["probes"].values())
        ch = put(win.ui, ch, rng.permutation(n))
        if flip(rng):
            win.ui.probes.setCurrentIndex(int(rng.integers(4)))
        ctx.case((json.dumps(ch, sort_keys=True),), sample=ch["probes"]["GCph"])
        before = json.dumps(expected(ch))
        with ctx.op("window"):
            got = json.loads(json.dumps(GUIFileInterface(win.ui).dumpGUIToJSON()))
            again = json.loads(json.dumps(GUIFileInterface(win.ui).dumpGUIToJSON()))
            compare(ctx, got, json.loads(before), "window")
            ctx.same(again, got, "second-reading")


# ------------------------------------------------------------------------------------------------ the forecast it loads as
def describe(fc):
    out = {"sky": fc.survey_f_sky, "flat": fc.is_universe_flat, "combinations": sorted(sorted(c) for c in fc.probes_combinations), "noise": fc.shot_noise_file,
           "displacements": fc.phys_pars.stem_disps.tolist(), "steps": {int(k): float(v) for k, v in fc.phys_pars.stem_dict.items()}, "probes": {}, "parameters": {}}
    for n, c in fc.probe_configs.items():
        out["probes"][n] = {"ells": c.l_bin_centers.tolist(), "widths": c.l_bin_widths.tolist(), "density": str(c.density_init_file), "bias": str(c.bias_init_file),
                            "marginalise": c.marginalize_bias, "method": c.bias_diff_method, "specific": c.specific_settings}
    for n, p in fc.phys_pars.items():
        out["parameters"][n] = [p.name, p.fiducial, p.current_value, p.kind, p.is_free_parameter, p.stem_factor, p.derivative_method, p.units, p.probe]
    return out


def loaded(ctx):
    rng = ctx.rng
    application()
    data = fsu.default_data_dir()
    win = ConfigGUIWindow(argparse.Namespace(no_datetime=True))
    for it in range(ctx.n(5, 50)):
        d = ctx.scratch("cfg")
        ch = put(win.ui, choices(rng))
        if not any(p["presence_flag"] for p in ch["probes"].values()):
            continue
        want = expected(ch)
        (d / "by_hand.json").write_text(json.dumps(want))
        present = sorted(p for p in want["probes"] if want["probes"][p]["presence_flag"])
        for p in present:
            ctx.saw("present." + p)
        ctx.case((json.dumps(ch, sort_keys=True),), sample={"present": present})
        ref = describe(ForecastConfig(d / "by_hand.json", data, load_phys_params=True))
        ctx.same(sorted(ref["probes"]), sorted(PROBES[p] for p in present), "by-hand-probes")
        with ctx.op("load", present=present):
            gi = GUIFileInterface(win.ui)
            (d / "window.json").write_text(json.dumps(gi.dumpGUIToJSON()))
            fc = ForecastConfig(d / "window.json", data, load_phys_params=True)
            got = describe(fc)
            for k in ref:
                if isinstance(ref[k], dict):
                    ctx.same(set(got[k]), set(ref[k]), f"loaded-{k}")
                    for n in ref[k]:
                        ctx.same(got[k].get(n), ref[k][n], f"loaded-{k}-values", name=n)
                else:
                    ctx.same(got[k], ref[k], f"loaded-{k}")
            for n, p in fc.phys_pars.nuisance_parameters.items():
                ctx.check(p.probe in fc.probe_configs, "parameter-of-a-present-probe", name=n, probe=p.probe)


# ------------------------------------------------------------------------------------------------ the program
DRIVER = '''
import json, runpy, sys
from pathlib import Path
sys.path.insert(0, sys.argv[1]); job = json.loads(Path(sys.argv[2]).read_text())
from PyQt5 import QtCore, QtWidgets
from checks import p30
def run(*a):
    app = QtWidgets.QApplication.instance()
    win = [w for w in app.topLevelWidgets() if isinstance(w, QtWidgets.QMainWindow)][0]
    p30.put(win.ui, job["choices"])
    def answer():
        box = app.activeModalWidget()
        if box is None:
            Path(job["log"]).write_text("no dialog"); QtCore.QCoreApplication.exit(7); sys.exit(7)
        box.findChild(QtWidgets.QLineEdit).setText(job["name"])
        [b for b in box.findChildren(QtWidgets.QPushButton) if b.text() == "Save"][0].click()
    QtCore.QTimer.singleShot(100, answer)
    win.ui.json_save_button.click()
    return 9
QtWidgets.QApplication.exec_ = run
sys.argv = ["gui_config"] + job["args"]
runpy.run_path(job["program"], run_name="__main__")
'''


def program(ctx):
    rng = ctx.rng
    for it in range(ctx.n(2, 10)):
        d, cwd, home = ctx.scratch("gui"), ctx.scratch("cwd"), ctx.scratch("home")
        application()
        win = ConfigGUIWindow(argparse.Namespace(no_datetime=True))
        ch = choices(rng)
        shown = put(win.ui, copy.deepcopy(ch))
        plain = flip(rng)
        stem = pick(rng, ["forecast", "my.run", "voids_1.2", "x.json", "two words"])
        args = [[], ["--no_datetime"]][plain]
        (d / "job.json").write_text(json.dumps({"choices": ch, "name": stem, "args": args, "program": str(scripts.REPO / "bin" / "gui_config"), "log": str(d / "log")}))
        (d / "driver.py").write_text(DRIVER)
        ctx.case((stem, plain, it, ctx.round), sample={"name": stem, "arguments": args})
        env = dict(os.environ, USER="Ada", HOME=str(home), XDG_RUNTIME_DIR=str(home))
        r = subprocess.run([sys.executable, str(d / "driver.py"), str(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), str(d / "job.json")],
                           cwd=cwd, env=env, capture_output=True, text=True, timeout=120)
        ctx.check(r.returncode == 0, "program-status", status=r.returncode, stderr=r.stderr[-800:], name=stem)
        files = sorted(p.name for p in cwd.iterdir())
        if not ctx.check(len(files) == 1, "one-file", files=files, name=stem, stderr=r.stderr[-300:]):
            continue
        base = stem[:-5] if stem.endswith(".json") else stem
        ctx.check(files[0].endswith(".json") and files[0].startswith(base), "file-name", file=files[0], name=stem)
        if plain:
            ctx.same(files[0], base + ".json", "plain-file-name")
        else:
            ctx.check(VERSION in files[0][len(base):], "version-in-file-name", file=files[0])
        got = json.loads((cwd / files[0]).read_text())
        compare(ctx, got, expected(shown), "program")
        ctx.same(got.get("metadata", {}).get("version"), VERSION, "version-in-file")
        ctx.same(got.get("metadata", {}).get("author"), "Ada", "author-in-file")


SECTIONS = [written, loaded, program]
