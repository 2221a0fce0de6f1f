"""P22: a run directory keeps its inputs and its products apart and finds them again."""
import itertools
import json
import os
import shutil
from pathlib import Path

import numpy as np

from seyfert.utils import filesystem_utils as fsu
from seyfert.utils.workspace import WorkSpace
from vlib import world
from vlib.world import LONG

PROPERTY = "P22"
LEVEL = "exploration"
RULE = ("run directories are prepared from input files of random (equal, reserved, reusable) names, prepared again, moved, copied, and reached through links and "
        "relative paths; job directories of random parameters and steps are created next to unrelated entries, and external directories are linked from everywhere; "
        "what the workspace then returns is compared with what was put there; distinct = names x location x step")
ASSUMPTIONS = ["parameter names are made of letters and digits"]
NEEDS = {"oracle.inputs": 300, "oracle.job_names": 2000, "oracle.products": 141, "oracle.external": 64, "clashing_names": 3, "moved": 3, "through_link": 3, "relative": 3}
TASKS = ("PowerSpectrum", "Angular", "Derivative", "Fisher")
PARS = ["w0", "wa", "Omm", "OmDE", "Omb", "h", "ns", "sigma8", "mnu", "gamma", "aIA", "etaIA", "voidbias0"] + [f"bgph{i}" for i in range(13)] + \
       [f"bgsp{i}" for i in range(41)] + ["s", "p", "m", "step", "dvar", "p1", "m1", "dvar1", "stepp", "step0", "1", "Central", "c", "cvir", "ce", "centre"]


def _content(task, k):
    if task == "Angular":
        return {"cl_integration_settings": {"lensing_efficiency": "m", "cl": f"c{k}"}, "limber_pmm_spline_settings": {"kx": 1, "ky": 1, "s": 0}}
    return {"which": task, "number": k}


def _sources(ctx, s):
    """input files of random names, in different directories"""
    rng = ctx.rng
    pool = ["config.json", "params.json", "x.json", "Fisher_x.json", "Angular_x.json", "input.json", "Fisher_Fisher_x.json"]
    out, raw = {}, {}
    for k, t in enumerate(("forecast",) + TASKS):
        d = s.base / f"in{k}"
        d.mkdir()
        name = str(rng.choice(pool)) if rng.random() < .7 else f"{t}.json"
        raw[t] = s.cfg if t == "forecast" else _content(t, int(rng.integers(100)))
        (d / name).write_text(json.dumps(raw[t]))
        out[t] = d / name if rng.random() < .7 else str(d / name)
    order = list(out)
    rng.shuffle(order)
    if len({Path(p).name for p in out.values()} | {"params.json"}) < len(out) + 1:
        ctx.saw("clashing_names")
    return {t: out[t] for t in order}, raw


def _judge_inputs(ctx, ws, s, raw, where):
    ctx.same(set(ws.theInputFilesDict()), set(raw) | {"params", "input_data_dir"}, "input-files-list", where=where)
    for t in TASKS:
        ctx.same(json.loads(ws.getTaskJSONPath(t).read_text()), raw[t], "task-input-file", where=where, task=t)
        c = ws.getTaskJSONConfiguration(t)
        ctx.same((type(c).__name__, {k: c[k] for k in raw[t]}), (t + "Config", raw[t]), "task-configuration", where=where, task=t)
    cs = ws.getTasksJSONConfigs()
    ctx.same({t: {k: c[k] for k in raw[t]} for t, c in cs.items()}, {t: raw[t] for t in TASKS}, "task-configurations", where=where)
    ctx.same(json.loads(ws.getForecastConfigFilePath().read_text()), raw["forecast"], "forecast-input-file", where=where)
    ctx.check(Path(ws.getInputDataDirPath()).samefile(s.data), "input-data-directory", where=where)
    fc, ref = ws.getForecastConfiguration(load_params=True), s.forecast_config()
    ctx.check(fc == ref, "forecast-configuration", where=where)
    ctx.check(ws.getForecastConfiguration(load_params=True, input_data_dir=s.data) == ref, "forecast-configuration-given-data", where=where)
    got, want = ws.getParamsCollection(), ref.phys_pars
    ctx.same(set(got.keys()), set(want.keys()), "parameters", where=where)
    for n in want:
        ctx.same(got[n].to_dict(), want[n].to_dict(), "parameter", where=where, name=n)
    ctx.close(got.stem_disps, want.stem_disps, "parameter-steps", rtol=1e-15, where=where)
    ctx.same(got.is_universe_flat, want.is_universe_flat, "parameters-flat", where=where)
    ctx.raises(lambda: ws.getTaskJSONPath("Nothing"), "unknown-task-accepted", exc=KeyError)


def inputs(ctx):
    rng = ctx.rng
    for it in range(ctx.n(6, 40)):
        s = world.Survey(ctx.scratch("s"), probes=[p for p in LONG if rng.random() < .7] or ["WL"], n_bins={p: int(rng.integers(1, 4)) for p in LONG})
        fc = s.forecast_config()
        src, raw = _sources(ctx, s)
        before = {t: Path(p).read_bytes() for t, p in src.items()}
        base = ctx.scratch("runs")
        run = base / "run_a"
        run.mkdir()
        ws = WorkSpace(run if it % 2 else str(run))
        ctx.case((it, ctx.round, tuple(Path(p).name for p in src.values())), {"names": [Path(p).name for p in src.values()]})
        cwd = os.getcwd()
        try:
            os.chdir(s.data.parent)
            ws.createInputFilesDir(dict(src), fc.phys_pars, s.data if it % 3 else Path(s.data.name))
        finally:
            os.chdir(cwd)
        _judge_inputs(ctx, ws, s, raw, "in place")
        ctx.same({t: Path(p).read_bytes() for t, p in src.items()}, before, "source-files-changed")
        ws.createInputFilesDir(dict(src), fc.phys_pars, s.data)
        _judge_inputs(ctx, WorkSpace(run), s, raw, "prepared twice")
        ctx.same(len(list(ws.input_files_dir.iterdir())), len(raw) + 1, "input-files-number")
        # the sources are gone or changed: the run keeps what it was started with
        for p in src.values():
            Path(p).write_text("{}") if rng.random() < .5 else Path(p).unlink()
        _judge_inputs(ctx, WorkSpace(run), s, raw, "sources changed")
        # moved, linked and relative
        other = base / "elsewhere" / "run_b"
        other.parent.mkdir()
        (shutil.move if it % 2 else shutil.copytree)(str(run), str(other))
        ctx.saw("moved")
        _judge_inputs(ctx, WorkSpace(other), s, raw, "moved")
        (base / "link").symlink_to(other)
        ctx.saw("through_link")
        _judge_inputs(ctx, WorkSpace(base / "link"), s, raw, "through a link")
        cwd = os.getcwd()
        try:
            os.chdir(base)
            ctx.saw("relative")
            _judge_inputs(ctx, WorkSpace("elsewhere/run_b"), s, raw, "relative")
        finally:
            os.chdir(cwd)


def job_names(ctx):
    steps = [0] + [sg * k for k in list(range(1, 13)) + [100, 999] for sg in (1, -1)]
    seen = {}
    for par, step in itertools.product(PARS, steps):
        n = fsu.get_cosmology_jobdir_name(par, step)
        ctx.same(seen.setdefault(n, (par, step)), (par, step), "two-jobs-one-directory", name=n)
        for got in (fsu.get_dvar_step_from_cosmology_jobdir_name(n), WorkSpace.getDvarStepFromCosmoDirName(n)):
            ctx.same(tuple(got), (par, step), "job-directory-name", name=n)
        ctx.same(fsu.get_cosmology_jobdir_name(par, np.int64(step)), n, "job-directory-integer")
        ctx.case((par, step))
        d = fsu.get_derivative_jobdir_name_from_dvar(par)
        ctx.same(fsu.get_dvar_from_derivative_jobdir_name(d), par, "derivative-directory-name")
    ctx.same(fsu.get_cosmology_jobdir_name("central", 0), "dvar_central_step_0", "central-name")
    pair = {}
    for a, b in itertools.product(PARS, repeat=2):
        n = fsu.get_fisher_jobdir_name_from_dvar1_dvar2(a, b)
        ctx.same(pair.setdefault(n, (a, b)), (a, b), "two-pairs-one-directory", name=n)
        ctx.same(tuple(fsu.get_dvar1_dvar2_from_fisher_jobdir_name(n)), (a, b), "pair-directory-name", name=n)
    for bad in ("", "dvar", "w0_step_p_1", "dvar_w0_step", "dvar_w0_step_p_", "dvar__step_p_1"):
        ctx.raises(lambda: fsu.get_dvar_step_from_cosmology_jobdir_name(bad), "not-a-job-directory-accepted", name=bad)
    for bad in ("", "w0", "w0_wa", "__wa"):
        ctx.raises(lambda: fsu.get_dvar1_dvar2_from_fisher_jobdir_name(bad), "not-a-pair-directory-accepted", name=bad)


def products(ctx):
    rng = ctx.rng
    for it in range(ctx.n(5, 30)):
        run = ctx.scratch("run")
        ws = WorkSpace(run)
        for d in ws.task_dirs.values():
            d.mkdir()
        pars = [PARS[k] for k in rng.permutation(len(PARS))[:int(rng.integers(1, 6))]]
        steps = [int(k) for k in rng.permutation(np.r_[-7:0, 1:8])[:int(rng.integers(1, 6))]]
        jobs = [("central", 0)] + list(itertools.product(pars, steps))
        for dvar, step in jobs:
            name = ("dvar_central_step_0" if dvar == "central" else f"dvar_{dvar}_step_{'m' if step < 0 else 'p'}_{abs(step)}")
            for top, file in ((ws.pmm_dir, "p_mm.h5"), (ws.cl_dir, str(rng.choice(["cls.h5", "cls_fiducial.h5", "cl_x.h5"])))):
                (top / name).mkdir()
                (top / name / file).write_text(f"{dvar} {step}")
                (top / name / "job.sh").write_text("")
                (top / name / "logfile_cls.log").write_text("")
        for dvar in pars:
            (ws.der_dir / dvar).mkdir()
            (ws.der_dir / dvar / f"cl_derivatives_{dvar}.h5").write_text(dvar)
            (ws.fish_elems_dir / f"{dvar}__{pars[0]}").mkdir()
        for top in ws.task_dirs.values():
            (top / "notes.txt").write_text("")
        ctx.case((it, ctx.round, tuple(sorted(pars)), len(steps)), {"parameters": pars, "steps": steps})
        for dvar, step in jobs:
            ctx.same(ws.getPowerSpectrumFile(dvar, step).read_text(), f"{dvar} {step}", "power-spectrum-file")
            ctx.same(ws.getClFile(dvar, step).read_text(), f"{dvar} {step}", "spectra-file")
        ctx.same(ws.collectPmmVariationParams(), set(pars) | {"central"}, "power-spectrum-parameters")
        ctx.same(ws.collectClVariationParams(), set(pars), "spectra-parameters")
        ctx.same(ws.collectDerivativeParams(), set(pars), "derivative-parameters")
        ctx.same({tuple(x) for x in ws.collectFisherParamsPairs()}, {(p, pars[0]) for p in pars}, "fisher-pairs")
        got = ws.collectClVariationDirectories()
        ctx.same(set(got), set(jobs) - {("central", 0)}, "variation-directories")
        for (dvar, step), d in got.items():
            ctx.same(next(Path(d).glob("cl*.h5")).read_text(), f"{dvar} {step}", "variation-directory-content")
        ctx.same({k: Path(v).read_text() for k, v in ws.collectClDerivativeFiles().items()}, {p: p for p in pars}, "derivative-files")
        # a file is written aside under a name of its own
        with fsu.written_aside(run / "same.h5") as t1, fsu.written_aside(run / "same.json") as t2:
            ctx.check(Path(t1) != Path(t2), "two-files-written-in-one")
            Path(t1).write_text("one")
            Path(t2).write_text("two")
        ctx.same([(run / n).read_text() for n in ("same.h5", "same.json")], ["one", "two"], "files-written-aside")
        # a job directory may be a link to another disk
        if it % 2:
            d = ws.pmm_dir / "dvar_h_step_p_3"
            real = run / "elsewhere"
            real.mkdir()
            d.exists() or d.symlink_to(real)
            ctx.same(ws.collectPmmVariationParams(), set(pars) | {"central", "h"}, "linked-power-spectrum-parameters")
        dvar, step = jobs[int(rng.integers(len(jobs)))]
        (ws.getClFile(dvar, step).parent / "cl_second.h5").write_text("")
        ctx.raises(lambda: ws.getClFile(dvar, step), "ambiguous-spectra-file-accepted")
        missing = next(p for p in PARS if p not in pars)
        ctx.raises(lambda: ws.getClFile(missing, 1), "missing-spectra-accepted")
        ctx.raises(lambda: ws.getClDerivativeFile(missing), "missing-derivative-accepted")
        for res, cosmo, sub in (("final_results", "w0_wa_CDM", "marg_before"), ("r2", "lcdm", "fixed")):
            ctx.same(Path(ws.getResultsDir(res, cosmo, sub)), run / res / cosmo / sub, "results-directory")
        ctx.same(ws.getRunMetadata(), {}, "no-metadata")
        meta = {"run_id": "x", "code_version": "1.3.8", "external_dirs": {}}
        ws.metadata_file.write_text(json.dumps(meta))
        ws.loadRunMetadata()
        ctx.same((ws.getRunMetadata(), ws.run_metadata), (meta, meta), "metadata")
        paths = [ws.niz_file, ws.delta_cls_file, ws.metadata_file, ws.auto_f_ells_file, ws.base_fishers_dir, ws.final_results_dir, ws.input_files_dir] + \
            list(ws.task_dirs.values())
        ctx.same(len(set(paths)), len(paths), "products-share-a-path")
        ctx.check(all(Path(p).parent == run for p in paths), "product-outside-the-run")


def external(ctx):
    rng = ctx.rng
    for it in range(ctx.n(8, 50)):
        base = ctx.scratch("ext")
        real = base / "deep" / "er" / "store"
        ext = {t: base / f"other_run{k}" / t for k, t in enumerate(TASKS)}
        for t, d in ext.items():
            d.mkdir(parents=True)
            (d / "what.txt").write_text(t)
            (d.parent / "delta_cls.h5").write_text("delta of " + t)
        real.mkdir(parents=True)
        (base / "short").symlink_to(real)
        (base / "linked_ext").symlink_to(ext["Fisher"])
        run = (base / "short" if it % 3 == 0 else real if it % 3 == 1 else base) / "run"
        run.mkdir()
        cwd = os.getcwd()
        try:
            os.chdir(base)
            mode = int(rng.integers(3))
            ws = WorkSpace(run if mode else os.path.relpath(run, base))
            present = [t for t in TASKS if rng.random() < .3]
            for t in present:
                (run / t).mkdir()
                (run / t / "mine.txt").write_text(t)
            want = {t: d for t, d in ext.items() if rng.random() < .8}
            given = {t: (d if rng.random() < .4 else Path(os.path.relpath(d, base)) if rng.random() < .5 else str(d)) for t, d in want.items()}
            if "Fisher" in given and rng.random() < .5:
                given["Fisher"] = base / "linked_ext"
            rel, link_delta = bool(rng.integers(2)), bool(rng.integers(2))
            ctx.case((it, ctx.round, mode, rel, tuple(sorted(want)), tuple(present)), {"run": str(run), "given": given})
            with ctx.op("link-external", given=given):
                ws.symlinkToExternalDirs(given, src_relative_to_rundir=rel, link_delta_cls=link_delta)
            ctx.raises(lambda: WorkSpace(run).symlinkToExternalDirs({"Nothing": ext["Angular"]}), "unknown-task-linked", exc=KeyError)
            had = sorted(p.name for p in run.iterdir())
            ctx.raises(lambda: WorkSpace(run).symlinkToExternalDirs({"Fisher": ext["Fisher"], "Nothing": ext["Angular"]}), "unknown-task-linked", exc=KeyError)
            ctx.same(sorted(p.name for p in run.iterdir()), had, "refused-links-made")
        finally:
            os.chdir(cwd)
        for t in TASKS:
            if t in present:
                ctx.same((run / t / "mine.txt").read_text() if (run / t / "mine.txt").is_file() else None, t, "existing-directory-replaced", task=t)
            elif t in want:
                ctx.check((run / t).is_dir() and (run / t).samefile(ext[t]), "external-directory-not-reached", task=t, run=str(run), given=given,
                          target=os.readlink(run / t) if (run / t).is_symlink() else None)
                if rel:
                    ctx.check(not os.path.isabs(os.readlink(run / t)), "link-not-relative", task=t)
            else:
                ctx.check(not os.path.lexists(run / t), "directory-nobody-asked-for", task=t)
        d = run / "delta_cls.h5"
        if "Angular" in want and "Angular" not in present and link_delta:
            ctx.same(d.read_text() if d.is_file() else None, "delta of Angular", "external-noisy-spectra")
        else:
            ctx.check(not os.path.lexists(d), "noisy-spectra-nobody-asked-for")
        for t, e in ext.items():
            ctx.same(sorted(p.name for p in e.iterdir()), ["what.txt"], "external-directory-changed", task=t)
        free = [t for t in TASKS if not os.path.lexists(run / t)]
        if free:
            ctx.raises(lambda: WorkSpace(run).symlinkToExternalDirs({free[0]: base / "nowhere"}), "missing-external-accepted", exc=FileNotFoundError)
            ctx.check(not os.path.lexists(run / free[0]), "link-to-nowhere")
        if rel:
            # everything moved together: relative links still lead to the same files
            moved = base.parent / (base.name + "_moved")
            shutil.move(str(base), str(moved))
            run2 = moved / run.relative_to(base) if it % 3 else moved / "deep" / "er" / "store" / "run"
            for t in want:
                if t not in present and given[t] != base / "linked_ext":
                    ctx.same((run2 / t / "what.txt").read_text() if (run2 / t / "what.txt").is_file() else None, t, "moved-link-broken", task=t)


SECTIONS = [inputs, job_names, products, external]
