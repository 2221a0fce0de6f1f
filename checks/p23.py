"""P23: a forecast runs every job it needs, in order, with its own configuration, and stops at the first that fails."""
import contextlib
import datetime
import itertools
import json
import os
import shutil
import time
from pathlib import Path
from unittest import mock

import numpy as np

from seyfert import VERSION
from seyfert.cosmology import redshift_density
from seyfert.fisher import fisher_utils
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.main import cl_core, orchestration, task_runners
from seyfert.utils import filesystem_utils as fsu, general_utils as gu
from seyfert.utils.workspace import WorkSpace
from vlib import scripts, world

PROPERTY = "P23"
LEVEL = "exploration"
RULE = ("random surveys are submitted through the real job_submitter and orchestrate_run scripts with stand-in programs on the PATH, which record the order, directory and "
        "arguments of their calls and fail at a random call; the record is compared with the jobs the forecast configuration asks for; "
        "distinct = tasks x execution x flags x failing call")
ASSUMPTIONS = ["the programs started by a run are stand-ins: what they compute is the subject of other properties",
               "the batch scheduler is the subject of P24"]
NEEDS = {"oracle.plan": 150, "oracle.failures": 60, "oracle.again": 60, "oracle.orchestrate": 100, "oracle.run_names": 120, "calls": 200, "failed_runs": 8, "ini_file": 1, "spaces": 1, "external_task": 1, "combinations": 7}
TASKS = ("PowerSpectrum", "Angular", "Derivative", "Fisher")
PROGRAM = {"PowerSpectrum": "compute_pmm", "Angular": "compute_cls", "Derivative": "compute_derivatives", "Fisher": "compute_fisher_matrix"}
FLAG = {"PowerSpectrum": "--powerspectrum", "Angular": "--angular", "Derivative": "--derivative", "Fisher": "--fisher"}
AUTO = {"phph", "spsp", "wlwl"}


class Bench:
    """a small survey, task configurations of its own, spectra and power spectra of an external run, and the programs"""

    def __init__(self, ctx, spaces=False, void=False):
        rng = ctx.rng
        name = "plain" if not spaces else str(rng.choice(["with a space", "a $HOME & 'b'; `c`"]))
        if "$" in name:
            ctx.saw("odd_names")
        self.base = ctx.scratch("b") / name
        self.base.mkdir()
        tools = ctx.scratch("t")
        self.venv = self.base / "an env"
        (self.venv / "bin").mkdir(parents=True)
        self.sourced = tools / "sourced"
        (self.venv / "bin" / "activate").write_text(f"echo x >> '{self.sourced}'\n")
        free = [n for n in ("w0", "wa", "Omm", "sigma8", "ns", "h") if rng.random() < .3] or ["w0"]
        n_steps = int(rng.integers(1, 3))
        self.s = s = world.Survey(self.base / "survey", n_bins={"WL": 1, "GCph": int(rng.integers(1, 3)), "GCsp": int(rng.integers(1, 3))}, n_ell=3,
                                  bases=tuple(sorted(rng.uniform(.005, .1, n_steps))), free=free, free_ia=bool(rng.integers(2)),
                                  probes=("WL", "GCph", "GCsp"))
        for p in s.cfg["cosmology"]["parameters"]:
            if p["is_free_parameter"] and len(free) > 1 and p["name"] == free[0] and rng.random() < .5:
                p["derivative_method"] = "ANALYTIC"
        if rng.random() < .4:
            s.cfg["probes"]["GCph"]["bias_derivative_method"] = "ANALYTIC"
        s.cfg["synthetic_opts"]["scenario"] = str(rng.choice(["optimistic", "pessimistic"]))
        s.write()
        self.fc = s.forecast_config()
        self.pars = self.fc.phys_pars
        self.configs = {}
        cfgdir = self.base / "configs"
        cfgdir.mkdir()
        from seyfert.utils import filesystem_utils as fsu
        tag = int(rng.integers(10 ** 6))
        src = s.task_files()
        for t in TASKS:
            self.configs[t] = cfgdir / f"{t.lower()}_{tag}.json"
            shutil.copy(src[t], self.configs[t])
        d = json.loads(self.configs["PowerSpectrum"].read_text())
        self.z_grid = d
        # an external run
        self.ext = self.base / "other_run"
        self.ext.mkdir()
        s.write_power_spectra(self.ext / "PowerSpectrum", self.pars)
        ws = s.make_workspace(self.base / "cl_run", pmm=False)
        (self.base / "cl_run" / "PowerSpectrum").symlink_to(self.ext / "PowerSpectrum")
        cosmo = cl_core.load_cosmology(ws, "central", 0, self.pars)
        cosmo.evaluateOverRedshiftGrid()
        dens = cl_core.compute_densities(self.fc.probe_configs, cosmo.z_grid)
        cls = cl_core.compute_cls(cosmo, self.pars, dens, self.fc, s.angular_config(), fiducial_cosmology=cosmo)
        self.cls_file = tools / "cl_central.h5"
        cls.saveToHDF5(self.cls_file)
        self.surface = {n: np.array(x.dN_dOmega_bins) if hasattr(x, "dN_dOmega_bins") else None for n, x in dens.items()}
        for t in ("Angular", "Derivative"):
            (self.ext / t / "dvar_central_step_0").mkdir(parents=True)
        shutil.copy(self.cls_file, self.ext / "Angular" / "dvar_central_step_0" / "cls.h5")
        (self.ext / "delta_cls.h5").write_text("external")
        self.progs = scripts.Programs(tools, list(PROGRAM.values()) + ["evaluate_final_results", "bsub", "bjobs"], does={
            "compute_cls": f'cp "{self.cls_file}" "$(opt --workdir)/cl_product.h5"',
            "compute_pmm": 'touch "$(opt --workdir)/p_mm.h5"',
            "compute_derivatives": 'touch "$(opt --workdir)/cl_derivatives_x.h5"',
            "compute_fisher_matrix": 'mkdir -p "$(opt --rundir)/base_fishers"; touch "$(opt --rundir)/auto_fisher_of_ells.h5" "$(opt --rundir)/base_fishers/fisher_x.hdf5"',
            "evaluate_final_results": 'mkdir -p "$(opt -i)/final_results"; touch "$(opt -i)/final_results/new.csv"'})

    # ---- what the configuration asks for
    def jobs(self, task):
        if task in ("PowerSpectrum", "Angular"):
            pars = self.cosmo_free() if task == "PowerSpectrum" else self.free()
            n = len(self.s.cfg["derivative_settings"]["base_stem_disps"])
            stem = [p for p in pars if self.pars[p].derivative_method == "SteM"]
            return {"dvar_central_step_0"} | {f"dvar_{p}_step_{sg}_{k}" for p in stem for sg in "pm" for k in range(1, n + 1)}
        if task == "Derivative":
            return set(self.free())
        return set()

    def free(self):
        out = [p["name"] for p in self.s.cfg["cosmology"]["parameters"] if p["is_free_parameter"]]
        for n, p in self.pars.items():
            if n not in out and p.is_nuisance and p.is_free_parameter:
                out.append(n)
        return out

    def cosmo_free(self):
        return [p["name"] for p in self.s.cfg["cosmology"]["parameters"] if p["is_free_parameter"]]

    def argv(self, tasks, execution, extra=(), ext=None, fcfg=True):
        out = ["-ex", execution, "-i", self.s.data]
        if fcfg:
            out += ["-fcfg", self.s.fcfg_file]
        for t in TASKS:
            out += [f"--{t.lower()}_config", self.configs[t]]
            if t in tasks:
                out += [FLAG[t]]
            elif ext and t in ext:
                out += [f"--{t.lower()}_dir", ext[t]]
        return out + list(extra)

    def submit(self, argv, cwd, **env):
        with self.progs.on_path(SEYFERT_INPUT_DATA=self.s.data, **env):
            return scripts.run("job_submitter", argv, cwd)


_PARSERS = {}


def parsed(program, argv):
    if program not in _PARSERS:
        _PARSERS[program] = scripts.parser(program)
    return vars(_PARSERS[program].parse_args(argv))


def config(file):
    """the settings of a task configuration file"""
    d = json.loads(Path(file).read_text()) if Path(file).is_file() else {}
    d.pop("config_type", None)
    return d


def new_dirs(workdir, before):
    return [d for d in Path(workdir).iterdir() if d.is_dir() and d not in before]


def ist_pk(scenario):
    """parameters and matrix of the published power spectrum forecast of a scenario"""
    lines = [x.split() for x in (fsu.default_data_dir() / "ist_fishers" / "w0_wa_CDM" / f"EuclidISTF_GCsp_w0wa_flat_{scenario}.txt").read_text().splitlines() if x.strip()]
    names = {"Omegam": "Omm", "Omegab": "Omb"}
    return [names.get(n, n) for n in lines[0]], np.array(lines[1:], float)


def judge_dir(ctx, b, run, tasks, ext, where):
    """what a submission leaves in the run directory, executed or not"""
    for t in TASKS[:3]:
        d = run / t
        if t in tasks:
            ctx.same({x.name for x in d.iterdir() if x.is_dir()}, b.jobs(t), "job-directories", where=where, task=t)
            for j in d.iterdir():
                ctx.same(config(j / b.configs[t].name), config(b.configs[t]), "job-configuration", where=where, task=t, job=j.name)
                scr = list(j.glob("*.sh"))
                ctx.check(len(scr) >= 1 and all(os.access(x, os.X_OK) for x in scr), "job-script", where=where, job=j.name)
        elif t in ext:
            ctx.check(d.is_symlink() and d.is_dir() and d.samefile(ext[t]), "external-task", where=where, task=t)
        else:
            ctx.check(not os.path.lexists(d), "directory-of-an-absent-task", where=where, task=t)
    ws = WorkSpace(run)
    ctx.same(json.loads(ws.getForecastConfigFilePath().read_text()), b.s.cfg, "run-keeps-its-forecast-configuration", where=where)
    for t in TASKS:
        ctx.same(json.loads(ws.getTaskJSONPath(t).read_text()), json.loads(b.configs[t].read_text()), "run-keeps-its-task-configuration", where=where, task=t)


def judge_calls(ctx, b, run, tasks, calls, where, complete=True, flags=None, removed=False):
    """the record of the programs against the plan: each job once, in its directory, with its configuration, tasks one after the other"""
    ctx.saw("calls", len(calls))
    stage = [c[0] for c in calls]
    order = [PROGRAM[t] for t in TASKS] + ["evaluate_final_results"]
    ctx.check(all(x in order for x in stage), "unplanned-program", where=where, programs=sorted(set(stage)))
    ctx.same(stage, sorted(stage, key=order.index), "tasks-not-one-after-the-other", where=where)
    done = {}
    fish = []
    for name, cwd, argv in calls:
        if name in ("compute_pmm", "compute_cls", "compute_derivatives"):
            a = parsed(name, argv)
            t = next(t for t in TASKS if PROGRAM[t] == name)
            job = (run / t) / cwd.name
            ctx.same(cwd.resolve(), job.resolve(), "job-runs-elsewhere", where=where)
            ctx.same((cwd / a["workdir"]).resolve(), job.resolve(), "job-told-another-directory", where=where, argv=argv)
            ctx.check((cwd / a["rundir"]).samefile(run), "job-told-another-run", where=where, argv=argv)
            if job.is_dir() or not removed:
                ctx.same(config(cwd / a["workdir"] / a["main_config"]), config(b.configs[t]), "job-told-another-configuration", where=where, argv=argv)
            ctx.check(a["logfile"] is not None, "job-without-log", where=where)
            done.setdefault(t, []).append(cwd.name)
        elif name == "compute_fisher_matrix":
            a = parsed(name, argv)
            ctx.check((cwd / a["rundir"]).samefile(run), "fisher-told-another-run", where=where, argv=argv)
            fish += a["fisher_data_vectors"]
        else:
            a = parsed(name, argv)
            ctx.check(len(a["input_rundirs"]) == 1 and (cwd / a["input_rundirs"][0]).samefile(run), "results-of-another-run", where=where, argv=argv)
            ctx.same(a["execution"], "interactive", "results-execution", where=where)
            if flags is not None:
                ctx.same(a["overwrite"], flags["overwrite"], "results-overwrite", where=where)
    for t in TASKS[:3]:
        got = done.get(t, [])
        if complete:
            ctx.same(sorted(got), sorted(b.jobs(t)) if t in tasks else [], "jobs-run", where=where, task=t)
        else:
            ctx.check(len(set(got)) == len(got) and set(got) <= b.jobs(t), "job-run-twice", where=where, task=t, jobs=got)
    if complete:
        want = [v.toBriefString() for v in fisher_utils.load_selected_data_vectors()] if "Fisher" in tasks else []
        ctx.same(sorted(fish), sorted(want), "fisher-matrices", where=where)
        ctx.same(stage.count("evaluate_final_results"), int("Fisher" in tasks), "results-once", where=where)
    if len(fish) >= 3:
        ctx.same(set(fish[:3]), AUTO, "autos-before-combinations", where=where)


def judge_common(ctx, b, run, tasks, where):
    """densities and noisy spectra of a run which has computed its Cls"""
    ws = WorkSpace(run)
    if "Angular" in tasks:
        with ctx.op("densities-and-noisy-spectra", where=where):
            dens = redshift_density.load_densities_from_file(ws.niz_file)
            ctx.same(set(dens), {world.LONG[p] for p in b.s.probes}, "densities", where=where)
            from seyfert.fisher.delta_cl import DeltaClCollection
            got = DeltaClCollection.fromHDF5(ws.delta_cls_file)
            want = cl_core.compute_delta_cls(ws)
            ctx.same(set(got.keys()) if hasattr(got, "keys") else None, set(want.keys()) if hasattr(want, "keys") else None, "noisy-spectra", where=where)
            for k in want.single_blocks:
                ctx.close(got.single_blocks[k].delta_c_lij, want.single_blocks[k].delta_c_lij, "noisy-spectrum", rtol=1e-13, where=where, key=k)
    ctx.check(not list(run.glob(".*tmp*")) and not list(run.glob("*tmp*")), "temporary-files-left", where=where)


@contextlib.contextmanager
def long_run(b, hours):
    """the first program of a run takes so many hours"""
    real, clock = datetime.datetime, time.time

    class Later(real):
        @classmethod
        def now(cls, tz=None):
            return real.now(tz) + datetime.timedelta(hours=hours if b.progs.log.is_file() else 0)
    with mock.patch.object(datetime, "datetime", Later), mock.patch.object(time, "time", lambda: clock() + (3600 * hours if b.progs.log.is_file() else 0)):
        yield


def judge_meta(ctx, b, run, run_id, ext, where, done, hours=0):
    m = WorkSpace(run).getRunMetadata()
    ctx.same(m.get("run_id"), run_id, "metadata-id", where=where)
    ctx.same(m.get("code_version"), VERSION, "metadata-version", where=where)
    ctx.same(set(m.get("external_dirs", {})), set(ext), "metadata-external-directories", where=where)
    for t, d in m.get("external_dirs", {}).items():
        ctx.check(t in ext and Path(d).resolve() == Path(ext[t]).resolve(), "metadata-external-directory", where=where, task=t, recorded=d)
    if done:
        t0, t1 = (datetime.datetime.strptime(m[k], "%Y-%m-%dT%H:%M:%S") for k in ("start_time", "end_time"))
        ctx.check(t0 <= t1 and abs((datetime.datetime.now() + datetime.timedelta(hours=hours) - t1).total_seconds()) < 600, "metadata-times", where=where, metadata=m)
        ctx.check((t1 - t0).total_seconds() >= 3600 * hours, "metadata-times", where=where, metadata=m)
        h, mi, se = (int(m["duration"].split()[k][:-1]) for k in range(3))
        ctx.check(abs((t1 - t0).total_seconds() - (3600 * h + 60 * mi + se)) <= 2, "metadata-duration", where=where, metadata=m)


def _tasks(kind, b):
    """a task set that can run, and the external directories it needs"""
    tasks = {0: TASKS, 1: TASKS[1:], 2: TASKS[:1], 3: ("Angular",), 4: ("Derivative", "Fisher"), 5: ("Fisher",), 6: ("Angular", "Derivative")}[kind]
    ext = {t: b.ext / t for t in TASKS[:3] if t not in tasks}
    if kind == 2:
        ext = {}
    return tasks, ext


def plan(ctx):
    rng = ctx.rng
    for it in range(ctx.n(5, 30)):
        b = Bench(ctx, spaces=it % 3 == 1)
        if it % 3 == 1:
            ctx.saw("spaces")
        tasks, ext = _tasks((it + 5 * ctx.round) % 7, b)
        if ext:
            ctx.saw("external_task")
        execution = "no" if it % 4 == 3 else "interactive"
        keep, test, verbose = bool(rng.integers(2)), bool(rng.integers(2)), bool(rng.integers(2))
        run_id = None if rng.random() < .4 else f"id{int(rng.integers(1000))}"
        extra = (["--keep_cl_variations"] if keep else []) + (["--test"] if test else []) + (["--verbose"] if verbose else [])
        if run_id:
            extra += ["--run_id", run_id]
        work = b.base / "work"
        work.mkdir()
        argv = b.argv(tasks, execution, extra, ext)
        if it % 5 in (2, 4):
            # the same settings, in an ini file: they have the last word
            ctx.saw("ini_file")
            ini = b.base / "run.ini"
            text = "[config]\n" + f"execution = {execution}\n" + f"input_data_dir = {b.s.data}\nforecast_config = {b.s.fcfg_file}\n"
            for t in TASKS:
                text += f"{t.lower()} = {t in tasks}\n{t.lower()}_config = {b.configs[t]}\n"
                if t in ext:
                    text += f"{t.lower()}_dir = {ext[t]}\n"
            text += f"keep_cl_variations = {keep}\ntest = {test}\nmemory = 1234\nn_cores_per_job = 3\n" + (f"run_id = {run_id}\n" if run_id else "")
            ini.write_text(text)
            argv = ["-ex", "batch" if rng.random() < .5 else "no", "--memory", 7, "--ini_file", ini] + (["--fisher"] if rng.random() < .5 else [])
        where = dict(tasks=tasks, execution=execution, keep=keep, test=test, ini="ini" if it % 5 in (2, 4) else "", run_id=run_id)
        ctx.case((it, ctx.round, tasks, execution, keep, test), where)
        stale = None
        name = f"{run_id or b.fc.getConfigID() or 'run_seyfert'}_{VERSION}"
        if test:
            stale = work / name
            (stale / "Angular").mkdir(parents=True)
            (stale / "old.txt").write_text("")
        before = {d for d in work.iterdir() if d != stale}
        venv = bool(rng.integers(2))
        hours = 0 if execution == "no" or it % 2 else 27 if it == 0 else int(rng.choice([0, 23, 25, 50]))
        with ctx.op("submit", where=where), long_run(b, hours) if hours else contextlib.nullcontext():
            b.submit(argv, work, **({"VIRTUAL_ENV": b.venv} if venv else {}))
        n_jobs = sum(len(b.jobs(t)) for t in tasks)
        ctx.same(len(b.sourced.read_text().split()) if b.sourced.exists() else 0, n_jobs if venv and execution != "no" else 0, "jobs-in-the-virtual-environment", where=where, venv=venv)
        dirs = new_dirs(work, before)
        ctx.same(len(dirs), 1, "one-run-directory", where=where)
        run = dirs[0]
        if test:
            ctx.same(run.name, name, "test-run-name", where=where)
            ctx.check(not (run / "old.txt").exists(), "test-run-not-fresh", where=where)
        else:
            got = gu.split_run_id(run.name)
            ctx.check(run.name.startswith(name + "_") and got[0] == name[:-len(VERSION) - 1] and got[1] == VERSION, "run-name", where=where, name=run.name, split=got)
        ctx.check(len(list(run.glob("logfile*.log"))) == 1 and not list(work.glob("logfile*")), "log-of-the-run", where=where)
        calls = b.progs.calls()
        if execution == "no":
            ctx.same(calls, [], "programs-of-a-run-not-executed", where=where)
            judge_dir(ctx, b, run, tasks, ext, where)
        else:
            judge_calls(ctx, b, run, tasks, calls, where, flags={"overwrite": False}, removed=not keep)
            judge_common(ctx, b, run, tasks, where)
            if keep or "Angular" not in tasks:
                judge_dir(ctx, b, run, tasks, ext, where)
            else:
                ctx.same({x.name for x in (run / "Angular").iterdir()}, {"dvar_central_step_0"}, "variations-removed", where=where)
                ctx.check((run / "Angular" / "dvar_central_step_0" / "cl_product.h5").is_file(), "central-spectra-removed", where=where)
        judge_meta(ctx, b, run, name, ext, where, True, hours)
        if not test and it % 2:
            # a directory of that name is there already: it belongs to another run
            now = datetime.datetime.now()
            taken = [work / f"{name}_{now + datetime.timedelta(seconds=k):%Y-%m-%dT%H-%M-%S}" for k in range(40)]
            taken = [d for d in taken if not d.exists()]
            for d in taken:
                d.mkdir()
            ctx.raises(lambda: b.submit(b.argv(tasks, "no", ["--run_id", run_id] if run_id else [], ext), work), "run-in-the-directory-of-another", where=where)
            ctx.check(not any(list(d.iterdir()) for d in taken), "run-in-the-directory-of-another", where=where)
            ctx.saw("name_taken")
        ctx.check(all((b.ext / t).is_dir() and not (b.ext / t / "x").exists() for t in TASKS[:3]), "external-run-changed")


# the shell that runs the job is killed, as by a system out of memory: no message, a signal instead of an exit status
KILL_SHELL = 'case "$(tr "\\0" " " < /proc/$PPID/cmdline)" in *job_*.sh*) kill -9 $PPID ;; esac; kill -9 $$'


def failures(ctx):
    rng = ctx.rng
    # one command: whatever is not an exit with status 0 and an empty error output is a failure
    d = ctx.scratch()
    for it in range(ctx.n(3, 20)):
        f = d / f"job_{it}.sh"
        for what, good in (("true", True), ("exit 0", True), ("echo done", True), ("exit %d" % rng.integers(1, 256), False), ("kill -%s $$" % rng.choice(["KILL", "TERM", "SEGV", "ABRT", "HUP"]), False),
                           ("echo done; kill -9 $$", False), ("echo no >&2", False), ("/nothing/here", False)):
            f.write_text(f"#!/bin/bash\nulimit -c 0\n{what}\n")
            f.chmod(0o755)
            for cmd in (f"exec {f}", str(f), f"bash {f}", f"exec bash {f} a b"):
                ctx.case(("command", what, cmd.split(str(d))[0]))
                if good:
                    with ctx.op("command-that-succeeds"):
                        task_runners.TaskRunner.executeCommand(cmd)
                else:
                    ctx.raises(lambda: task_runners.TaskRunner.executeCommand(cmd), "failed-command-unnoticed", body=what, command=cmd)
    hows = ["exit 3", "echo trouble >&2; exit 0", "echo trouble >&2; exit 1", "kill -9 $$", "exit 127", KILL_SHELL]
    for it in range(ctx.n(4, 24)):
        b = Bench(ctx)
        tasks = TASKS if it % 2 == 0 else ("Angular", "Derivative", "Fisher")
        ext = {} if it % 2 == 0 else {"PowerSpectrum": b.ext / "PowerSpectrum"}
        where0 = dict(tasks=tasks)
        work = b.base / "work"
        work.mkdir()
        b.submit(b.argv(tasks, "interactive", ["--run_id", "good", "--keep_cl_variations"], ext), work)
        ref = b.progs.calls()
        judge_calls(ctx, b, new_dirs(work, set())[0], tasks, ref, where0)
        points = sorted({int(k) for k in rng.integers(len(ref), size=3)} | {len(ref) - 1, 0, len(ref) - 2})
        for n, k in enumerate(points):
            name, cwd, argv = ref[k]
            part = f'" {name} "*"/{cwd.name} "*' if name in list(PROGRAM.values())[:3] else f'" {name} "*' + (f'"{argv[0]} "*' if name == "compute_fisher_matrix" else "")
            how = hows[int(rng.integers(len(hows)))]
            if name == "evaluate_final_results" and "exit 0" in how:
                how = "exit 2"
            b.progs.fail(part, how)
            where = dict(where0, failing=(name, cwd.name), how=how, position=k, of=len(ref))
            ctx.case((it, ctx.round, name, how, k), where)
            before = set(work.iterdir())
            raised = None
            try:
                b.submit(b.argv(tasks, "interactive", ["--run_id", f"bad{n}", "--keep_cl_variations"], ext), work)
            except SystemExit as e:
                raised = e
            except Exception as e:  # noqa: BLE001
                raised = e
            ctx.saw("failed_runs")
            ctx.check(raised is not None, "failed-job-goes-unnoticed", where=where)
            run = new_dirs(work, before)[0]
            calls = b.progs.calls()
            judge_calls(ctx, b, run, tasks, calls, where, complete=False)
            ctx.same((calls[-1][0], calls[-1][1].name if name in list(PROGRAM.values())[:3] else 0), (name, cwd.name if name in list(PROGRAM.values())[:3] else 0),
                     "jobs-after-the-failed-one", where=where)
            m = WorkSpace(run).getRunMetadata()
            ctx.check("end_time" not in m, "failed-run-looks-complete", where=where, metadata=m)
            b.progs.fail()
            # the same run directory, once the trouble is over
            with ctx.op("run-again", where=where):
                b.submit(b.argv(tasks, "interactive", ["--rundir", run, "--keep_cl_variations"], ext), work)
            judge_calls(ctx, b, run, tasks, b.progs.calls(), where)
            judge_common(ctx, b, run, tasks, where)
            judge_meta(ctx, b, run, f"bad{n}_{VERSION}", ext, where, True)
            ctx.same(set(new_dirs(work, before)), {run}, "another-run-directory", where=where)


def again(ctx):
    """the tasks of one run directory, one submission after the other, and overwriting"""
    rng = ctx.rng
    for it in range(ctx.n(4, 20)):
        b = Bench(ctx, spaces=it % 4 == 2)
        work = b.base / "work"
        work.mkdir()
        ext = {"PowerSpectrum": b.ext / "PowerSpectrum"}
        where = dict(it=it)
        ctx.case((it, ctx.round), where)
        b.submit(b.argv(("Angular",), "interactive", ["--run_id", "steps", "--keep_cl_variations"], ext), work)
        run = new_dirs(work, set())[0]
        judge_calls(ctx, b, run, ("Angular",), b.progs.calls(), where)
        first = WorkSpace(run).niz_file.read_bytes()
        # the original configurations change: the run goes on with its own
        cfg = json.loads(b.s.fcfg_file.read_text())
        other = b.base / "survey" / "forecast_config_changed.json"
        seq = [("Derivative",), ("Fisher",), ("Angular",), ("Derivative", "Fisher"), ("Angular", "Derivative", "Fisher")]
        for tasks in [seq[int(k)] for k in rng.permutation(len(seq))]:
            flag = bool(rng.integers(2))
            ow = flag and "Fisher" in tasks
            ws = WorkSpace(run)
            ws.base_fishers_dir.mkdir(exist_ok=True)
            (ws.base_fishers_dir / "fisher_old.hdf5").write_text("old")
            ws.auto_f_ells_file.write_text("old")
            ws.final_results_dir.mkdir(exist_ok=True)
            (ws.final_results_dir / "old.csv").write_text("old")
            where = dict(tasks=tasks, overwrite=ow)
            with ctx.op("submit-again", where=where):
                argv = b.argv(tasks, "interactive", ["--rundir", run, "--keep_cl_variations"] + (["--overwrite_results"] if flag else []), ext, fcfg=bool(rng.integers(2)))
                b.submit(argv, work)
            judge_calls(ctx, b, run, tasks, b.progs.calls(), where, flags={"overwrite": ow})
            judge_common(ctx, b, run, tasks, where)
            gone = {x: not (ws.run_dir / x).exists() or (ws.run_dir / x).read_text() != "old" for x in ("base_fishers/fisher_old.hdf5", "final_results/old.csv")}
            ctx.same(gone, {"base_fishers/fisher_old.hdf5": ow, "final_results/old.csv": ow}, "overwrite-results", where=where)
            if ow:
                ctx.check(not ws.auto_f_ells_file.exists() or ws.auto_f_ells_file.read_text() != "old", "overwrite-auto-fishers", where=where)
            elif "Fisher" not in tasks:
                ctx.check(ws.auto_f_ells_file.read_text() == "old", "auto-fishers-lost", where=where)
            if "Fisher" in tasks:
                pk = [FisherMatrix.fromHDF5(f) for f in ws.base_fishers_dir.glob("fisher_IST*.hdf5")]
                ctx.same(len(pk), 1, "ist-fisher", where=where)
                names, want = ist_pk(b.fc.scenario)
                for F in pk:
                    ctx.same(sorted(F.physical_parameters), sorted(names), "ist-fisher-parameters", where=where)
                    ctx.close(np.sort(np.array(F.matrix, float).ravel()), np.sort(want.ravel()), "ist-fisher-of-the-scenario", rtol=1e-11, where=where, scenario=b.fc.scenario)
            judge_meta(ctx, b, run, f"steps_{VERSION}", ext, where, True)
            ctx.same({d.name for d in work.iterdir()}, {run.name}, "another-run-directory", where=where)
            judge_dir(ctx, b, run, {t for t in ("Angular", "Derivative") if (run / t).is_dir() and not (run / t).is_symlink()}, ext, where)


def orchestrate(ctx):
    rng = ctx.rng
    for it in range(ctx.n(5, 24)):
        base = ctx.scratch("o")
        if it % 3 == 1:
            base = base / "with a space"
            base.mkdir()
        data = base / "data"
        own = base / "own_data"
        data.mkdir()
        own.mkdir()
        progs = scripts.Programs(base, ["job_submitter"], does={"job_submitter": f'mkdir -p "$PWD/$(opt -id)_{VERSION}_2026-01-01T00-00-0$(( $(ls -d "$PWD/$(opt -id)_{VERSION}_"* 2>/dev/null | wc -l) ))"'})
        work = base / "work"
        work.mkdir()
        cfg = base / "cfgs"
        cfg.mkdir()
        one = {}
        for k in ("powerspectrum", "angular", "derivative", "fisher", "results"):
            one[k] = cfg / f"{k}_cfg.json"
            one[k].write_text(json.dumps({"which": k}))
        argv0 = list(itertools.chain(*[(f"--{k}_config", f) for k, f in one.items()]))
        with progs.on_path(SEYFERT_INPUT_DATA=data):
            scripts.run("orchestrate_run", ["--create_config"] + argv0, work)
        tree = {str(p.relative_to(work / "config")) for p in (work / "config").rglob("*.json")}
        ctx.same(tree, {"external_dirs.json"} | {f"{d}/{one[k].name}" for d, k in (("pmm_cfg", "powerspectrum"), ("cl_cfg", "angular"), ("der_cfg", "derivative"),
                                                                                ("fish_cfg", "fisher"), ("res_cfg", "results"))}, "configuration-tree")
        n_f, n_pmm = int(rng.integers(1, 4)), int(rng.integers(1, 3)) if it != 1 else 2
        n_cl, n_fish = [(2, 2), (1, 2), (2, 1), (1, 1), (2, 3)][it % 5]
        tasks = [t for t in ("angular", "derivative", "fisher") if rng.random() < .6 or (it == 1 and t == "angular")] or ["fisher"]
        fcfgs = []
        bins = rng.permutation(np.r_[4, 9, 12, 24, 40])[:n_f]
        for k in range(n_f):
            f = work / "config" / "fcfg" / f"opt_{bins[k]}_sp_bins.json"
            f.write_text("{}")
            fcfgs.append(f)
        for k in range(1, n_cl):
            (work / "config" / "cl_cfg" / f"cl_more{k}.json").write_text("{}")
        for k in range(1, n_fish):
            (work / "config" / "fish_cfg" / f"fish_more{k}.json").write_text("{}")
        cls_, fishs = list((work / "config" / "cl_cfg").glob("*.json")), list((work / "config" / "fish_cfg").glob("*.json"))
        argv = ["-ex", "interactive", "-q", "short", "-mem", 512, "-ncj", 2] + [f"--{t}" for t in tasks]
        pmms = [None]
        if "angular" in tasks:
            pmms = []
            for k in range(n_pmm):
                d = base / "spectra" / f"pmm{k}_1.2.{10 + k}_2025-01-0{k + 1}T00-00-00" / "PowerSpectrum"
                if it % 2:
                    # not of a run directory: known by its own name
                    d = base / "spectra" / f"euclid_pmm_v{k}"
                d.mkdir(parents=True)
                pmms.append(d)
            lst = base / "pmms.txt"
            lst.write_text("".join(rng.choice(["", "  ", "\t"]) + str(p) + rng.choice(["\n", " \n"]) for p in pmms) + "\n\n")
            argv += ["-pmms", lst if n_pmm > 1 or rng.random() < .5 else pmms[0]]
        own_data = bool(rng.integers(2))
        if own_data:
            argv += ["-i", own]
        ini = None
        if rng.random() < .5:
            ini = base / "inis" / "camb.ini"
            ini.parent.mkdir()
            ini.write_text("h = 0.7\n")
            argv += ["-ini", ini]
        extf = None
        if rng.random() < .5:
            (work / "config" / "external_dirs.json").write_text(json.dumps({"pmm_dir": None, "cl_dir": None, "der_dir": str(base / "ext_der")}))
            extf = base / "ext_der"
        flags = ["test", "overwrite_results"] if rng.random() < .5 else []
        if flags:
            argv += ["-af"] + flags
        if rng.random() < .4:
            fcfgs = fcfgs[:1] + [cfg / "extra_fc.json"]
            (cfg / "extra_fc.json").write_text("{}")
            argv += ["-fcfgs"] + fcfgs
        decoys = [f"{fcfgs[0].stem}0_{VERSION}_2025-01-01T00-00-00", f"{fcfgs[0].stem}_extra_{VERSION}_2025-01-01T00-00-00", "notes"]
        for d in decoys:
            (work / d).mkdir()
        where = dict(tasks=tasks, forecasts=len(fcfgs), spectra=len(pmms), fishers=n_fish, angular=n_cl, flags=flags, own_data=own_data)
        ctx.case((it, ctx.round, tuple(tasks), len(fcfgs), len(pmms), n_cl, n_fish), where)
        with ctx.op("orchestrate", where=where), progs.on_path(SEYFERT_INPUT_DATA=data):
            scripts.run("orchestrate_run", argv, work)
        calls = progs.calls()
        with progs.on_path(SEYFERT_INPUT_DATA=data):
            got = [parsed("job_submitter", c[2]) for c in calls]
        want = set(itertools.product(map(str, fcfgs), map(str, cls_), map(str, fishs), map(str, pmms)))
        key = lambda a: (str(a["forecast_config"]), str(a["angular_config"]), str(a["fisher_config"]), str(a["powerspectrum_dir"]))
        ctx.same(sorted(map(key, got)), sorted(want), "combinations-run", where=where)
        ctx.saw("combinations", len(got))
        ids = [a["run_id"] for a in got]
        ctx.same(len(set(ids)), len(want), "two-runs-one-id", where=where, ids=ids)
        for a in got:
            ctx.same({t: a[t] for t in ("powerspectrum", "angular", "derivative", "fisher")},
                     {t: t in tasks for t in ("powerspectrum", "angular", "derivative", "fisher")}, "tasks-asked", where=where)
            ctx.same((a["execution"], a["queue"], a["memory"], a["n_cores_per_job"]), ("interactive", "short", 512, 2), "settings-of-the-runs", where=where)
            ctx.same((a["test"], a["overwrite_results"]), (bool(flags), bool(flags)), "flags-of-the-runs", where=where)
            ctx.same(Path(a["input_data_dir"]), own if own_data else data, "input-data-of-the-runs", where=where)
            ctx.same(a["derivative_dir"] and Path(a["derivative_dir"]), extf, "external-directory-of-the-runs", where=where)
            ctx.same(a["ini_file"] and Path(a["ini_file"]), ini, "ini-file-of-the-runs", where=where)
            for k, d in (("powerspectrum", "pmm_cfg"), ("derivative", "der_cfg"), ("results", "res_cfg")):
                ctx.same(Path(a[k + "_config"]), work / "config" / d / one[k].name, "configuration-of-the-runs", where=where)
        if all("sp_bins" in f.name for f in fcfgs):
            nb = [int(Path(a["forecast_config"]).name.split("_")[1]) for a in got]
            ctx.same(nb, sorted(nb), "order-of-the-runs", where=where)
        lst = list(work.glob("rundirs_*.json"))
        ctx.same(len(lst), 1, "list-of-run-directories", where=where)
        made = {str(d) for d in work.iterdir() if d.is_dir() and d.name not in decoys + ["config"]}
        ctx.same(set(json.loads(lst[0].read_text())), made, "run-directories-listed", where=where)
        # existing run directories
        runs = []
        for k in range(int(rng.integers(1, 4))):
            s = world.Survey(base / f"s{k}", n_bins={p: 1 for p in world.LONG}, n_ell=3)
            s.make_workspace(base / f"existing{k}")
            runs.append((base / f"existing{k}", s))
        argv = ["-ex", "no", "-rds"] + [r for r, _ in runs] + [f"--{t}" for t in tasks] + (["-i", own] if own_data else []) + (["-ini", ini] if ini else [])
        argv += ["-q", "long", "-mem", 777, "-ncj", 3] + (["-af"] + flags if flags else [])
        if "angular" in tasks:
            argv += ["-pmms", pmms[0]]
        with ctx.op("orchestrate-existing", where=where), progs.on_path(SEYFERT_INPUT_DATA=data):
            scripts.run("orchestrate_run", argv, work)
        calls = progs.calls()
        ctx.same(len(calls), len(runs), "existing-runs", where=where)
        for (r, s), c in zip(runs, calls):
            with progs.on_path(SEYFERT_INPUT_DATA=data):
                a = parsed("job_submitter", c[2])
            ctx.check(Path(a["rundir"]).samefile(r), "existing-run-directory", where=where)
            ctx.check(Path(a["input_data_dir"]).samefile(own if own_data else s.data), "input-data-of-an-existing-run", where=where, got=str(a["input_data_dir"]))
            ctx.same(a["ini_file"] and Path(a["ini_file"]), ini, "ini-file-of-an-existing-run", where=where)
            ctx.same((a["execution"], a["queue"], a["memory"], a["n_cores_per_job"], a["test"], a["overwrite_results"]), ("no", "long", 777, 3, bool(flags), bool(flags)),
                     "settings-of-an-existing-run", where=where)
            ws = WorkSpace(r)
            for t in TASKS:
                ctx.check(Path(a[t.lower() + "_config"]).samefile(ws.getTaskJSONPath(t)), "configuration-of-an-existing-run", where=where, task=t)
            ctx.same({t: a[t] for t in ("angular", "derivative", "fisher")}, {t: t in tasks for t in ("angular", "derivative", "fisher")}, "tasks-of-an-existing-run")


def run_names(ctx):
    rng = ctx.rng
    names = ["opt", "opt_4_sp_bins", "a_1.2.3", "x_2026", "run_seyfert", "p_1.10.2_b", "w0_wa"]
    for it in range(ctx.n(60, 600)):
        n = str(rng.choice(names)) + (f"_{int(rng.integers(99))}" if rng.random() < .3 else "")
        v = ".".join(str(int(x)) for x in rng.integers(0, 14, 3)) + ("dev" if rng.random() < .3 else "")
        t = datetime.datetime(2020, 1, 1) + datetime.timedelta(seconds=int(rng.integers(3 * 10 ** 8)))
        full = f"{n}_{v}_{t:%Y-%m-%dT%H-%M-%S}"
        ctx.case((n, v), full)
        ctx.same(tuple(gu.split_run_id(full)), (n, v, t), "run-name-split", name=full)
        ctx.same(tuple(gu.split_run_id(n)), (n, None, None), "name-without-version", name=n)
        ctx.same(tuple(gu.split_run_id(f"{n}_{v}")), (f"{n}_{v}", None, None), "name-without-time", name=n)
    for it in range(ctx.n(10, 60)):
        work = ctx.scratch("w")
        ids = [f"{rng.choice(['a', 'ab', 'a_b', 'a_1'])}" for _ in range(int(rng.integers(1, 4)))]
        allids = ["a", "ab", "a_b", "a_1", "b", "a_1.3", "a_b_c"]
        want = set()
        for i in allids:
            for suf in ("", "_2026-01-01T00-00-00"):
                (work / f"{i}_{VERSION}{suf}").mkdir()
                if i in ids:
                    want.add(f"{i}_{VERSION}{suf}")
            (work / f"{i}_{VERSION}0").mkdir()
            (work / f"{i}_{VERSION}0_2026-01-01T00-00-00").mkdir()
        (work / f"{ids[0]}_{VERSION}_x.json").write_text("")
        got = orchestration.collect_rundirs(work, list(ids))
        ctx.same(sorted(p.name for p in got), sorted(want), "run-directories-of-ids", ids=ids)
        ctx.same(orchestration.collect_rundirs(work, []), [], "run-directories-of-nothing")


SECTIONS = [plan, failures, again, orchestrate, run_names]
