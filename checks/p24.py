"""P24: batch jobs are submitted as asked, waited for until each is done, and their failures noticed and reported."""
import datetime
import json
import re
import shutil
import subprocess
import sys
import time
from pathlib import Path
from unittest import mock

import numpy as np

from checks import p23
from seyfert.main import bsub_utils
from seyfert.main.bsub_utils import BsubInterface, ExitedBatchJobError
from seyfert.main.report_maker import RunReportMaker, TaskReportMaker
from seyfert.utils.workspace import WorkSpace
from vlib import lsf, scripts, world

PROPERTY = "P24"
LEVEL = "exploration"
RULE = ("a stand-in scheduler (bsub and bjobs programs) follows random schedules in which jobs are invisible, pending, running, suspended, done, forgotten or failed, and logs "
        "every submission and poll; time passes only when the code sleeps; an offline checker of the log decides; reports are compared with the files they are made from; "
        "distinct = schedules x user x ids")
ASSUMPTIONS = ["bsub and bjobs behave as the stand-ins: LSF output formats, an ended job is shown as DONE or EXIT at least once"]
NEEDS = {"oracle.waiting": 126, "oracle.submitting": 60, "oracle.batch_runs": 60, "oracle.reports": 189, "polls": 79, "hidden_jobs": 5, "failed_jobs": 2, "forgotten": 2, "timeouts": 1}


def _clocked(clock):
    return mock.patch.multiple(time, sleep=clock.sleep, time=clock.time)


def _schedule(rng, n):
    out = []
    for _ in range(n):
        k = rng.random()
        out.append(lsf.job(hidden=int(rng.integers(3)) if k < .4 else 0, pend=int(rng.integers(3)), run=int(rng.integers(4)), forget=int(rng.integers(2)) if k < .6 else 0,
                           during=str(rng.choice(["RUN", "PSUSP", "USUSP", "UNKWN"])) if rng.random() < .2 else "RUN"))
    return out


def waiting(ctx):
    rng = ctx.rng
    users = ["luca", "lpaganin", "luca.paganin", "user1", "u_1", "EUCLID", "l-p", "a", "1000"]
    for it in range(ctx.n(14, 120)):
        base = ctx.scratch("w")
        progs = scripts.Programs(base, [])
        n = int(rng.integers(1, 6))
        plan = _schedule(rng, n)
        bad = None
        if it % 4 == 1:
            bad = int(rng.integers(n))
            plan[bad] = dict(plan[bad], exit=int(rng.integers(1, 140)))
        if it % 3 == 2:
            # long after the first polls
            late = bad if bad is not None else int(rng.integers(n))
            plan[late] = dict(plan[late], run=int(rng.integers(8, 40)), exit=plan[late]["exit"] if bad is not None else int(rng.integers(1, 140)) if it % 2 else None)
            if plan[late]["exit"]:
                bad = late
            ctx.saw("late_ends")
        if it % 7 == 6:
            plan[0] = lsf.job(run=10 ** 6)
        sch = lsf.Scheduler(base, progs.dir, plan=plan, user=users[it % len(users)], first_id=int(rng.choice([1, 7, 95, 998, 123456])), id_step=int(rng.choice([1, 1, 9])),
                            shuffle=bool(rng.integers(2)))
        bsub = BsubInterface()
        clock = lsf.Clock()
        res = float(rng.choice([30.0, 10, 0.5, 2.5, 15]))
        max_h = float(rng.choice([3, 1]))
        if it % 7 == 6:
            res = float(rng.choice([200., 450, 150.5]))
        where = dict(plan=plan, user=sch.conf["user"], first_id=sch.conf["first_id"], step=sch.conf["id_step"], resolution=res)
        ctx.case((it, ctx.round, n, bad is not None, res), where)
        raised = None
        with progs.on_path(), _clocked(clock):
            ids = [bsub.submitJob("true", logs_path=base, silent=True) for _ in range(n)]
            if it % 5 == 4:
                # others' jobs and one's own earlier ones do not count
                bsub.submitJob("true", logs_path=base, silent=True, logs_start_str="other")
            t0 = clock.t
            if rng.random() < .3:
                ids = [int(x) for x in ids]
            try:
                bsub.waitForJobsToComplete(ids, check_time_resolution_secs=res, max_time_wait_h=max_h, wait_overhead_secs=int(rng.integers(6)))
            except ExitedBatchJobError as e:
                raised = e
        polls = [e for e in sch.events() if e[0] == "polled"]
        ctx.saw("polls", len(polls))
        ctx.saw("hidden_jobs", sum(p["hidden"] > 0 for p in plan))
        ctx.saw("forgotten", sum(p["forget"] > 0 for p in plan))
        done, first_exit = set(), None
        wanted = {str(i) for i in ids}
        complete_at = None
        for k, (_, asked, shown) in enumerate(polls):
            done |= {i for i, st in shown.items() if st == "DONE"}
            if any(st == "EXIT" for i, st in shown.items() if i in wanted) and first_exit is None:
                first_exit = k
            if wanted <= done and complete_at is None:
                complete_at = k
            ctx.check(not asked or wanted <= set(asked), "job-not-asked-about", where=where)
        if raised is not None:
            ctx.saw("failed_jobs")
            ctx.check(first_exit is not None, "failure-invented", where=where)
            ctx.same(first_exit, len(polls) - 1, "failure-noticed-late", where=where)
        elif it % 7 == 6:
            ctx.saw("timeouts")
            ctx.check(first_exit is None, "failure-unnoticed", where=where)
            ctx.check(max_h * 3600 <= clock.t - t0 <= max_h * 3600 + 4 * res + 60, "waiting-time", where=where, waited=clock.t - t0)
        else:
            ctx.check(first_exit is None, "failure-unnoticed", where=where)
            ctx.check(wanted <= done, "job-not-waited-for", where=where, done=sorted(done), polls=[p[2] for p in polls])
            ctx.same(complete_at, len(polls) - 1, "waits-for-jobs-done", where=where)
        ctx.check(clock.t - t0 >= res * len(polls) * .99, "polls-too-often", where=where, waited=clock.t - t0, polls=len(polls))
        ctx.check(clock.t - t0 <= (res + 1) * len(polls) + 60, "polls-too-rarely", where=where, waited=clock.t - t0, polls=len(polls))
        with progs.on_path(), _clocked(clock):
            with ctx.op("wait-for-no-jobs"):
                bsub.waitForJobsToComplete([])
            for basic in (True, False):
                df = bsub.getBjobsTable(ids, basic_regex=basic)
                shown = [e for e in sch.events() if e[0] == "polled"][-1][2]
                ctx.same(dict(zip(df["JOBID"], df["STAT"])), shown, "jobs-table", basic=basic, where=where)
                ctx.check(all(u == sch.conf["user"] for u in df["USER"]), "jobs-table-user", where=where)
    # a scheduler that takes its time to answer: the limit is on the time that has passed, not on the number of answers
    for it in range(ctx.n(2, 8)):
        base = ctx.scratch("w")
        progs = scripts.Programs(base, [])
        sch = lsf.Scheduler(base, progs.dir, plan=[lsf.job(run=10 ** 6), lsf.job(run=it)])
        bsub, clock = BsubInterface(), lsf.Clock()
        slow, res, max_h = float(ctx.rng.choice([300, 900, 77])), float(ctx.rng.choice([30, 10, 60])), float(ctx.rng.choice([1, 2, 3, .5]))
        ids = []
        with progs.on_path(), _clocked(clock):
            ids = [bsub.submitJob("true", logs_path=base, silent=True) for _ in range(2)]
            t0, start = clock.t, subprocess.Popen.__init__

            def popen(*a, **k):
                clock.t += slow
                start(*a, **k)

            with mock.patch.object(subprocess.Popen, "__init__", popen):
                bsub.waitForJobsToComplete(ids, check_time_resolution_secs=res, max_time_wait_h=max_h)
        ctx.case((it, ctx.round, slow, res, max_h))
        ctx.check(max_h * 3600 <= clock.t - t0 <= max_h * 3600 + 3 * (slow + res) + 60, "waiting-time-of-slow-answers", slow=slow, resolution=res, hours=max_h, waited=clock.t - t0)
        ctx.saw("slow_answers", sum(e[0] == "polled" for e in sch.events()))
    for t in (0, 1, 3, .5, 2.25, -1):
        clock = lsf.Clock()
        with _clocked(clock):
            bsub_utils.count_down(t)
        ctx.check(max(t, 0) <= clock.t - 1.9e9 <= max(t, 0) + 1, "count-down", t=t, slept=clock.slept)


def submitting(ctx):
    rng = ctx.rng
    for it in range(ctx.n(8, 60)):
        base = ctx.scratch("s")
        progs = scripts.Programs(base, [])
        reject = int(rng.integers(3)) if it % 4 == 3 else None
        took = [int(x) for x in rng.choice([1, 59, 60, 3599, 3600, 86399, 86400, 90061, 200000, int(rng.integers(1, 400000))], size=3)]
        took[int(rng.integers(3))] = int(rng.integers(86400, 400000))
        sch = lsf.Scheduler(base, progs.dir, first_id=int(rng.integers(1, 10 ** 6)), reject=reject, duration=took)
        bsub = BsubInterface()
        q, n, mem = str(rng.choice(["long", "medium", "q-1"])), int(rng.integers(1, 33)), int(rng.integers(100, 20000))
        if it % 3:
            bsub.setOptions(queue=q, n_cores=n, memory_MB=mem)
        sep, start, dated = bool(rng.random() < .7), str(rng.choice(["job", "wlwl_phph", "final"])), bool(rng.random() < .7)
        ctx.case((it, ctx.round, sep, start, dated))
        logs = base / "logs" / "deep"
        out = []
        with progs.on_path():
            with ctx.op("test-submission"):
                ctx.same(bsub.submitJob("nothing", logs_path=logs, test=True), None, "test-submission-id")
            for k in range(3):
                try:
                    out.append(bsub.submitJob(f"run_it --k {k} arg", logs_path=logs, logs_start_str=f"{start}{k}", separate_err_out_dirs=sep, silent=True,
                                              add_datetime_to_logs=dated))
                except Exception:  # noqa: BLE001
                    out.append("rejected")
        ev = sch.events()
        ctx.same([e[1] if e[0] == "submitted" else "rejected" for e in ev], [int(x) if x != "rejected" else x for x in out], "job-ids", out=out)
        paths = []
        for k, e in enumerate(ev):
            opts, cmd = e[-2], e[-1]
            ctx.same(" ".join(cmd), f"run_it --k {k} arg", "command-submitted")
            ctx.same((opts.get("-q"), opts.get("-M"), opts.get("-n")), (q, str(mem), str(n)) if it % 3 else ("medium", "2048", None), "batch-options")
            m = int(mem) if it % 3 else 2048
            ctx.check({int(x) for x in re.findall(r"mem[>=](\d+)", opts.get("-R", ""))} == {m}, "batch-resources", got=opts.get("-R"), want=m)
            for o, d in (("-e", "err"), ("-o", "out")):
                p = Path(opts[o])
                paths.append(p)
                ctx.check(p.is_relative_to(logs) and p.parent.is_dir() and p.parent == (logs / d if sep else logs) and f"{start}{k}" in p.name and p.name.startswith(d),
                          "batch-log-file", path=str(p))
                if dated:
                    ctx.check(re.search(r"\d{4}-\d\d-\d\dT\d\d-\d\d-\d\d", p.name) is not None and p.suffix == "." + d, "batch-log-date", path=str(p))
        ctx.same(len(set(paths)), len(paths), "two-logs-one-file")
        if reject is None and dated and sep:
            df = bsub.getResourceUsageTable(logs / "out")
            ctx.same(sorted(df["fisher"]), [f"{start}{k}" for k in range(3)], "resources-names")
            df = df.sort_values("fisher")
            ctx.close(df["duration_s"].to_numpy(float), np.array(took, float), "resources-durations")
            ctx.close(df["cpu_time_s"].to_numpy(float), np.array(took) * 1.5, "resources-cpu")
            asked = float(mem if it % 3 else 2048)
            ctx.same([list(df[c]) for c in ("max_mem_MB", "avg_mem_MB", "req_mem_MB", "delta_mem_MB")],
                     [[301., 302., 303.], [120.25, 121.25, 122.25], [asked] * 3, [asked - 301, asked - 302, asked - 303]], "resources-memory")
            said = [dict((x[-1], float(x[:-1])) for x in t.split() if x[-1] in "hms" and x[-2] != "m") for t in df["duration_h_m_s_ms"]]
            ctx.same([3600 * s["h"] + 60 * s["m"] + s["s"] for s in said], [float(x) for x in took], "resources-duration-text", text=list(df["duration_h_m_s_ms"]))


def batch_runs(ctx):
    rng = ctx.rng
    for it in range(ctx.n(3, 16)):
        b = p23.Bench(ctx)
        tasks = (p23.TASKS, p23.TASKS[1:], ("Derivative", "Fisher"))[it % 3]
        ext = {t: b.ext / t for t in p23.TASKS[:3] if t not in tasks}
        n_jobs = sum(len(b.jobs(t)) for t in tasks)
        plan = _schedule(rng, 7)
        fail_at = int(rng.integers(n_jobs + 6)) if it % 2 else None
        if fail_at is not None:
            plan = [plan[k % 7] for k in range(n_jobs + 40)]
            plan[fail_at] = dict(plan[fail_at], exit=1)
        big = bool(rng.integers(2))
        if big:
            b.s.cfg["synthetic_opts"]["n_sp_bins"] = int(rng.choice([25, 40]))
            b.s.write()
        elif rng.random() < .5:
            b.s.cfg["synthetic_opts"]["n_sp_bins"] = 24
            b.s.write()
        if fail_at is None:
            # one job which takes much longer than the others, in any stage
            plan = [plan[k % 7] for k in range(n_jobs + 40)]
            slow = int(rng.choice([rng.integers(n_jobs + 6), n_jobs, n_jobs + 1, n_jobs - 1]))
            plan[slow] = lsf.job(run=25)
        sch = lsf.Scheduler(b.base, b.progs.dir, plan=plan, user=str(rng.choice(["luca", "l.p", "user1"])), first_id=95, execute=True, duration=[int(rng.choice([60, 100000]))])
        work = b.base / "work"
        work.mkdir()
        clock = lsf.Clock()
        where = dict(tasks=tasks, fail_at=fail_at, jobs=n_jobs, n_sp_bins=b.s.cfg["synthetic_opts"]["n_sp_bins"])
        ctx.case((it, ctx.round, tasks, fail_at is None), where)
        raised = None
        argv = b.argv(tasks, "batch", ["-q", "short", "-mem", 777, "-ncj", 3, "--keep_cl_variations", "--run_id", "batch"], ext)
        with _clocked(clock):
            try:
                b.submit(argv, work)
            except Exception as e:  # noqa: BLE001
                raised = e
        run = p23.new_dirs(work, set())[0]
        calls = b.progs.calls()
        ev = sch.events()
        ctx.saw("polls", sum(e[0] == "polled" for e in ev))
        subs = [e for e in ev if e[0] == "submitted"]
        # each submission belongs to a stage; a stage is submitted only once all jobs of the earlier ones have been seen done
        stage_of, done, exited, seen = {}, set(), set(), []
        stages = [t for t in tasks if t != "Fisher"] + (["auto", "cross"] if "Fisher" in tasks else [])
        for e in ev:
            if e[0] == "polled":
                done |= {int(i) for i, st in e[2].items() if st == "DONE"}
                exited |= {int(i) for i, st in e[2].items() if st == "EXIT"}
                continue
            cmd = " ".join(e[3])
            st = next((t for t in p23.TASKS[:3] if f"/{t}/" in cmd), "auto" if "wlwl phph" in cmd or len(set(e[3]) & p23.AUTO) > 1 else "cross")
            ctx.check(st in stages, "unplanned-submission", where=where, cmd=cmd)
            ctx.check(not exited, "submission-after-a-failure", where=where, cmd=cmd)
            early = [j for j, s in stage_of.items() if stages.index(s) < stages.index(st) and j not in done]
            ctx.check(not early, "submission-before-the-jobs-it-needs", where=where, cmd=cmd, not_done=early)
            stage_of[e[1]] = st
            mem = {"auto": 10000 if big else 4000, "cross": 10000 if big else 4000}.get(st, 777)
            ctx.same((e[2]["-q"], e[2]["-n"], e[2]["-M"]), ("short", "3", str(mem)), "batch-options-of-the-run", where=where, stage=st)
        if raised is None:
            ctx.check(set(stage_of) <= done, "results-before-the-jobs-they-need", where=where, not_done=sorted(set(stage_of) - done))
            ctx.check(not exited and fail_at is None or fail_at is not None and fail_at >= len(subs), "failed-job-goes-unnoticed", where=where, exited=sorted(exited))
            want = sum(len(b.jobs(t)) for t in tasks if t != "Fisher") + (len(p23.fisher_utils.load_selected_data_vectors()) - 2 if "Fisher" in tasks else 0)
            ctx.same(len(subs), want, "jobs-submitted", where=where)
            fin = [c for c in calls if c[0] == "evaluate_final_results"]
            if "Fisher" in tasks:
                ctx.check(len(fin) == 1 and p23.parsed(*fin[0][::2])["execution"] == "batch" and calls[-1] == fin[0], "results-in-batch", where=where)
                vec = [v for c in calls if c[0] == "compute_fisher_matrix" for v in p23.parsed(c[0], c[2])["fisher_data_vectors"]]
                ctx.same(sorted(vec), sorted(v.toBriefString() for v in p23.fisher_utils.load_selected_data_vectors()), "fisher-matrices-in-batch", where=where)
            for t in tasks:
                if t != "Fisher":
                    ctx.same(sorted(c[1].name for c in calls if c[0] == p23.PROGRAM[t]), sorted(b.jobs(t)), "jobs-run-in-batch", where=where, task=t)
            p23.judge_common(ctx, b, run, tasks, where)
            rep = list(run.glob("report_*.log"))
            if set(tasks) - {"Fisher"}:
                ctx.same(len(rep), 1, "report-of-the-run", where=where)
                text = rep[0].read_text()
                ctx.check("FAILURE" not in text and "NOT_EXECUTED" not in text and f"Run {run.name}: SUCCESS" in text, "report-says", where=where, text=text[:400])
                ids = [int(x) for x in re.findall(r"- JobID: (\d+)", text)]
                ctx.same(sorted(ids), sorted(j for j, s in stage_of.items() if s in p23.TASKS), "report-job-ids", where=where)
        else:
            ctx.saw("failed_jobs")
            ctx.check(fail_at is not None and isinstance(raised, ExitedBatchJobError), "batch-run-failed", where=where, raised=repr(raised))
            ctx.check("end_time" not in WorkSpace(run).getRunMetadata(), "failed-run-looks-complete", where=where)


def seyfert_batch(ctx):
    """run_seyfert in batch mode: a job for each forecast configuration, told everything the run was told"""
    rng = ctx.rng
    for it in range(ctx.n(4, 24)):
        base = ctx.scratch("y") / ("plain", "a space", "a $HOME & 'b'; `c`")[(it + ctx.round) % 3]
        base.mkdir()
        tools = ctx.scratch("t")
        s = world.Survey(base / "survey", n_bins={"WL": 1, "GCph": 1, "GCsp": 1}, n_ell=2, probes=("WL", "GCph", "GCsp"))
        s.write()
        cfgs = {}
        for k in range(int(rng.integers(1, 5))):
            n = int(rng.choice([2, 3, 4, 12, 24, 25, 40, 100]))
            name = f"fc_{n}_sp_bins" if it % 2 else f"fc{k}_{n}"
            f = base / f"{name}.json"
            s.cfg["synthetic_opts"]["n_sp_bins"] = n
            f.write_text(json.dumps(s.cfg))
            cfgs[f.resolve()] = n
        files = list(cfgs)
        files = [files[k] for k in rng.permutation(len(files))]
        t = s.task_files()
        mem, ncj, q = int(rng.choice([900, 9999, 10000, 10001, 20000])), int(rng.integers(1, 9)), str(rng.choice(["long", "short"]))
        test = it % 4 == 3
        given = {f"{n.lower()}_config": t[n] for n in ("PowerSpectrum", "Angular", "Derivative", "Fisher") if rng.random() < .6}
        given.update({f"{n.lower()}_dir": base / "other run" / n for n in ("PowerSpectrum", "Angular", "Derivative") if rng.random() < .5})
        given["input_data_dir"] = s.data
        work = base / "work"
        work.mkdir()
        if rng.random() < .4:
            lst = base / "list.txt"
            lst.write_text("".join(rng.choice(["", "  ", "\n", "\t"]) + str(f) + rng.choice(["\n", " \n", "\n\n"]) for f in files))
            fc = [lst]
        else:
            fc = files
        progs = scripts.Programs(tools, ["run_seyfert"])
        sch = lsf.Scheduler(tools, progs.dir, first_id=95)
        clock = lsf.Clock()
        where = dict(files={f.name: n for f, n in cfgs.items()}, memory=mem, test=test, given=sorted(given))
        ctx.case((it, ctx.round, len(cfgs), mem, test), where)
        argv = ["-ex", "batch", "-q", q, "-mem", mem, "-ncj", ncj, "-wd", work, "-fcfg", *fc] + [x for k, v in given.items() for x in (f"--{k}", v)] + (["--test_batch"] if test else [])
        with ctx.op("run-seyfert-batch", **where):
            with progs.on_path(SEYFERT_INPUT_DATA=s.data), mock.patch("time.sleep", clock.sleep):
                scripts.run("run_seyfert", argv, base)
        ev = sch.events()
        ctx.check(all(e[0] == "submitted" for e in ev), "batch-events", where=where)
        ctx.same(len(ev), 0 if test else len(cfgs), "one-job-per-forecast", where=where)
        with progs.on_path(SEYFERT_INPUT_DATA=s.data):
            told = [str(x) for x in ["-ex", "interactive", "-q", q, "-mem", mem, "-ncj", ncj, "-fcfg", "x"] + [x for k, v in given.items() for x in (f"--{k}", v)]]
            want = {a: v for a, v in p23.parsed("run_seyfert", told).items() if a not in ("workdir", "forecast_config", "is_batch_job", "test_batch", "results_config")}
        seen, dirs = [], []
        for _, jid, opts, cmd in ev:
            got = cmd[1:]
            if not ctx.check(cmd and cmd[0] == "run_seyfert", "batch-command", where=where, cmd=cmd):
                continue
            a = p23.parsed("run_seyfert", got)
            f = a["forecast_config"][0]
            seen += [x.resolve() for x in a["forecast_config"]]
            n = cfgs.get(f.resolve(), 0)
            ctx.same({k: a[k] for k in want}, want, "job-told-what-the-run-was-told", where=where)
            ctx.check(a["is_batch_job"] and str(a["is_batch_job"]) != "False", "batch-job-knows", where=where)
            dirs.append(a["workdir"])
            ctx.check(a["workdir"].is_dir() and a["workdir"].resolve().parent == work.resolve() and f.stem in a["workdir"].name, "batch-job-directory", where=where, got=str(a["workdir"]))
            need = 10000 if n > 24 and mem < 10000 else mem
            ctx.same((opts.get("-q"), opts.get("-n"), opts.get("-M")), (q, str(ncj), str(need)), "batch-job-options", where=where, n_sp_bins=n)
            ctx.check(all(Path(opts[o]).is_relative_to(a["workdir"]) for o in ("-e", "-o")), "batch-job-logs", where=where)
        if not test:
            ctx.same(sorted(seen), sorted(cfgs), "one-job-per-forecast", where=where)
            ctx.same(len(set(dirs)), len(dirs), "two-forecasts-in-one-directory", where=where)
            ctx.saw("forecast_jobs", len(seen))


def results_batch(ctx):
    """evaluate_final_results in batch mode: a job for each run directory, told everything the program was told, and waited for"""
    rng = ctx.rng
    for it in range(ctx.n(4, 24)):
        base = ctx.scratch("y") / ("plain", "a space", "a $HOME & 'b'; `c`")[(it + ctx.round) % 3]
        base.mkdir()
        tools = ctx.scratch("t")
        runs = []
        for k in range(int(rng.integers(1, 5))):
            runs.append(base / f"run {k}" if k % 2 else base / f"run_{k}")
            runs[-1].mkdir()
        runs = [runs[k] for k in rng.permutation(len(runs))]
        given = runs
        if rng.random() < .4:
            given = [base / "list.txt"]
            given[0].write_text("".join(rng.choice(["", "  ", "\n", "\t"]) + str(f) + rng.choice(["\n", " \n", "\n\n"]) for f in runs))
        mem, ncj, q = int(rng.choice([900, 20000])), int(rng.integers(1, 9)), str(rng.choice(["long", "short"]))
        opts = {"overwrite": bool(rng.integers(2)), "silent": bool(rng.integers(2)), "outdir_name": str(rng.choice(["final_results", "other results"]))}
        test, nowait = it % 4 == 3, bool(rng.integers(2))
        progs = scripts.Programs(tools, ["evaluate_final_results"])
        plan = _schedule(rng, 5)
        fails = it % 4 == 1 and not nowait
        if fails:
            plan[0] = dict(plan[0], exit=1)
        sch = lsf.Scheduler(tools, progs.dir, plan=plan, first_id=95)
        clock = lsf.Clock()
        where = dict(runs=[r.name for r in runs], options=opts, test=test, nowait=nowait, listed=given is not runs)
        ctx.case((it, ctx.round, len(runs), test, nowait, tuple(opts.values())), where)
        argv = ["-ex", "batch", "-q", q, "-mem", mem, "-ncj", ncj, "-i", *given] + [x for k, v in opts.items() for x in (f"--{k}", v)] + (["--test"] if test else []) + (["-nowait"] if nowait else [])
        raised = None
        with progs.on_path(), _clocked(clock):
            try:
                scripts.run("evaluate_final_results", argv, base)
            except ExitedBatchJobError as e:
                raised = e
            except Exception as e:  # noqa: BLE001
                ctx.check(False, "result-jobs-fail", where=where, error=repr(e))
        ev = sch.events()
        subs = [e for e in ev if e[0] == "submitted"]
        ctx.same(len(subs), 0 if test else len(runs), "one-job-per-run", where=where)
        if test:
            ctx.check(not ev and clock.slept == [], "test-does-nothing", where=where, events=ev[:3], slept=len(clock.slept))
        told = []
        for _, jid, o, cmd in subs:
            if not ctx.check(cmd and cmd[0] == "evaluate_final_results", "batch-command", where=where, cmd=cmd):
                continue
            a = p23.parsed("evaluate_final_results", cmd[1:])
            told += [(base / r).resolve() for r in a["input_rundirs"]]
            ctx.same({k: a[k] for k in ("execution", *opts)}, dict(opts, execution="interactive"), "job-told-what-the-program-was-told", where=where)
            ctx.same((o.get("-q"), o.get("-n"), o.get("-M")), (q, str(ncj), str(mem)), "batch-job-options", where=where)
            ctx.check(len(a["input_rundirs"]) == 1 and all(Path(o[x]).is_relative_to(told[-1]) for x in ("-e", "-o")), "batch-job-logs", where=where)
        if not test:
            ctx.same(sorted(told), sorted(r.resolve() for r in runs), "one-job-per-run", where=where)
            done = {int(i) for e in ev if e[0] == "polled" for i, st in e[2].items() if st == "DONE"}
            ctx.same(raised is not None, fails, "failed-result-job", where=where)
            if not nowait and not fails:
                ctx.check({e[1] for e in subs} <= done, "result-jobs-not-waited-for", where=where)
            if nowait:
                ctx.check(not any(e[0] == "polled" for e in ev), "result-jobs-waited-for", where=where)
            ctx.saw("result_jobs", len(told))


def _out(jid, t0, secs, host, ok=True):
    t1 = t0 + datetime.timedelta(seconds=secs)
    return (f"Subject: Job {jid}: <x> in cluster <farm> Done\n\nJob <x> was submitted from host <farmui01.ge.infn.it> by user <u>\nJob was executed on host(s) <{host}.ge.infn.it>\n"
            f"Started at {t0:%a %b} {t0.day:2d} {t0:%H:%M:%S %Y}\nResults reported on {t1:%a %b} {t1.day:2d} {t1:%H:%M:%S %Y}\n    CPU time   :   {secs}.00 sec.\n")


def reports(ctx):
    rng = ctx.rng
    for it in range(ctx.n(12, 100)):
        run = ctx.scratch("r") / f"run_{it}"
        run.mkdir()
        ws = WorkSpace(run)
        want, tasks = {}, [t for t in ("PowerSpectrum", "Angular", "Derivative") if rng.random() < .7 or it % 5 == 1] or ["Angular"]
        kinds = ["ok", "failed", "dumped", "dump_file", "none", "no_output", "lost_err"]
        pool = [kinds, ["ok"], ["ok", "none"], ["none"], ["ok", "failed"]][it % 5]
        jid = int(rng.choice([1, 7, 96]))
        for t in tasks:
            (run / t).mkdir()
            (run / t / "notes.txt").write_text("")
            want[t] = {}
            # some runs fail in one of their parts only
            mine = ([["failed"], ["dumped"]][it % 2] if t == tasks[it % len(tasks)] else [["ok"], ["ok", "none"]][int(rng.integers(2))]) if it % 5 == 1 else pool
            for k in range(int(rng.integers(1, 7)) if not (it % 11 == 10 and t == tasks[-1]) else 0):
                kind = str(rng.choice(mine))
                d = run / t / f"dvar_x{k}_step_p_1"
                d.mkdir()
                (d / "job_x.sh").write_text("")
                w = dict(kind=kind, id=None, secs=0, host=None, size=0)
                if kind != "none":
                    w.update(id=jid, secs=int(rng.choice([0, 59, 3600, 86399, 90061, 200000])), host=str(rng.choice(["wn205", "wn206", "wn7"])))
                    jid += 1
                    if rng.random() < .4:
                        # an earlier execution of the same job, with another outcome
                        (d / "out_job_2026-01-01T00-00-00.out").write_text(_out(999999, datetime.datetime(2026, 1, 1), 17, "wn999"))
                        (d / "err_job_2026-01-01T00-00-00.err").write_text("old trouble" if kind in ("ok", "no_output") else "")
                        ctx.saw("executed_twice")
                    (d / "out_job_2026-03-04T05-06-07.out").write_text(_out(w["id"], datetime.datetime(2026, int(rng.integers(1, 13)), int(rng.integers(1, 28)), 23, 59, 58), w["secs"], w["host"]))
                    if kind != "lost_err":
                        (d / "err_job_2026-03-04T05-06-07.err").write_text({"failed": "Traceback: trouble", "dumped": "Segmentation fault (core dumped)\nCore Dump", "dump_file": "trouble"}.get(kind, ""))
                    else:
                        for f in d.glob("*.err"):
                            f.unlink()
                    if kind == "dump_file":
                        (d / "core.1234").write_text("")
                    if kind == "ok" or kind == "failed" and rng.random() < .5:
                        w["size"] = int(rng.integers(1, 3 * 10 ** 4))
                        (d / "cl_x.h5").write_bytes(b"x" * w["size"])
                want[t][d.name] = w
        ctx.case((it, ctx.round, tuple(tasks), tuple(pool)), {"tasks": tasks, "pool": pool})
        status = {"ok": "SUCCESS", "failed": "FAILURE", "dumped": "FAILURE", "dump_file": "FAILURE", "none": "NOT_EXECUTED", "no_output": "UNDEFINED", "lost_err": "UNDEFINED"}
        task_status = {}
        for t in tasks:
            with ctx.op("task-report", jobs=want[t]):
                trm = TaskReportMaker(run / t)
                trm.buildJobsReports()
                trm.evaluateStatus()
                trm.buildReportSummary()
                got = {r.jobdir.name: r for r in trm.job_reports}
                w = want[t]
                ctx.same({n: r.status for n, r in got.items()}, {n: status[x["kind"]] for n, x in w.items()}, "job-status", jobs=w)
                ctx.same({n: (r.job_id and int(r.job_id), r.exec_hosts, r.execution_time_secs) for n, r in got.items()},
                         {n: (x["id"], [x["host"]] if x["host"] else [], x["secs"]) for n, x in w.items()}, "job-details", jobs=w)
                ctx.same({n: bool(r.core_dumped) for n, r in got.items()}, {n: x["kind"] in ("dumped", "dump_file") for n, x in w.items()}, "job-core-dump", jobs=w)
                st = [status[x["kind"]] for x in w.values()]
                ctx.same((trm.n_jobs, trm.n_succeeded_jobs, trm.n_failed_jobs, trm.n_not_executed_jobs, trm.n_undefined_jobs),
                         (len(w), st.count("SUCCESS"), st.count("FAILURE"), st.count("NOT_EXECUTED"), st.count("UNDEFINED")), "task-counts", jobs=w)
                want_t = ("FAILURE" if "FAILURE" in st else "SUCCESS" if set(st) <= {"SUCCESS"} else "NOT_EXECUTED" if set(st) == {"NOT_EXECUTED"} else
                          "NOT_COMPLETED" if set(st) <= {"SUCCESS", "NOT_EXECUTED"} else "UNDEFINED")
                task_status[t] = want_t
                if w:
                    ctx.same(trm.status, want_t, "task-status", jobs=w)
                    ctx.close(trm.mean_exec_time, np.mean([x["secs"] for x in w.values()]), "task-mean-time")
                ctx.close(trm.total_output_size_MB, sum(x["size"] for x in w.values() if x["kind"] == "ok") / 1e6, "task-output-size", atol=1e-12)
                ctx.same(trm.hosts, {"good": {x["host"] for x in w.values() if x["kind"] == "ok"}, "bad": {x["host"] for x in w.values() if status[x["kind"]] == "FAILURE"}}, "task-hosts")
                if all(x["id"] for x in w.values()):
                    ctx.same([int(r.job_id) for r in trm.job_reports], sorted(x["id"] for x in w.values()), "job-order")
                for r in trm.job_reports:
                    text = r.getReport()
                    ctx.check(r.jobdir.name in text and f"Status: {r.status}" in text, "job-report-text", text=text[:300])
                    if status[w[r.jobdir.name]["kind"]] == "FAILURE":
                        ctx.check("trouble" in text or "Segmentation" in text, "job-report-error", text=text[:300])
        if all(want[t] for t in tasks):
            with ctx.op("run-report", jobs=want):
                if rng.random() < .5:
                    scripts.run("do_jobs_report", [run], run.parent)
                else:
                    rrm = RunReportMaker(rundir=run)
                    rrm.buildTaskReportMakers()
                    rrm.writeReportFiles()
                st = set(task_status.values())
                want_r = ("SUCCESS" if st == {"SUCCESS"} else "FAILURE" if "FAILURE" in st else "NOT_COMPLETED" if st <= {"SUCCESS", "NOT_EXECUTED"} else "UNDEFINED")
                for f in (run / f"report_{run.name}.log", run / f"summary_{run.name}.log"):
                    text = f.read_text()
                    ctx.same(text.splitlines()[0], f"Run {run.name}: {want_r}", "run-status", task_status=task_status)
                    for t in tasks:
                        ctx.check(f"WORKDIR: {t} {task_status[t]}" in text, "run-report-task", task=t)


SECTIONS = [waiting, submitting, batch_runs, seyfert_batch, results_batch, reports]
