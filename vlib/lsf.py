"""A stand-in batch scheduler: bsub and bjobs programs which keep their state in a directory and log every event.

The plan of a scheduler is a list of per-job schedules, taken in turn: how many polls a job is invisible, pending and running before it
ends, whether it is forgotten after it has been shown as ended, and the status it shall exit with (None: what its command says)."""
import json
import sys
from pathlib import Path
from time import monotonic as real_clock

BODY = r'''
import datetime, json, os, subprocess, sys
from pathlib import Path
base = Path(BASE)
conf = json.loads((base / "conf.json").read_text())
state = json.loads((base / "state.json").read_text())
def log(*x):
    with open(base / "events.jsonl", "a") as f:
        f.write(json.dumps(x) + "\n")
def save():
    (base / "state.json").write_text(json.dumps(state))
argv = sys.argv[1:]
if WHAT == "bsub":
    opts, k = {}, 0
    while k < len(argv) and argv[k].startswith("-"):
        if argv[k].startswith("-R") and argv[k] != "-R":
            opts["-R"] = argv[k][2:]
            k += 1
        else:
            opts[argv[k]] = argv[k + 1]
            k += 2
    cmd = argv[k:]
    if conf["reject"] is not None and len(state["jobs"]) >= conf["reject"]:
        log("rejected", opts, cmd)
        print("Bad queue. Job not submitted.", file=sys.stderr)
        sys.exit(255)
    jid = conf["first_id"] + len(state["jobs"]) * conf["id_step"]
    plan = conf["plan"][len(state["jobs"]) % len(conf["plan"])]
    status = 0
    t0 = datetime.datetime(2031, 3, 7, 23, 59, 1) + datetime.timedelta(seconds=len(state["jobs"]))
    if conf["execute"] and cmd:
        p = subprocess.run(" ".join(cmd), shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        status = p.returncode
        Path(opts["-e"]).write_bytes(p.stderr)
    elif "-e" in opts:
        Path(opts["-e"]).write_bytes(b"")
    if plan["exit"] is not None:
        status = plan["exit"]
    if "-o" in opts:
        took = conf["duration"][len(state["jobs"]) % len(conf["duration"])]
        t1 = t0 + datetime.timedelta(seconds=took)
        Path(opts["-o"]).write_text(f"""Sender: LSF System <lsfadmin@wn205.ge.infn.it>
Subject: Job {jid}: <{' '.join(cmd)}> in cluster <farm> {'Done' if status == 0 else 'Exited'}

Job <{' '.join(cmd)}> was submitted from host <farmui01.ge.infn.it> by user <{conf['user']}> in cluster <farm>.
Job was executed on host(s) <wn205.ge.infn.it>, in queue <{opts.get('-q')}>
Started at {t0:%a %b} {t0.day:2d} {t0:%H:%M:%S %Y}
Results reported on {t1:%a %b} {t1.day:2d} {t1:%H:%M:%S %Y}
{'Successfully completed.' if status == 0 else f'Exited with exit code {status}.'}

Resource usage summary:
    CPU time :                                   {1.5 * took:.2f} sec.
    Max Memory :                                 {301 + len(state["jobs"])} MB
    Average Memory :                             {120.25 + len(state["jobs"])} MB
    Total Requested Memory :                     {float(opts.get('-M', 0)):.2f} MB
    Delta Memory :                               {float(opts.get('-M', 0)) - 301 - len(state["jobs"]):.2f} MB
    Max Processes :                              4
    Max Threads :                                {5 + len(state["jobs"])}
    Run time :                                   {took} sec.
    Turnaround time :                            {took + 7} sec.
""")
    state["jobs"].append({"id": jid, "polls": 0, "plan": plan, "status": status, "queue": opts.get("-q", "none"), "ended_shown": 0})
    save()
    log("submitted", jid, opts, cmd)
    print(f"Job <{jid}> is submitted to queue <{opts.get('-q', 'none')}>.")
else:
    ids = {a for a in argv if a.isdigit()}
    rows, shown = [], {}
    for j in state["jobs"]:
        if ids and str(j["id"]) not in ids:
            continue
        p, n = j["plan"], j["polls"]
        j["polls"] += 1
        if n < p["hidden"]:
            continue
        if n < p["hidden"] + p["pend"]:
            st = "PEND"
        elif n < p["hidden"] + p["pend"] + p["run"]:
            st = p.get("during", "RUN")
        else:
            st = "DONE" if j["status"] == 0 else "EXIT"
            if p["forget"] and j["ended_shown"] >= p["forget"]:
                continue
            j["ended_shown"] += 1
        shown[str(j["id"])] = st
        host = "-" if st == "PEND" else "8*wn-205.ge.infn.it"
        rows.append(f"{j['id']:<7} {conf['user']:<7} {st:<5} {j['queue']:<10} farmui01.ge.infn.it {host:<11} {'*/job_x-y.sh' if j['id'] % 3 else '*un --a 3 Nov 2 b'} Nov {1 + j['id'] % 28:>2} 21:0{j['id'] % 10}")
    save()
    log("polled", sorted(ids), shown)
    if rows:
        if conf["shuffle"]:
            rows = rows[::-1]
        print("JOBID   USER    STAT  QUEUE      FROM_HOST   EXEC_HOST   JOB_NAME   SUBMIT_TIME")
        print("\n".join(rows))
    else:
        print("No unfinished job found", file=sys.stderr)
'''


class Scheduler:
    def __init__(self, base, programs_dir, plan=None, user="luca", first_id=1, id_step=1, execute=False, reject=None, duration=(60,), shuffle=False):
        self.base = Path(base) / "lsf"
        self.base.mkdir()
        self.conf = dict(plan=plan or [job()], user=user, first_id=first_id, id_step=id_step, execute=execute, reject=reject, duration=list(duration), shuffle=shuffle)
        self.reset()
        for n in ("bsub", "bjobs"):
            f = Path(programs_dir) / n
            f.write_text(f"#!{sys.executable} -SE\nBASE, WHAT = {str(self.base)!r}, {n!r}\n" + BODY)
            f.chmod(0o755)

    def reset(self):
        (self.base / "conf.json").write_text(json.dumps(self.conf))
        (self.base / "state.json").write_text(json.dumps({"jobs": []}))
        (self.base / "events.jsonl").unlink(missing_ok=True)

    def events(self):
        f = self.base / "events.jsonl"
        return [json.loads(x) for x in f.read_text().splitlines()] if f.is_file() else []


def job(hidden=0, pend=0, run=0, forget=0, exit=None, during="RUN"):
    return dict(hidden=hidden, pend=pend, run=run, forget=forget, exit=exit, during=during)


class WaitsForever(Exception):
    pass


class Clock:
    """time that passes only when somebody sleeps; whoever asks or sleeps too often will never stop"""

    def __init__(self, start=1.9e9, limit=40000):
        self.t = start
        self.slept = []
        self.asked = 0
        self.limit = limit
        self.stop = real_clock() + 120

    def _forever(self, n):
        if n > self.limit or real_clock() > self.stop:
            raise WaitsForever(f"after {n} calls")

    def time(self):
        self.asked += 1
        self._forever(self.asked / 20)
        return self.t

    def sleep(self, s):
        if s < 0:
            raise ValueError("sleep length must be non-negative")
        self.slept.append(s)
        self._forever(len(self.slept))
        self.t += s
