"""Verdict discipline shared by every check.

A check is a module /verif/checks/p<NN>.py with
    PROPERTY = "P01"; LEVEL; RULE; ASSUMPTIONS; SECTIONS = [fn, ...]; NEEDS = {"counter": minimum}
Every section receives a Ctx.  A section drives the real code of /repo and hands what it observed to the
oracle calls below (check / close / same / raises).  Verdicts are three valued:
  violated      -> exit 1 and one VIOLATION line per run (all witnesses are kept in the replay file)
  held          -> exit 0
  inconclusive  -> exit 3 (a deciding monitor observed too little, or the harness itself failed)
"""
import contextlib
import hashlib
import json
import logging
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter
from pathlib import Path

import numpy as np

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo")).resolve()
MAX_WITNESSES = 12


class Inconclusive(Exception):
    pass


class Stop(Exception):
    """enough witnesses of violations were collected in this section"""


def _jsonable(x, depth=0):
    if depth > 5:
        return repr(x)[:200]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        if x.size > 40:
            return {"shape": list(x.shape), "head": _jsonable(x.ravel()[:12].tolist(), depth + 1)}
        return x.tolist()
    if isinstance(x, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_jsonable(v, depth + 1) for v in list(x)[:40]]
    return repr(x)[:300]


class Ctx:
    def __init__(self, prop, tier, seed, budget_s):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.budget_s = budget_s
        self.events = Counter()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.section = None
        self.rng = None
        self.round = 0
        self._scratch = None
        self._sample_sections = Counter()

    # -- workload helpers -------------------------------------------------------------------------
    def n(self, quick, thorough=None):
        """number of repetitions of a loop for this tier"""
        return quick if self.quick else (thorough if thorough is not None else quick * 8)

    def scratch(self, name=None) -> Path:
        d = tempfile.mkdtemp(prefix=(name or "d") + "-", dir=self._scratch)
        return Path(d)

    def case(self, sig, sample=None, nontrivial=True):
        """one executed case; `sig` identifies it for the distinct count"""
        self.evaluations += 1
        self.events["cases." + self.section] += 1
        if nontrivial:
            self.distinct.add(hashlib.sha1(repr((self.section, sig)).encode()).digest()[:10])
        if sample is not None and self._sample_sections[self.section] < 2 and len(self.samples) < 24:
            self._sample_sections[self.section] += 1
            self.samples.append({"section": self.section, "case": _jsonable(sample)})

    def saw(self, what, k=1):
        self.events[what] += k

    # -- oracle calls -----------------------------------------------------------------------------
    def fail(self, mechanism, message, **witness):
        self.violations.append({"section": self.section, "mechanism": f"{self.section}:{mechanism}",
                                "message": message, "witness": _jsonable(witness)})
        if sum(1 for v in self.violations if v["section"] == self.section) >= MAX_WITNESSES:
            raise Stop()

    def check(self, cond, mechanism, message="", **witness):
        self.events["oracle." + self.section] += 1
        if not bool(cond):
            self.fail(mechanism, message or mechanism, **witness)
            return False
        return True

    def same(self, got, want, mechanism, message="", **witness):
        self.events["oracle." + self.section] += 1
        try:
            ok = type_insensitive_equal(got, want)
        except Exception as exc:  # an un-comparable observation is not the wanted one
            ok = False
            witness["compare_error"] = repr(exc)
        if not ok:
            self.fail(mechanism, message or mechanism, got=got, want=want, **witness)
        return ok

    def close(self, got, want, mechanism, message="", rtol=1e-9, atol=0.0, equal_nan=True, **witness):
        self.events["oracle." + self.section] += 1
        worst = None
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
            ok = g.shape == w.shape and bool(np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=equal_nan))
            if not ok and g.shape == w.shape and g.size:
                with np.errstate(all="ignore"):
                    d = np.abs(g - w)
                    idx = int(np.nanargmax(np.where(np.isfinite(d), d / (np.abs(w) + 1e-300), np.inf)))
                worst = {"flat_index": idx, "got": g.ravel()[idx], "want": w.ravel()[idx]}
        except Exception as exc:
            ok = False
            witness["compare_error"] = repr(exc)
        if not ok:
            self.fail(mechanism, message or mechanism, got=got, want=want, worst=worst, **witness)
        return ok

    def raises(self, fn, mechanism, exc=Exception, message="", **witness):
        """fn must be rejected with an exception"""
        self.events["oracle." + self.section] += 1
        try:
            out = fn()
        except exc:
            self.events["rejections." + self.section] += 1
            return True
        self.fail(mechanism, message or "accepted an input that has to be rejected", returned=out, **witness)
        return False

    @contextlib.contextmanager
    def op(self, mechanism, **witness):
        """code under test that has to succeed: an exception out of it is a violation"""
        try:
            yield
        except (Stop, Inconclusive, KeyboardInterrupt, MemoryError):
            raise
        except (Exception, SystemExit) as exc:
            self.fail(f"{mechanism}:{type(exc).__name__}", f"valid operation raised {exc!r}",
                      traceback=traceback.format_exc()[-1500:], **witness)


def type_insensitive_equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(a == b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(type_insensitive_equal(a[k], b[k]) for k in b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(type_insensitive_equal(x, y) for x, y in zip(a, b))
    return bool(a == b)


def known_findings(prop):
    f = VERIF / "known_findings.json"
    if not f.exists():
        return {}
    data = json.loads(f.read_text())
    return {e["mechanism"]: e for e in data.get("findings", []) if e["property"] == prop}


def _from_repo(tb):
    return any(str(Path(fr.filename)).startswith(str(REPO)) for fr in traceback.extract_tb(tb))


def run_check(module, tier, seed, only=None):
    prop = module.PROPERTY
    logging.disable(logging.CRITICAL)
    warnings.filterwarnings("ignore")
    np.seterr(all="ignore")
    budget = getattr(module, "BUDGET", {}).get(tier, 240 if tier == "quick" else 780)
    ctx = Ctx(prop, tier, seed, budget)
    ctx._scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    harness_errors = []
    known = known_findings(prop)
    cwd = os.getcwd()
    try:
        rounds = getattr(module, "QUICK_ROUNDS", 5) if tier == "quick" else getattr(module, "THOROUGH_ROUNDS", 4)
        rounds = min(rounds, int(os.environ.get("VERIF_ROUNDS", rounds)))
        for rnd in range(rounds):
            elapsed = time.time() - ctx.t0
            if rnd and (elapsed > 0.5 * budget or tier == "quick" and elapsed * (rnd + 1) / rnd > 30
                        or any(v["mechanism"] not in known for v in ctx.violations)):
                break
            ctx.round = rnd
            for fn in module.SECTIONS:
                if only and fn.__name__ != only:
                    continue
                ctx.section = fn.__name__
                h = int.from_bytes(hashlib.sha256(f"{seed}/{rnd}/{prop}/{fn.__name__}".encode()).digest()[:8], "big")
                ctx.rng = np.random.default_rng(h)
                try:
                    with open(os.devnull, "w") as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
                        fn(ctx)
                except Stop:
                    pass
                except Inconclusive as exc:
                    harness_errors.append(f"{fn.__name__}: inconclusive: {exc}")
                except (MemoryError, KeyboardInterrupt):
                    raise
                except (Exception, SystemExit) as exc:
                    tb = traceback.format_exc()
                    where = "raised by the code under test" if _from_repo(exc.__traceback__) \
                        else "the observed result could not be interpreted"
                    try:
                        ctx.fail(f"exception:{type(exc).__name__}", f"{where}: {exc!r}", traceback=tb[-2500:])
                    except Stop:
                        pass
                finally:
                    os.chdir(cwd)
            ctx.events["rounds"] += 1
    finally:
        shutil.rmtree(ctx._scratch, ignore_errors=True)

    new = [v for v in ctx.violations if v["mechanism"] not in known]
    old = {v["mechanism"] for v in ctx.violations if v["mechanism"] in known}
    for mech in sorted(old):
        print(f"KNOWN-FINDING: property={prop} {mech}: {known[mech]['what_fails']}")

    if not only:
        for name, least in getattr(module, "NEEDS", {}).items():
            if ctx.events[name] < least and not new:
                harness_errors.append(f"monitor {name} observed {ctx.events[name]} < {least} events")

    wall = time.time() - ctx.t0
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": module.LEVEL,
        "coverage": {
            "evaluations": ctx.evaluations,
            "distinct_nontrivial": len(ctx.distinct),
            "rule": module.RULE,
            "samples": ctx.samples[:24],
            "observed_events": dict(sorted(ctx.events.items())),
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(new),
        "known_findings_seen": sorted(old),
        "inconclusive": harness_errors,
    }
    ev_dir = VERIF / "evidence"
    ev_dir.mkdir(exist_ok=True)
    if not only:
        (ev_dir / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=str) + "\n")

    if new:
        rdir = ev_dir / "replay"
        rdir.mkdir(exist_ok=True)
        rp = rdir / f"{prop}-{tier}-{seed}.json"
        rp.write_text(json.dumps({
            "property": prop, "tier": tier, "seed": seed,
            "replay_cmd": f"VERIF_SEED={seed} bash /verif/check.sh {prop} {tier} {new[0]['section']}",
            "violations": new}, indent=1, default=str) + "\n")
        seen = set()
        for v in new:
            if v["mechanism"] not in seen:
                seen.add(v["mechanism"])
                print(f"  [{v['mechanism']}] {v['message'][:300]}")
                print("     witness:", json.dumps(v["witness"], default=str)[:600])
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if harness_errors:
        for e in harness_errors:
            print("INCONCLUSIVE", e)
        return 3
    print(f"OK property={prop} tier={tier} seed={seed}: {ctx.evaluations} cases, {len(ctx.distinct)} distinct, "
          f"{sum(v for k, v in ctx.events.items() if k.startswith('oracle.'))} oracle verdicts, {wall:.1f}s")
    return 0
