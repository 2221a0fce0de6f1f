"""P06: parameter displacement, reset and flatness, over histories; persistence of parameter sets."""
import copy
import json

import numpy as np

from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection
from vlib import probes as P

PROPERTY = "P06"
LEVEL = "exploration"
RULE = ("random parameter sets (free/fixed cosmological and nuisance parameters, zero/negative/positive fiducials, "
        "random step tables and factors) driven through random histories of displace / reset / save / load, shadowed "
        "by an independent dictionary model; a history is non-trivial when it displaces at least two parameters")
ASSUMPTIONS = ["base displacements are positive and distinct"]
NEEDS = {"oracle.histories": 2000, "flat_displacements": 21, "oracle.persistence": 200}

COSMO = ["h", "w0", "wa", "OmDE", "Omm", "Omb", "ns", "sigma8", "mnu", "gamma"]


def shifted(p, eps):
    """independent statement of the displacement rule"""
    return p["fid"] * (1 + eps * p["sf"]) if p["fid"] != 0 else eps * p["sf"]


def _make(ctx, flat):
    model, order = {}, []
    omm = float(np.round(ctx.rng.uniform(.1, .9), 3))
    for n in COSMO:
        if n not in ("Omm", "OmDE") and ctx.rng.random() < .3:
            continue
        mode = ctx.rng.random()
        fid = 0.0 if mode < .2 else float(np.round(ctx.rng.normal(), 4) or .5)
        if n == "Omm":
            fid = omm
        if n == "OmDE":
            fid = float(np.round(1 - omm, 3)) if flat else float(np.round(ctx.rng.uniform(.1, .9), 3))
        model[n] = dict(fid=fid, cur=fid, sf=float(ctx.rng.choice([1.0, 1.0, 7.0, .5])), free=bool(ctx.rng.random() < .7),
                        kind="CosmologicalParameter", probe=None)
    if flat and model["Omm"]["free"] and model["OmDE"]["free"]:
        model[("Omm", "OmDE")[ctx.rng.integers(2)]]["free"] = False
    for pr in P.LONG:
        for k in range(int(ctx.rng.integers(0, 4))):
            fid = 0.0 if ctx.rng.random() < .15 else float(np.round(ctx.rng.uniform(-2, 2), 4) or 1.)
            model[f"n{pr[:2]}{k}"] = dict(fid=fid, cur=fid, sf=float(ctx.rng.choice([1., 2.])), free=bool(ctx.rng.random() < .7),
                                          kind="NuisanceParameter", probe=pr)
    names = list(model)
    names = [names[i] for i in ctx.rng.permutation(len(names))]
    model = {n: model[n] for n in names}
    params = {n: PhysicalParameter(name=n, fiducial=m["fid"], kind=m["kind"], probe=m["probe"], is_free_parameter=m["free"],
                                   stem_factor=m["sf"], units="u-" + n, description="" if len(n) % 3 == 0 else f"what {n} is: \"σ\"",
                                   derivative_method="SteM" if ctx.rng.random() < .7 else "Analytic") for n, m in model.items()}
    nb = int(ctx.rng.integers(1, 9))
    base = np.unique(ctx.rng.uniform(.001, .12, size=nb))
    if ctx.rng.random() < .5:
        base = np.unique(np.round(base, 5))
    base = base[ctx.rng.permutation(len(base))]
    given = base if ctx.rng.random() < .5 else [float(b) for b in base]
    coll = PhysicalParametersCollection(data_dict=params, base_stem_disps=given, is_universe_flat=flat)
    sb = sorted(float(b) for b in base)
    table = {k + 1: sb[k] for k in range(len(sb))}
    table.update({-k: -v for k, v in list(table.items())})
    return model, coll, table


def _compare(ctx, coll, model, tag, **kw):
    for n, m in model.items():
        par = coll[n]
        ok = np.isclose(par.current_value, m["cur"], rtol=1e-12, atol=1e-14) and par.fiducial == m["fid"]
        ctx.check(ok, tag, par=n, got=(par.fiducial, par.current_value), want=(m["fid"], m["cur"]), **kw)
    ctx.check(len(coll) == len(model) and list(coll.keys()) == list(model), tag + "-membership")


def histories(ctx):
    for _ in range(ctx.n(120, 1200)):
        flat = bool(ctx.rng.random() < .5)
        model, coll, table = _make(ctx, flat)
        ctx.same({int(k): float(v) for k, v in coll.stem_dict.items()}, table, "step-table")
        ctx.same({float(k): int(v) for k, v in coll.inv_stem_dict.items()}, {v: k for k, v in table.items()}, "inverse-step-table")
        free = [n for n, m in model.items() if m["free"]]
        fixed = [n for n, m in model.items() if not m["free"]]
        trace = []
        for _ in range(int(ctx.rng.integers(3, 20))):
            r = ctx.rng.random()
            if r < .2 or not free:
                coll.updatePhysicalParametersForDvarStep(dvar="central", step=0) if ctx.rng.random() < .5 \
                    else coll.resetPhysicalParametersToFiducial()
                for m in model.values():
                    m["cur"] = m["fid"]
                trace.append("reset")
            elif r > .9:
                # a value set by hand, of any parameter: resets undo it
                n = str(ctx.rng.choice(list(model)))
                coll[n].current_value = model[n]["cur"] = float(ctx.rng.uniform(-2, 2))
                trace.append((n, "by hand"))
                ctx.saw("values_set_by_hand")
            elif r < .3 and fixed:
                n = fixed[ctx.rng.integers(len(fixed))]
                st = list(table)[ctx.rng.integers(len(table))]
                ctx.raises(lambda: coll.updatePhysicalParametersForDvarStep(dvar=n, step=st), "fixed-parameter-displaced", par=n)
                trace.append(("refused", n))
            else:
                n = free[ctx.rng.integers(len(free))]
                st = list(table)[ctx.rng.integers(len(table))]
                coll.updatePhysicalParametersForDvarStep(dvar=n, step=st)
                model[n]["cur"] = shifted(model[n], table[st])
                if flat and n in ("Omm", "OmDE"):
                    model["OmDE" if n == "Omm" else "Omm"]["cur"] = 1 - model[n]["cur"]
                    ctx.saw("flat_displacements")
                    ctx.close(coll["Omm"].current_value + coll["OmDE"].current_value, 1.0, "flatness-kept", rtol=1e-12)
                trace.append((n, st))
            _compare(ctx, coll, model, "history", trace=trace[-6:], flat=flat)
            ctx.same(coll.cosmo_pars_current_values, {n: coll[n].current_value for n, m in model.items()
                                                      if m["probe"] is None}, "current-values-view")
        ctx.case(repr(trace), sample=trace[:6], nontrivial=len({t[0] for t in trace if t != "reset"}) > 1)
        # views
        views = {
            "cosmological_parameters": lambda m: m["probe"] is None,
            "nuisance_parameters": lambda m: m["probe"] is not None,
            "free_physical_parameters": lambda m: m["free"],
            "free_cosmological_parameters": lambda m: m["free"] and m["probe"] is None,
        }
        for v, cond in views.items():
            ctx.same(list(getattr(coll, v)), [n for n, m in model.items() if cond(m)], "view-" + v)
        ctx.same(coll.cosmo_pars_fiducials, {n: m["fid"] for n, m in model.items() if m["probe"] is None}, "fiducials-view")
        ctx.same(coll.free_cosmo_pars_fiducials, {n: m["fid"] for n, m in model.items() if m["probe"] is None and m["free"]}, "free-fiducials-view")
        for pr in P.LONG:
            ctx.same(list(coll.getNuisanceParametersForProbe(pr)), [n for n, m in model.items() if m["probe"] == pr], "nuisance-of-probe")
            ctx.same(list(coll.getFreeNuisanceParametersForProbe(pr)),
                     [n for n, m in model.items() if m["probe"] == pr and m["free"]], "free-nuisance-of-probe")
            ctx.same(set(coll.getFreePhysicalParametersForProbe(pr)),
                     {n for n, m in model.items() if m["free"] and m["probe"] in (pr, None)}, "free-of-probe")
        coll.resetPhysicalParametersToFiducial()
        for n, m in model.items():
            m["cur"] = m["fid"]
            vals = coll.computePhysParSTEMValues(n)
            want = [shifted(m, table[s]) if s else m["fid"] for s in sorted(list(table) + [0])]
            ctx.close(vals, want, "abscissae-in-step-order", rtol=1e-12, atol=1e-15, par=n)
            ctx.close(coll[n].computeSteMValues(coll.stem_disps), want, "abscissae-parameter", rtol=1e-12, atol=1e-15)
        _compare(ctx, coll, model, "abscissae-have-no-side-effect")


def flat_rejections(ctx):
    for _ in range(ctx.n(60, 400)):
        model, coll, table = _make(ctx, True)
        st = list(table)[ctx.rng.integers(len(table))]
        which = ("Omm", "OmDE")[ctx.rng.integers(2)]
        mode = int(ctx.rng.integers(3))
        ctx.case((mode, which, st))
        if mode == 0:
            coll["Omm"].is_free_parameter = coll["OmDE"].is_free_parameter = True
            ctx.raises(lambda: coll.updatePhysicalParametersForDvarStep(dvar=which, step=st), "both-densities-free-accepted")
        elif mode == 1:
            coll["Omm"].is_free_parameter, coll["OmDE"].is_free_parameter = which == "Omm", which == "OmDE"
            coll["OmDE"].fiducial += float(ctx.rng.choice([1e-3, -.05, .3]))
            ctx.raises(lambda: coll.updatePhysicalParametersForDvarStep(dvar=which, step=st), "non-closing-fiducials-accepted")
        else:
            coll.is_universe_flat = False
            coll[which].is_free_parameter = True
            other = "OmDE" if which == "Omm" else "Omm"
            before = coll[other].current_value
            coll.updatePhysicalParametersForDvarStep(dvar=which, step=st)
            ctx.check(coll[other].current_value == before, "curved-universe-couples-densities")


def persistence(ctx):
    for _ in range(ctx.n(60, 500)):
        model, coll, table = _make(ctx, bool(ctx.rng.random() < .5))
        free = [n for n, m in model.items() if m["free"]]
        if free and ctx.rng.random() < .7:
            coll.updatePhysicalParametersForDvarStep(dvar=free[ctx.rng.integers(len(free))], step=list(table)[ctx.rng.integers(len(table))])
        f = ctx.scratch() / "pars.json"
        snapshot = {n: dict(vars(p)) for n, p in coll.items()}
        coll.writeJSON(f)
        cosmo_only = bool(ctx.rng.random() < .3)
        how = int(ctx.rng.integers(2))
        if how == 0:
            new = PhysicalParametersCollection.fromJSON(f, only_cosmological=cosmo_only)
        else:
            # an empty collection, or one that has steps of its own
            new = PhysicalParametersCollection() if ctx.rng.random() < .5 else \
                PhysicalParametersCollection(data_dict={}, base_stem_disps=[.01, .5], is_universe_flat=not coll.is_universe_flat)
            new.readJSON(f, only_cosmological=cosmo_only)
        want = [n for n, m in model.items() if not cosmo_only or m["probe"] is None]
        ctx.case((tuple(want), how), sample=want)
        ctx.same(list(new.keys()), want, "parameters-restored")
        for n in want:
            a, b = coll[n], new[n]
            for attr in ("name", "fiducial", "current_value", "kind", "stem_factor", "is_free_parameter", "units", "description",
                         "derivative_method", "probe"):
                ctx.check(getattr(a, attr) == getattr(b, attr), "field-" + attr, par=n, got=getattr(b, attr), want=getattr(a, attr))
        ctx.same(bool(new.is_universe_flat), bool(coll.is_universe_flat), "flatness-restored")
        ctx.close(new.stem_disps, coll.stem_disps, "steps-restored", rtol=1e-14)
        ctx.same({int(k): float(v) for k, v in new.stem_dict.items()}, table, "step-table-restored")
        if not cosmo_only:
            ctx.check(new == coll and coll == new, "restored-equal")
        # independent of what it was loaded from
        n = want[ctx.rng.integers(len(want))]
        new[n].current_value = 123.0
        ctx.check(all(dict(vars(p)) == snapshot[m] for m, p in coll.items()), "save-or-load-has-side-effects")
        par = PhysicalParameter.from_dict(json.loads(coll[n].to_JSON()))
        ctx.check(par == coll[n] and par.stem_factor == coll[n].stem_factor and par.probe == coll[n].probe and par.description == coll[n].description, "single-parameter")
        dup = copy.deepcopy(coll)
        dup[n].updateValueForDisplacement(.05)
        ctx.check(coll[n].current_value == snapshot[n]["current_value"], "copy-aliases")


def validation(ctx):
    ok = dict(name="x", fiducial=1.0, kind="CosmologicalParameter", is_free_parameter=True)
    PhysicalParameter(**ok)
    for k, bad in enumerate([dict(name=3), dict(name=None), dict(fiducial=1), dict(fiducial="1.0"), dict(fiducial=None),
                             dict(is_free_parameter=None), dict(is_free_parameter="yes"), dict(is_free_parameter=1),
                             dict(kind="Cosmological"), dict(kind=None), dict(kind="NuisanceParameter", probe=None)]):
        ctx.case(k)
        ctx.raises(lambda: PhysicalParameter(**{**ok, **bad}), "invalid-parameter-accepted", bad=bad)
    p = PhysicalParameter(**ok)
    ctx.same((p.current_value, p.is_cosmological, p.is_nuisance), (1.0, True, False), "defaults")
    q = PhysicalParameter.createNuisanceParameter(name="bgph0", fiducial=1.5, is_free_parameter=False, probe="Void", current_value=2.0)
    ctx.same((q.current_value, q.is_nuisance, q.is_galaxy_bias_parameter, q.probe), (2.0, True, True, "Void"), "nuisance")
    q.resetCurrentValueToFiducial()
    ctx.same(q.current_value, 1.5, "single-reset")
    for a in ("name", "fiducial", "kind", "current_value"):
        r = copy.copy(p)
        setattr(r, a, {"name": "y", "fiducial": 2.0, "kind": "NuisanceParameter", "current_value": 7.0}[a])
        ctx.check(not (r == p), "distinct-parameters-equal", attr=a)


SECTIONS = [histories, flat_rejections, persistence, validation]
