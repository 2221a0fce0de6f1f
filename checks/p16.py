"""P16: Fisher matrix algebra over histories of operations."""
import copy
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from seyfert.fisher.fisher_analysis import FisherAnalysis
from seyfert.fisher.fisher_matrix import FisherMatrix, FisherMatrixError

PROPERTY = "P16"
LEVEL = "exploration"
RULE = ("random histories of operations (sum, difference, copy, fix, marginalize, slice, prior, inversion, correlation) over a pool of Fisher "
        "matrices of different, partially shared parameters in random orders; after every operation every matrix of the pool is compared, "
        "label by label, with a shadow model; distinct = operation x sizes x state")
ASSUMPTIONS = ["matrices are positive definite with condition number below 1e8 where inverted"]
NEEDS = {"oracle.histories": 3000, "oracle.identities": 180, "op.add": 20, "op.fix": 6, "op.marg": 20, "op.prior": 12, "op.slice": 10, "stale_candidates": 6, "oracle.analyses": 100, "more_rows": 5}
COSMO = ["w0", "wa", "Omm", "Omb", "h", "ns", "sigma8", "mnu", "gamma"]
NUIS = [f"bgph{i}" for i in range(12)] + [f"bgsp{i}" for i in range(4)] + ["aIA", "etaIA"]


class Shadow:
    def __init__(self, name, cosmo, nuis, vals, flag=True, scale=None):
        self.scale = dict(scale or {})  # size of the terms an element is the difference of
        self.name, self.cosmo, self.nuis, self.vals, self.flag = name, set(cosmo), set(nuis), vals, flag

    @property
    def pars(self):
        return sorted(self.cosmo | self.nuis)

    def mat(self, pars=None):
        pars, have = pars or self.pars, self.cosmo | self.nuis
        return np.array([[self.vals.get((a, b), 0.0) if a in have and b in have else 0.0 for b in pars] for a in pars]).reshape(len(pars), len(pars))

    def inv(self):
        return np.linalg.inv(self.mat())

    def clone(self):
        return Shadow(self.name, self.cosmo, self.nuis, dict(self.vals), self.flag, self.scale)

    def put(self, pars, m):
        self.vals = {(a, b): m[i, j] for i, a in enumerate(pars) for j, b in enumerate(pars)}


def _make(ctx, name=None, cosmo=None, nuis=None, flag=True):
    if cosmo is None:
        cosmo = [COSMO[k] for k in ctx.rng.permutation(len(COSMO))[:int(ctx.rng.integers(2, 7))]]
        nuis = [NUIS[k] for k in ctx.rng.permutation(len(NUIS))[:int(ctx.rng.integers(0, 6))]]
    pars = list(cosmo) + list(nuis)
    pars = [pars[k] for k in ctx.rng.permutation(len(pars))]
    n = len(pars)
    a = ctx.rng.normal(size=(n, n + 3))
    s = 10 ** ctx.rng.uniform(-1, 1.5, size=n)
    m = (a @ a.T + .1 * np.eye(n)) * np.outer(s, s)
    m = (m + m.T) / 2
    name = name or f"[F{int(ctx.rng.integers(1000))}]"
    sh = Shadow(name, cosmo, nuis, {}, flag)
    sh.put(pars, m)
    f = FisherMatrix(matrix_df=pd.DataFrame(m, index=pars, columns=pars), name=name, cosmological_parameters=cosmo,
                     nuisance_parameters=nuis, marginalize_nuisance=flag)
    return f, sh


def _compare(ctx, f, sh, where, **w):
    p = sh.pars
    ok = ctx.same((set(f.index), set(f.columns), len(f.index)), (set(p), set(p), len(p)), "labels", op=where, **w)
    ctx.same((set(f.cosmological_parameters), set(f.nuisance_parameters)), (sh.cosmo, sh.nuis), "parameter-sets", op=where, **w)
    ctx.same(f.name, sh.name, "name", op=where)
    ctx.same(bool(f.marginalize_nuisance), sh.flag, "flag", op=where)
    if not ok:
        return
    m = sh.mat()
    d = np.maximum(np.sqrt(np.abs(np.diag(m))), [sh.scale.get(a, 0) for a in p])
    sc = np.outer(d, d) + 1e-300
    ctx.close(f.matrix.loc[p, p].to_numpy(float) / sc, m / sc, "elements", atol=1e-6, op=where, **w)
    if f.inverse is not None:
        ctx.same(set(f.inverse.index), set(p), "inverse-of-other-parameters", op=where)
        if set(f.inverse.index) == set(p):
            i = sh.inv()
            si = np.sqrt(np.abs(np.outer(np.diag(i), np.diag(i))))
            ctx.close(f.inverse.loc[p, p].to_numpy(float) / si, i / si, "inverse-of-another-matrix", atol=1e-5, op=where)
    if f.correlation is not None:
        c = sorted(sh.cosmo)
        ctx.same(set(f.correlation.index), set(c), "correlation-of-other-parameters", op=where)
        if set(f.correlation.index) == set(c):
            i = sh.inv()
            d = np.sqrt(np.diag(i))
            want = pd.DataFrame(i / np.outer(d, d), index=p, columns=p).loc[c, c].to_numpy()
            ctx.close(f.correlation.loc[c, c].to_numpy(float), want, "correlation", atol=1e-5, op=where)


def _sum(a, b, sign, name):
    out = Shadow(name, a.cosmo | b.cosmo, a.nuis | b.nuis, {})
    p = out.pars
    out.put(p, a.mat(p) + sign * b.mat(p))
    for sh in (a, b):
        for k in sh.pars:
            out.scale[k] = max(out.scale.get(k, 0), sh.scale.get(k, 0), abs(sh.vals[k, k]) ** .5)
    return out


def _derived(ctx, f, sh):
    """quantities a user reads off the matrix in its current state"""
    p, i = sh.pars, sh.inv()
    e = dict(zip(p, np.sqrt(np.diag(i))))
    for only in (True, False):
        g = f.getMarginalizedErrors(fom=False, only_cosmo=only)
        keys = sh.cosmo if only else set(p)
        ctx.same(set(g.index), set(keys), "marginalized-labels")
        ctx.close([g.loc[k] for k in sorted(keys)], [e[k] for k in sorted(keys)], "marginalized-errors", rtol=1e-5)
    g = f.getMarginalizedErrors(fom=True, only_cosmo=True)
    if {"w0", "wa"} <= set(p):
        a, b = p.index("w0"), p.index("wa")
        fom = 1 / np.sqrt(i[a, a] * i[b, b] - i[a, b] ** 2)
        ctx.close(g.loc["FoM"], fom, "figure-of-merit", rtol=1e-5)
        ctx.close(f.getFigureOfMerit(), fom, "figure-of-merit-direct", rtol=1e-5)
        q = sorted(sh.cosmo)[:2]
        x, y = p.index(q[0]), p.index(q[1])
        ctx.close(f.getFigureOfMerit(*q), 1 / np.sqrt(i[x, x] * i[y, y] - i[x, y] ** 2), "figure-of-merit-any-pair", rtol=1e-5)
        ctx.close(f.getMarginalizedErrors(only_cosmo=False).loc["FoM"], fom, "figure-of-merit-of-all", rtol=1e-5)
    else:
        ctx.check("FoM" not in g.index, "figure-of-merit-without-w0-wa")
    ctx.same(g.name, sh.name, "errors-name")
    u = f.getUnmarginalizedErrors()
    m = dict(zip(p, 1 / np.sqrt(np.diag(sh.mat()))))
    ctx.same(set(u.index), sh.cosmo, "unmarginalized-labels")
    ctx.close([u.loc[k] for k in sorted(sh.cosmo)], [m[k] for k in sorted(sh.cosmo)], "unmarginalized-errors", rtol=1e-6)
    ctx.check(all(e[k] >= m[k] * (1 - 1e-9) for k in p), "harness")


def histories(ctx):
    for it in range(ctx.n(25, 180)):
        pool = [_make(ctx) for _ in range(3)]
        trail = []
        for step in range(ctx.n(14, 22)):
            k = int(ctx.rng.integers(len(pool)))
            f, sh = pool[k]
            op = str(ctx.rng.choice(["add", "sub", "copy", "fix", "marg", "marg_in", "nuis", "nuis_in", "slice", "prior", "inv", "corr", "read", "unknown"]))
            trail.append(op)
            diag = np.diag(sh.mat()) if sh.pars else np.zeros(1)
            pd_ok = bool(np.all(diag > [1e-5 * sh.scale.get(a, 0) ** 2 for a in (sh.pars or [0])])) and bool(np.all(diag > 0)) and np.linalg.eigvalsh(sh.mat() / np.sqrt(np.outer(diag, diag)))[0] > 1e-6
            new = None
            had_inverse = f.inverse is not None
            if op in ("add", "sub"):
                g, sg = pool[int(ctx.rng.integers(len(pool)))]
                new = ((f + g) if op == "add" else (f - g), _sum(sh, sg, 1 if op == "add" else -1, f"{sh.name} {'+' if op == 'add' else '-'} {sg.name}"))
                ctx.saw("op.add")
            elif op == "copy":
                new = (f.copy() if ctx.rng.random() < .5 else copy.deepcopy(f), sh.clone())
            elif op == "fix" and len(sh.pars) > 3:
                out = [sh.pars[q] for q in ctx.rng.permutation(len(sh.pars))[:int(ctx.rng.integers(0, 3))]]
                if not sh.cosmo - set(out):
                    continue
                f.fixParameters(iter(out) if ctx.rng.random() < .3 else set(out))
                sh.cosmo, sh.nuis = sh.cosmo - set(out), sh.nuis - set(out)
                ctx.saw("op.fix")
                ctx.saw("stale_candidates", int(had_inverse and bool(out)))
            elif op in ("marg", "marg_in", "nuis", "nuis_in") and pd_ok:
                out = sh.nuis if "nuis" in op else {sh.pars[q] for q in ctx.rng.permutation(len(sh.pars))[:int(ctx.rng.integers(0, 3))]}
                if not sh.cosmo - out:
                    continue
                s2 = sh if op.endswith("_in") else sh.clone()
                inv = pd.DataFrame(sh.inv(), index=sh.pars, columns=sh.pars)
                keep = [p for p in sh.pars if p not in out]
                if "nuis" in op:
                    res = f.marginalizeNuisance(ret_copy=not op.endswith("_in"))
                else:
                    res = f.marginalizeParameters(set(out), ret_copy=not op.endswith("_in"))
                s2.put(keep, np.linalg.inv(inv.loc[keep, keep].to_numpy()))
                s2.cosmo, s2.nuis = s2.cosmo - out, s2.nuis - out
                if not op.endswith("_in"):
                    new = (res, s2)
                ctx.saw("op.marg")
            elif op == "slice":
                f.selectRelevantFisherSubMatrix()
                ctx.check(list(f.index) == sorted(f.index) == list(f.columns), "slice-sorted")
                ctx.saw("op.slice")
            elif op == "prior":
                who = {p: float(ctx.rng.uniform(-2, 2) or 1) for p in sh.pars if ctx.rng.random() < .4}
                frac = float(ctx.rng.uniform(.05, 1))
                f.addPriorToParameters(who, frac)
                for p, v in who.items():
                    sh.vals[p, p] = sh.vals.get((p, p), 0) + 1 / (frac * v) ** 2
                ctx.saw("op.prior")
                ctx.saw("stale_candidates", int(had_inverse and bool(who)))
            elif op == "inv" and pd_ok:
                f.evaluateInverse()
            elif op == "corr" and pd_ok:
                f.evaluateInverse()
                if ctx.rng.random() < .5 and sh.nuis and sh.cosmo:
                    inv = pd.DataFrame(sh.inv(), index=sh.pars, columns=sh.pars)
                    keep = sorted(sh.cosmo)
                    f.marginalizeParameters(sh.nuis, ret_copy=False)
                    sh.put(keep, np.linalg.inv(inv.loc[keep, keep].to_numpy()))
                    sh.nuis = set()
                f.evaluateCorrelationMatrix()
            elif op == "read" and pd_ok:
                _derived(ctx, f, sh)
            elif op == "unknown":
                ctx.raises(lambda: f.fixParameters({"nope"}), "fix-unknown-accepted")
                ctx.raises(lambda: f.marginalizeParameters({"nope"}), "marginalize-unknown-accepted", exc=FisherMatrixError)
                ctx.raises(lambda: f.addPriorToParameters({"nope": 1.}, .1), "prior-unknown-accepted")
                if sh.pars:
                    known = sh.pars[int(ctx.rng.integers(len(sh.pars)))]
                    ctx.raises(lambda: f.fixParameters([known, "nope"]), "fix-partly-unknown-accepted")
                    ctx.raises(lambda: f.marginalizeParameters({known, "nope"}, ret_copy=False), "marginalize-partly-unknown-accepted", exc=FisherMatrixError)
                    ctx.raises(lambda: f.addPriorToParameters({known: 1., "nope": 1.}, .1), "prior-partly-unknown-accepted")
            ctx.case((op, len(sh.cosmo), len(sh.nuis), had_inverse), sample=dict(history=trail[-8:], parameters=sh.pars))
            for q, (ff, ss) in enumerate(pool):
                _compare(ctx, ff, ss, op if q == k else f"{op} on another matrix", history=trail[-6:])
            if new is not None:
                _compare(ctx, *new, op + ":result", history=trail[-6:])
                if len(pool) < 6:
                    pool.append(new)
                else:
                    pool[int(ctx.rng.integers(6))] = new


def identities(ctx):
    for it in range(ctx.n(15, 120)):
        cosmo = ["w0", "wa", "Omm", "h"]
        f, sf = _make(ctx, "[A]", cosmo, ["bgph0", "bgph1"])
        g, sg = _make(ctx, "[B]", cosmo, ["bgsp0"])
        h, s3 = _make(ctx, "[C]", cosmo[:3] + ["ns"], [])
        vals = lambda x: x.matrix.sort_index(axis=0).sort_index(axis=1)  # noqa: E731
        ctx.case((it, ctx.round))
        ctx.close(vals(f + g), vals(g + f), "commutative", rtol=1e-12)
        ctx.close(vals((f + g) + h), vals(f + (g + h)), "associative", rtol=1e-9, atol=1e-9)
        # combining with more data never widens an error; fixing never widens, marginalizing in steps is the same as at once
        es, ef = (f + g).getMarginalizedErrors(fom=False), f.getMarginalizedErrors(fom=False)
        ctx.check(all(es.loc[p] <= ef.loc[p] * (1 + 1e-9) for p in cosmo), "sum-widens-errors")
        fx = f.copy()
        fx.fixParameters({"h"})
        ex = fx.getMarginalizedErrors(fom=False)
        ctx.check(all(ex.loc[p] <= ef.loc[p] * (1 + 1e-9) for p in cosmo if p != "h"), "fixing-widens-errors")
        one = f.marginalizeParameters({"bgph0", "bgph1"})
        two = f.marginalizeParameters({"bgph1"}).marginalizeParameters({"bgph0"})
        ctx.close(vals(one), vals(two), "marginalization-order", rtol=1e-6)
        ctx.close(one.getMarginalizedErrors(fom=False).sort_index(), ef.sort_index(), "marginalization-keeps-errors", rtol=1e-6)
        ctx.close(one.getFigureOfMerit(), 1 / np.sqrt(np.linalg.det(np.linalg.inv(sf.mat())[np.ix_(*[[sf.pars.index(x) for x in ("w0", "wa")]] * 2)])),
                  "marginalization-keeps-figure-of-merit", rtol=1e-5)
        # padding
        a, b = FisherMatrix.zeroPadMatrices(f.copy(), h.copy())
        union = sorted(set(sf.pars) | set(s3.pars))
        ctx.close(a.matrix.loc[union, union].to_numpy(float), sf.mat(union), "padding", rtol=1e-12)
        ctx.close(b.matrix.loc[union, union].to_numpy(float), s3.mat(union), "padding", rtol=1e-12)
        # equality is that of name, parameters and elements, whatever the storage order
        p = list(f.index)
        q = [p[k] for k in ctx.rng.permutation(len(p))]
        same = FisherMatrix(matrix_df=f.matrix.loc[q, q], name="[A]", cosmological_parameters=cosmo, nuisance_parameters=["bgph0", "bgph1"])
        ctx.check(same == f and f == same, "equal-up-to-storage-order")
        ctx.check(not (f == g) and not (f == h), "different-parameters-equal")
        other = f.copy()
        other.matrix.loc["w0", "w0"] *= 1 + 1e-9
        ctx.check(not (other == f), "different-elements-equal")
        # a copy is another matrix, with and without nuisance parameters
        for src, s in ((f, sf), (h, s3)):
            for dup in (src.copy(), copy.deepcopy(src)):
                dup.matrix.iloc[0, 0] += 1.
                dup.matrix.values[1, 1] *= 2
                dup.cosmological_parameters.add("gamma")
                dup.nuisance_parameters.add("bgph9")
                ctx.close(src.matrix.loc[s.pars, s.pars].to_numpy(float), s.mat(), "copy-aliases", rtol=1e-12)
                ctx.same((src.cosmological_parameters, src.nuisance_parameters), (s.cosmo, s.nuis), "copy-aliases-sets")
        other = f.copy()
        other.name = "[Z]"
        ctx.check(not (other == f), "different-names-equal")
        ctx.raises(lambda: setattr(other, "name", 3), "name-not-text", exc=TypeError)
        # a flag that excludes nuisance parameters slices them away (they are fixed, not marginalized)
        z = f.copy()
        z.marginalize_nuisance = False
        ctx.check(z.copy().marginalize_nuisance is False and copy.deepcopy(z).marginalize_nuisance is False, "flag-lost-by-copy")
        # one nuisance parameter only
        y = g.copy()
        y.marginalize_nuisance = False
        y.evaluateInverse()
        y.selectRelevantFisherSubMatrix()
        iy = np.linalg.inv(sg.mat(sorted(cosmo)))
        ey = y.getMarginalizedErrors(fom=False)
        ctx.close([ey.loc[p] for p in sorted(cosmo)], np.sqrt(np.diag(iy)), "flag-off-slice-of-one", rtol=1e-5)
        w = z.marginalizeNuisance()
        ctx.close(vals(w), vals(f), "flag-off-marginalized", rtol=1e-12)
        z.evaluateInverse()
        z.evaluateCorrelationMatrix()
        z.selectRelevantFisherSubMatrix()
        ctx.close(vals(z), sf.mat(sorted(cosmo)), "flag-off-slice", rtol=1e-12)
        iz = np.linalg.inv(sf.mat(sorted(cosmo)))
        ez = z.getMarginalizedErrors(fom=False)
        ctx.close([ez.loc[p] for p in sorted(cosmo)], np.sqrt(np.diag(iz)), "flag-off-slice-errors", rtol=1e-5)
        z.evaluateCorrelationMatrix()
        cz = z.correlation.loc[sorted(cosmo), sorted(cosmo)].to_numpy(float)
        ctx.close(cz, iz / np.sqrt(np.outer(np.diag(iz), np.diag(iz))), "flag-off-slice-correlations", rtol=1e-5, atol=1e-8)
        ctx.same((z.cosmological_parameters, z.nuisance_parameters), (set(cosmo), set()), "flag-off-sets")
        bad = f.copy()
        bad._cosmological_parameters = bad._cosmological_parameters | {"mnu"}
        ctx.raises(bad.selectRelevantFisherSubMatrix, "slice-of-missing-accepted", exc=FisherMatrixError)
        ctx.raises(bad.checkAttributes, "inconsistent-sets-accepted")
        # rows beyond the declared parameters are left out by slicing, and the errors are those of what is left
        more, left = f.copy(), sorted(sf.pars)
        gone = left.pop(int(ctx.rng.integers(len(left))))
        if ctx.rng.random() < .5:
            more.evaluateInverse()
            more.evaluateCorrelationMatrix()
        more._cosmological_parameters, more._nuisance_parameters = set(cosmo) - {gone}, {"bgph0", "bgph1"} - {gone}
        more.selectRelevantFisherSubMatrix()
        ctx.close(vals(more), sf.mat(left), "slice-of-more-rows", rtol=1e-12)
        im, em = np.linalg.inv(sf.mat(left)), more.getMarginalizedErrors(fom=False, only_cosmo=False)
        ctx.close([em.loc[p] for p in left], np.sqrt(np.diag(im)), "slice-of-more-rows-errors", rtol=1e-5)
        ctx.saw("more_rows")
        # a matrix read into an object which held another one
        with tempfile.TemporaryDirectory(dir=ctx.scratch()) as d:
            used = g.copy()
            used.evaluateInverse()
            used.evaluateCorrelationMatrix()
            h.writeToFile(outfile=Path(d) / "h.hdf5")
            used.loadFromFile(Path(d) / "h.hdf5")
            ctx.same((used.name, used.cosmological_parameters, used.nuisance_parameters), ("[C]", s3.cosmo, s3.nuis), "read-into-another")
            eu = used.getMarginalizedErrors(fom=False)
            ctx.close([eu.loc[p] for p in sorted(s3.cosmo)], np.sqrt(np.diag(np.linalg.inv(s3.mat(sorted(s3.cosmo))))), "read-into-another-errors", rtol=1e-5)
        bad = f.copy()
        bad._cosmological_parameters = set(sorted(bad._cosmological_parameters)[1:])
        ctx.raises(bad.checkAttributes, "unlabelled-row-accepted")
        f.checkAttributes()
        ctx.raises(lambda: f.copy().getParameterSigma("w0"), "sigma-before-inversion", exc=ValueError)


def analyses(ctx):
    """tables and geometry of an analysis over several matrices"""
    from scipy import special
    for it in range(ctx.n(8, 60)):
        cosmo = sorted(COSMO[k] for k in ctx.rng.permutation(len(COSMO))[:int(ctx.rng.integers(3, 7))])
        fid = {p: float(ctx.rng.choice([0., ctx.rng.uniform(-2, 2)])) for p in cosmo}
        items = {}
        for q in range(int(ctx.rng.integers(2, 5))):
            nuis = [NUIS[k] for k in ctx.rng.permutation(len(NUIS))[:int(ctx.rng.integers(0, 4))]]
            items[f"[F{q}]"] = _make(ctx, f"[F{q}]", cosmo, nuis)
        as_list = it % 2
        fs = [f for f, _ in items.values()] if as_list else {n: f for n, (f, _) in items.items()}
        an = FisherAnalysis(cosmo_pars_fiducial=fid, fisher_matrices=fs)
        ctx.same(set(an.fisher_matrices), set(items), "matrices-kept", given="list" if as_list else "dict")
        if set(an.fisher_matrices) != set(items):
            continue
        an.evaluateMarginalizedErrors()
        ctx.case((it, len(items), len(cosmo), ctx.round), sample=dict(matrices=list(items), parameters=cosmo))
        cols = set(cosmo) | ({"FoM"} if {"w0", "wa"} <= set(cosmo) else set())
        ctx.same(set(an.marginalized_errors.columns), cols, "error-columns")
        ctx.same(set(an.marginalized_errors.index), set(items), "error-rows")
        for n, (f, sh) in items.items():
            i = pd.DataFrame(sh.inv(), index=sh.pars, columns=sh.pars)
            for p in cosmo:
                s = np.sqrt(i.loc[p, p])
                ctx.close(an.marginalized_errors.loc[n, p], s, "error-table", rtol=1e-5)
                ctx.close(an.relative_marginalized_errors.loc[n, p], s / abs(fid[p]) if fid[p] else s, "relative-error-table", rtol=1e-5)
            if "FoM" in cols:
                fom = 1 / np.sqrt(np.linalg.det(i.loc[["w0", "wa"], ["w0", "wa"]]))
                ctx.close(an.marginalized_errors.loc[n, "FoM"], fom, "figure-of-merit-table", rtol=1e-5)
                ctx.close(an.relative_marginalized_errors.loc[n, "FoM"], fom, "figure-of-merit-relative", rtol=1e-5)
            # ranges and ellipses
            x, y = [cosmo[k] for k in ctx.rng.permutation(len(cosmo))[:2]]
            cl = float(ctx.rng.uniform(.3, .99))
            t = np.sqrt(2) * special.erfinv(cl)
            sx, sy = np.sqrt(i.loc[x, x]), np.sqrt(i.loc[y, y])
            ctx.close(an.computeParameterRangeForObsAtCL(x, n, cl), (fid[x] - t * sx, fid[x] + t * sx), "range", rtol=1e-5, atol=1e-9)
            el = an.computeEllipseInfoDictForObsAndCL(x, y, n, cl)
            ctx.close(el["xy"], (fid[x], fid[y]), "ellipse-centre", rtol=1e-12, atol=1e-15)
            a, b, th = el["width"] / 2, el["height"] / 2, np.deg2rad(el["angle"])
            C = np.array([[i.loc[x, x], i.loc[x, y]], [i.loc[x, y], i.loc[y, y]]]) * t ** 2
            R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
            ctx.close(R @ np.diag([a * a, b * b]) @ R.T / np.outer([sx, sy], [sx, sy]), C / np.outer([sx, sy], [sx, sy]), "ellipse", atol=1e-5)
            gd = an.computeGaussianInfoDictForObsAndCL(x, n, cl, fid[x] - 4 * sx, fid[x] + 4 * sx)
            ctx.close(gd["y"], np.exp(-.5 * ((gd["x"] - fid[x]) / sx) ** 2), "gaussian", rtol=1e-4, atol=1e-8)
            ctx.check(np.array_equal(gd["cl_mask"], np.abs(gd["x"] - fid[x]) <= t * gd["sigma"]) or
                      np.abs(gd["cl_mask"].mean() - min(1, t / 4)) < .02, "gaussian-interval")
        # a subset holds the same numbers; the order is that requested
        sub = [n for n in items if ctx.rng.random() < .6] or list(items)[:1]
        sub = [sub[k] for k in ctx.rng.permutation(len(sub))]
        for again in (False, True):
            s = an.getSubsetAnalysis(sub, recompute_errs=again)
            ctx.same((s.fishers_order, set(s.fisher_matrices)), (sub, set(sub)), "subset")
            ctx.close(s.marginalized_errors.loc[sub, sorted(cols)].to_numpy(float), an.marginalized_errors.loc[sub, sorted(cols)].to_numpy(float), "subset-errors", rtol=1e-9)
            ctx.close(s.relative_marginalized_errors.loc[sub, sorted(cols)].to_numpy(float), an.relative_marginalized_errors.loc[sub, sorted(cols)].to_numpy(float), "subset-relative-errors", rtol=1e-9)
        ctx.same(set(an.fisher_matrices), set(items), "subset-changes-original")
        # what is done to a subset stays there
        given = {n: an[n] for n in items}
        s.marginalizeFishers("all_nuisance" if it % 2 else {cosmo[-1]})
        for n, (f, sh) in items.items():
            if ctx.check(set(an[n].index) == set(sh.pars) and an[n].nuisance_parameters == set(sh.nuis), "subset-shares-matrices", name=n, left=list(an[n].index), parameters=sh.pars):
                ctx.close(an[n].matrix.loc[sh.pars, sh.pars].to_numpy(float), sh.mat(), "subset-shares-matrices", rtol=1e-9)
        order = [list(items)[k] for k in ctx.rng.permutation(len(items))]
        an.fishers_order = order
        ctx.same(an.fishers_order, order, "order")
        ctx.raises(lambda: setattr(an, "fishers_order", order + ["[nope]"]), "order-unknown-accepted")
        ctx.raises(lambda: setattr(an, "fishers_order", order[1:]), "order-incomplete-accepted")
        # marginalizing the analysis: matrices lose exactly those parameters, errors of the others stay
        before = an.marginalized_errors.copy()
        if it % 3 == 0:
            an.marginalizeFishers("all_nuisance")
            gone = set()
        else:
            gone = {cosmo[0], "bgph0"}
            an.marginalizeFishers(gone)
        for n, (f, sh) in items.items():
            ctx.check(set(given[n].index) == set(sh.pars), "marginalized-analysis-shares-matrices", name=n, left=list(given[n].index), parameters=sh.pars)
        an.evaluateMarginalizedErrors()
        for n, (f, sh) in items.items():
            want = set(sh.cosmo) - gone if it % 3 else set(sh.cosmo)
            ctx.same(set(an[n].cosmological_parameters), want, "marginalized-analysis-sets")
            ctx.same(set(an[n].index), want | ((sh.nuis - gone) if it % 3 else set()), "marginalized-analysis-labels")
            for p in want:
                ctx.close(an.marginalized_errors.loc[n, p], before.loc[n, p], "marginalized-analysis-errors", rtol=1e-5)
        # sums of base matrices
        base = {n: f.copy() for n, f in an.fisher_matrices.items()}
        s2 = FisherAnalysis(cosmo_pars_fiducial=fid)
        s2.base_fishers = base
        names = list(base)
        s2.evaluateFishersFromAddendsList([[names[0]], names[:2], names])
        ctx.same(set(s2.fisher_matrices), {names[0], "+".join(names[:2]), "+".join(names)}, "addends-names")
        tot = _sum(*[_shadow_of(base[n]) for n in names[:2]], 1, "x")
        ctx.close(s2["+".join(names[:2])].matrix.loc[tot.pars, tot.pars].to_numpy(float), tot.mat(), "addends-sum", rtol=1e-9)
        ctx.raises(lambda: s2.evaluateFishersFromAddendsList([["[nope]"]]), "addend-unknown-accepted")
        ctx.raises(lambda: s2.evaluateFishersFromAddendsList([[names[0], "[nope]"]]), "addend-unknown-accepted")
        s2.marginalizeFishers({sorted(base[names[0]].index)[0]})
        s2.useBaseFishers()
        s2.marginalizeFishers("all_nuisance" if it % 2 else {sorted(base[names[0]].index)[0]})
        for n in names:
            ctx.check(base[n] == an[n], "addends-mutated")
    ctx.raises(lambda: FisherAnalysis(fisher_matrices=[1]), "not-matrices-accepted", exc=TypeError)
    ctx.raises(lambda: FisherAnalysis(fisher_matrices={"a": 1}), "not-matrices-accepted", exc=TypeError)


def _shadow_of(f):
    s = Shadow(f.name, f.cosmological_parameters, f.nuisance_parameters, {})
    s.put(s.pars, f.matrix.loc[s.pars, s.pars].to_numpy(float))
    return s


SECTIONS = [histories, identities, analyses]
