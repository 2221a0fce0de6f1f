"""Random noisy spectra and derivatives, and their Gaussian information computed by definition."""
import itertools

import numpy as np

from vlib import probes as pr

LONG, ALIAS = pr.LONG, pr.ALIAS


class Lab:
    """random joint positive definite noisy spectra of `names` (alias) on per-probe multipole grids, stored in a random order of each pair"""

    def __init__(self, ctx, idx, n_ell=4, grids=None, nb=None, n_par=3):
        rng = ctx.rng
        self.ctx, self.idx = ctx, list(idx)
        self.nb = nb or {i: int(rng.integers(1, 4)) for i in self.idx}
        base = np.sort(rng.choice(np.arange(10, 2000), size=n_ell, replace=False)).astype(float)
        if rng.random() < .6:
            base = base + np.round(rng.uniform(0, .99, size=n_ell), 3)        # centres of logarithmic bins are not integers
        self.base = base
        self.grids = grids or {i: base for i in self.idx}
        self.joint = {}
        tot = sum(self.nb.values())
        # the spectra of different probes may differ by orders of magnitude
        s = np.repeat(10 ** rng.uniform(-3, 1, size=len(self.idx)), [self.nb[i] for i in self.idx]) if rng.random() < .4 else np.ones(tot)
        self.sizes = np.outer(s, s)
        self.off = dict(zip(self.idx, np.cumsum([0] + [self.nb[i] for i in self.idx])))
        for l in sorted({x for g in self.grids.values() for x in g}):
            a = rng.normal(size=(tot, tot + 2))
            self.joint[l] = (a @ a.T + .3 * np.eye(tot)) * self.sizes
        self.pars = [f"p{k}" for k in range(n_par)]
        self.djoint = {}
        for p in self.pars:
            self.djoint[p] = {}
            for l in self.joint:
                a = rng.normal(size=(tot, tot))
                self.djoint[p][l] = (a + a.T) * self.sizes
        self.stored = {}
        for a, b in itertools.combinations_with_replacement(self.idx, 2):
            if rng.random() < .5:
                a, b = b, a
            self.stored[(a, b)] = np.array([l for l in self.grids[a] if l in set(self.grids[b])])

    def sub(self, mat, a, b):
        return mat[self.off[a]:self.off[a] + self.nb[a], self.off[b]:self.off[b] + self.nb[b]]

    def delta_cls(self):
        from seyfert.fisher.delta_cl import DeltaCl, DeltaClCollection
        d = DeltaClCollection()
        for (a, b), ells in self.stored.items():
            blk = DeltaCl(name=pr.spell(a, b, "long"), ells=ells)
            blk.probe_1, blk.probe_2 = LONG[a], LONG[b]
            blk.delta_c_lij = np.array([self.sub(self.joint[l], a, b) for l in ells]).reshape(len(ells), self.nb[a], self.nb[b])
            d.single_blocks[pr.spell(a, b, "long")] = blk
        return d

    def derivatives(self, ells_of=None, order=None):
        from seyfert.derivatives.cl_derivative import ClDerivative, ClDerivativeCollector
        out = {}
        for p in self.pars:
            col = ClDerivativeCollector(dvar=p)
            keys = list(self.stored)
            for k in (self.ctx.rng.permutation(len(keys)) if order is None else order):
                a, b = keys[k]
                ells = self.stored[(a, b)] if ells_of is None else ells_of(p, a, b)
                der = ClDerivative(p1=LONG[a], p2=LONG[b])
                der.l_bin_centers = ells
                der.dc_lij = np.array([self.sub(self.djoint[p][l], a, b) for l in ells]).reshape(len(ells), self.nb[a], self.nb[b])
                col.dcl_dict[pr.spell(a, b, "long")] = der
            out[p] = col
        return out

    # ---------------------------------------------------------------- definitions
    def elements(self, entry):
        """independent (row, col) elements of an observable, column stacking, upper half for autos"""
        a, b = entry
        return [(i, j) for j in range(self.nb[b]) for i in range(self.nb[a]) if a != b or i <= j]

    def cov(self, entries, l):
        """Wick covariance of every pair of elements of the data vector at one multipole"""
        els = [(e, i, j) for e in entries for i, j in self.elements(e)]
        D = self.joint[l]
        at = [(self.off[a] + i, self.off[b] + j) for (a, b), i, j in els]
        return np.array([[D[x1, y1] * D[x2, y2] + D[x1, y2] * D[x2, y1] for y1, y2 in at] for x1, x2 in at]) / (2 * l + 1)

    def dvec(self, entries, p, l):
        return np.array([self.djoint[p][l][self.off[a] + i, self.off[b] + j] for a, b in entries for i, j in self.elements((a, b))])

    def fisher_at(self, entries, l, pars=None):
        pars = pars or self.pars
        v = np.array([self.dvec(entries, p, l) for p in pars])
        c = self.cov(entries, l)
        s = np.sqrt(np.diag(c))
        v = v / s
        return v @ np.linalg.solve(c / np.outer(s, s), v.T)

    def common(self, entries, cross_terms=True):
        """multipoles at which the covariance of the entries is defined: those of every probe involved"""
        inv = {i for e in entries for i in e}
        return sorted(set.intersection(*[set(self.grids[i]) for i in inv]))

    def fisher(self, entries):
        common = self.common(entries)
        F = sum((self.fisher_at(entries, l) for l in common), np.zeros((len(self.pars),) * 2))
        if len(entries) > 1 or entries[0][0] != entries[0][1]:
            for a, b in entries:
                if a == b:
                    for l in self.grids[a]:
                        if l not in common:
                            F = F + self.fisher_at([(a, a)], l)
        return F
