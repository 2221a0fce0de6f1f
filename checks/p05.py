"""P05: composite Newton-Cotes quadrature and the numeric helpers built on grids."""
import numpy as np

from seyfert.numeric import general as ng
from seyfert.numeric.integration import CompositeNewtonCotesIntegrator
from seyfert.utils import converters as cv

PROPERTY = "P05"
LEVEL = "exploration"
RULE = ("every order 1..6 x every number of points 2..60 x random sampled arrays of rank 1-4 over every axis, decided "
        "against an independent exact integral of the piecewise interpolating polynomial; non-trivial = leftover "
        "points, rank > 1 or non-trailing axis")
ASSUMPTIONS = ["grids are equally spaced (the rule is only defined there)"]
NEEDS = {"oracle.quadrature": 898, "oracle.rejections": 7, "oracle.helpers": 100}


def _weights(m):
    """exact integration weights of the degree-m interpolant on nodes 0..m"""
    nodes = np.arange(m + 1)
    w = []
    for i in range(m + 1):
        poly = np.poly1d([1.0])
        for j in nodes:
            if j != i:
                poly *= np.poly1d([1.0, -j]) / (i - j)
        P = poly.integ()
        w.append(P(m) - P(0))
    return np.array(w)


W = {m: _weights(m) for m in range(1, 7)}


def reference(y, dx, order):
    """y has the integration axis first"""
    n = y.shape[0]
    out = 0.0
    k = 0
    while k < n - 1:
        m = min(order, n - 1 - k)
        out = out + dx * np.tensordot(W[m], y[k:k + m + 1], axes=(0, 0))
        k += m
    return out


def quadrature(ctx):
    for order in range(1, 7):
        for n in range(2, ctx.n(40, 90)):
            rank = int(ctx.rng.integers(1, 5))
            shape = [int(v) for v in ctx.rng.integers(1, 4, size=rank)]
            ax = int(ctx.rng.integers(rank))
            shape[ax] = n
            y = ctx.rng.normal(size=shape)
            a = float(ctx.rng.uniform(-3, 3))
            b = a + float(10 ** ctx.rng.uniform(-2, 2))
            x = np.linspace(a, b, n)
            ctx.case((order, n, tuple(shape), ax), sample={"order": order, "shape": shape, "axis": ax},
                     nontrivial=(n - 1) % order != 0 or rank > 1)
            y0, x0 = y.copy(), x.copy()
            ref = reference(np.moveaxis(y, ax, 0), (b - a) / (n - 1), order)
            scale = np.abs(y).max() * (b - a)
            axis_arg = ax if ctx.rng.random() < .5 else ax - rank
            o = order if ctx.rng.random() < .7 else np.int64(order)
            got = CompositeNewtonCotesIntegrator(x, y, order=o, axis=axis_arg).computeIntegral()
            ctx.close(got, ref, "value", rtol=1e-9, atol=1e-11 * scale, order=order, n=n, shape=shape, axis=axis_arg)
            if ax == rank - 1:
                got = CompositeNewtonCotesIntegrator(x, y, order=order).computeIntegral()
                ctx.close(got, ref, "default-axis", rtol=1e-9, atol=1e-11 * scale, order=order, n=n)
            # the other way along the grid the integral changes sign
            back = CompositeNewtonCotesIntegrator(x[::-1].copy(), np.flip(y, ax).copy(), order=order, axis=ax).computeIntegral()
            ctx.close(back, -reference(np.moveaxis(np.flip(y, ax), ax, 0), (b - a) / (n - 1), order), "descending", rtol=1e-9, atol=1e-11 * scale, order=order, n=n)
            c = float(ctx.rng.normal())
            z = ctx.rng.normal(size=shape)
            gz = CompositeNewtonCotesIntegrator(x, z, order=order, axis=ax).computeIntegral()
            gl = CompositeNewtonCotesIntegrator(x, y + c * z, order=order, axis=ax).computeIntegral()
            ctx.close(gl, got + c * np.asarray(gz), "linearity", rtol=1e-8, atol=1e-9 * scale * (1 + abs(c)) * 10, order=order, n=n)
            ctx.check(np.array_equal(y, y0) and np.array_equal(x, x0), "inputs-mutated")
            # exact on polynomials of the degree the coarsest block supports
            deg = min(order, n - 1, (n - 1) % order or order)
            coef = ctx.rng.normal(size=deg + 1)
            p = np.polynomial.Polynomial(coef)
            ip = p.integ()
            got = CompositeNewtonCotesIntegrator(x, p(x), order=order).computeIntegral()
            ctx.close(got, ip(b) - ip(a), "polynomial-exactness", rtol=1e-8,
                      atol=1e-9 * (b - a) * float(np.abs(coef).sum()) * max(1, abs(a), abs(b)) ** deg, order=order, n=n, degree=deg)
            it = CompositeNewtonCotesIntegrator(x, y, order=order, axis=ax)
            ctx.same((it.n_tot_points, it.n_bins, it.n_excess_points), (n, (n - 1) // order, (n - 1) % order), "bookkeeping")
            ctx.same(np.asarray(it.computeIntegral()), np.asarray(it.computeIntegral()), "repeatable")


def rejections(ctx):
    x = np.linspace(0, 1, 9)
    y = np.ones((3, 9))
    for k, (args, kw) in enumerate([
        ((x, y, 0), {}), ((x, y, -2), {}), ((x, y, 7), {}), ((x, y, 100), {}), ((x, y, 2), {"axis": 0}),
        ((x, y[:, :8], 2), {}), ((x, y[:, :1], 2), {}), ((x, np.ones((3, 10)), 2), {}), ((x, np.ones(12), 3), {}), ((x[None], y, 2), {}), ((list(x), y, 2), {}), ((x, y.tolist(), 2), {}),
        ((x, y, "two"), {}), ((x, y, None), {}), ((x, y, 2), {"axis": 5}),
    ]):
        ctx.case(k)
        ctx.raises(lambda: CompositeNewtonCotesIntegrator(*args, **kw).computeIntegral(), "invalid-input-accepted", case=k)


def helpers(ctx):
    for _ in range(ctx.n(200, 2000)):
        deg = int(ctx.rng.integers(0, 5))
        p = np.polynomial.Polynomial(ctx.rng.normal(size=deg + 1))
        x = ctx.rng.uniform(-3, 3, size=int(ctx.rng.integers(1, 5)))
        h = float(10 ** ctx.rng.uniform(-2, 0))
        ctx.case((deg, h))
        ctx.close(ng.callable_stencil_derivative(p, x, h), p.deriv()(x), "stencil-exact-to-degree-4", rtol=1e-6, atol=1e-8)
        q = np.polynomial.Polynomial([0, 0, 0, 0, 0, 1.0])
        ctx.close(ng.callable_stencil_derivative(q, x, h), q.deriv()(x) - 4 * h ** 4, "stencil-fifth-order-error", rtol=1e-5, atol=1e-7)
        ctx.close(ng.callable_stencil_derivative(lambda t, k: k * t, x, h, k=2.5), np.full(x.shape, 2.5), "stencil-kwargs", rtol=1e-9)
        lo = float(ctx.rng.uniform(-2, 2))
        hi = lo + float(ctx.rng.uniform(.1, 3))
        N = int(ctx.rng.integers(0, 5))
        t = np.sort(ctx.rng.uniform(lo - 1, hi + 1, size=40))
        s = ng.smoothstep(t, lo, hi, N)
        ctx.check(np.all(s[t <= lo] == 0) and np.allclose(s[t >= hi], 1, atol=1e-9), "smoothstep-limits", N=N)
        ctx.check(np.all(np.diff(s) >= -1e-9) and np.all(s >= -1e-9) and np.all(s <= 1 + 1e-9), "smoothstep-monotone", N=N)
        ctx.close(s + ng.smoothstep(lo + hi - t, lo, hi, N), np.ones(40), "smoothstep-odd-symmetry", rtol=0, atol=1e-9, N=N)
        a, b = ctx.rng.uniform(0.1, 5, size=(2, 6))
        ctx.close(ng.pad(a, b), 200 * np.abs(a - b) / (a + b), "percentage-difference", rtol=1e-12)
        ctx.close(ng.pad(a, b), ng.pad(b, a), "percentage-difference-symmetric", rtol=1e-12)
        ctx.close(ng.pad(a, a), np.zeros(6), "percentage-difference-zero", atol=0)
        z = np.array([0.0, 1.0, -1.0])
        ctx.close(ng.pad(z, np.array([0.0, 3.0, 1.0])), [0, 100, 0], "percentage-difference-null", rtol=1e-12)
        ctx.close(ng.percentage_difference(a, b), 100 * (a / b - 1), "relative-difference", rtol=1e-9, atol=1e-9)
        v = float(ctx.rng.uniform(.1, 1e4))
        for to, back in ((cv.InchesToPts, cv.PtsToInches), (cv.InchesToCm, cv.CmToInches), (cv.SteradToDeg2, cv.Deg2ToSterad),
                         (cv.SteradToArcmin2, cv.Arcmin2ToSterad), (cv.invDeg2ToInvSterad, cv.invSteradToinvDeg2),
                         (cv.invArcmin2ToInvSterad, cv.invSteradToinvArcmin2)):
            ctx.close(back(to(v)), v, "unit-round-trip-" + to.__name__, rtol=1e-12)
            ctx.close(to(np.array([v, 2 * v])), to(v) * np.array([1, 2]), "unit-linear-" + to.__name__, rtol=1e-12)
        ctx.close(cv.SteradToArcmin2(v), 3600 * cv.SteradToDeg2(v), "arcmin-per-degree", rtol=1e-12)
        ctx.close(cv.SteradToDeg2(4 * np.pi), 41252.96124941928, "full-sky", rtol=1e-10)
        ctx.close(cv.invArcmin2ToInvSterad(v), 3600 * cv.invDeg2ToInvSterad(v), "density-arcmin-per-degree", rtol=1e-12)
        ctx.close(cv.invDeg2ToInvSterad(v) * cv.Deg2ToSterad(1.0), v, "density-vs-area", rtol=1e-12)


SECTIONS = [quadrature, rejections, helpers]
