"""C19: grids keep points, values and arithmetic aligned in every dimension"""
import itertools
import operator
import os

import numpy as np

from vlib import core, sim

RULE = ("one signature per (kind of check, dimension, point numbers, operator and kind of operands / mode)")
REQUIRED = {
    "grids": 2000,
    "grid points compared": 100000,
    "arithmetic operations": 5000,
    "operands compared before and after": 8000,
    "refused operations": 1500,
    "interpolated points": 10000,
    "fill values outside": 1000,
    "sparsified grids": 150,
    "grids from step sizes": 1500,
    "convolutions": 200,
    "grid files": 250,
    "histogram grids": 200,
}
ASSUMPTIONS = ["grids have at least two points per dimension (histograms: bins)"]


def cases(tier, seed):
    mul = 1 if tier == "quick" else 14
    return ([dict(mode="points", seed=seed * 100699 + i) for i in range(8 * mul)]
            + [dict(mode="arith", seed=seed * 100703 + i) for i in range(10 * mul)]
            + [dict(mode="interp", seed=seed * 100733 + i) for i in range(12 * mul)]
            + [dict(mode="steps", seed=seed * 100741 + i) for i in range(6 * mul)]
            + [dict(mode="convolve", seed=seed * 100747 + i) for i in range(6 * mul)]
            + [dict(mode="files", seed=seed * 100769 + i) for i in range(6 * mul)]
            + [dict(mode="histogram", seed=seed * 100787 + i) for i in range(6 * mul)])


def shape(rng, n_dim, top=None):
    top = top or {1: 40, 2: 12, 3: 7}[n_dim]
    return [int(x) for x in rng.integers(2, top, size=n_dim)]


def some_ranges(rng, n_dim):
    out = []
    for _ in range(n_dim):
        k = rng.integers(4)
        if k == 0:
            lo, w = float(rng.integers(-5, 5)), float(rng.integers(1, 6))
        elif k == 1:
            lo, w = float(rng.normal()), float(rng.uniform(0.1, 5))
        elif k == 2:
            lo, w = float(np.round(rng.normal() * 3, 1)), float(np.round(rng.uniform(0.1, 4), 1))
        elif rng.random() < 0.5:
            lo, w = 0.0, 1.0
        else:  # any unit of length
            w = float(10.0 ** rng.integers(-10, 8))
            lo = w * float(np.round(rng.normal(), 1))
        out.append((lo, lo + w))
    return out


def product_points(axes):
    """Independent row-major enumeration"""
    return np.array(list(itertools.product(*[list(map(float, a)) for a in axes])))


def ref_axes(ranges, n):
    return [[lo + (hi - lo) * i / (k - 1) for i in range(k)] for (lo, hi), k in zip(ranges, n)]


def make(rng, n_dim=None, data="normal", ranges=None, n=None):
    from bdld import grid

    n_dim = n_dim or int(rng.integers(1, 4))
    n = n or shape(rng, n_dim)
    ranges = ranges or some_ranges(rng, n_dim)
    given_n = list(n)
    if len(set(n)) == 1 and rng.random() < 0.5:
        given_n = int(n[0])
    g = grid.from_npoints(list(ranges), given_n)
    size = int(np.prod(n))
    if data == "normal":
        g.data = rng.normal(size=size)
    elif data == "positive":
        g.data = rng.uniform(0.1, 3, size=size).reshape(n)
    elif data == "integer":
        g.data = rng.integers(-4, 5, size=size).astype(float)
    return g, ranges, n


def span(ranges):
    return max(max(abs(lo), abs(hi)) for lo, hi in ranges)


def check_points(mon, g, ranges, n, /, **w):
    w = dict(dict(ranges=ranges, n_points=n), **w)
    pts = np.asarray(g.points())
    want = product_points(ref_axes(ranges, n))
    mon.count("grid points compared", len(want))
    ok = mon.check(int(g.n_dim) == len(n) and [int(x) for x in g.n_points] == list(n), "numbers of points",
                   got=g.n_points, want=n, **w)
    tol = 1e-12 * (1 + span(ranges))
    ok = ok and mon.close(pts, want, "points are all combinations of the axes in row-major order", rtol=0, atol=tol,
                          **w)
    axes = g.axes()
    ok = ok and mon.check(len(axes) == len(n), "one axis per dimension", **w)
    for a, b in zip(axes, ref_axes(ranges, n)):
        ok = ok and mon.close(a, b, "axes are evenly spaced over the range", rtol=0, atol=tol, **w)
    steps = [(hi - lo) / (k - 1) for (lo, hi), k in zip(ranges, n)]
    ok = ok and mon.close(g.stepsizes, steps, "step sizes are the distances of the points", rtol=1e-9, atol=1e-14, **w)
    return ok


def run_points(rng, mon):
    from bdld import grid

    for rep in range(260):
        g, ranges, n = make(rng)
        n_dim = len(n)
        mon.count("executions")
        mon.count("grids")
        mon.sig("points", n)
        if not check_points(mon, g, ranges, n):
            return
        # data and points correspond
        co = rng.normal(size=n_dim)

        def f(p):
            p = np.asarray(p, dtype=float).ravel()
            return float(np.sin(p @ co) + p[0])

        g.set_from_func(f)
        want = np.array([f(p) for p in product_points(ref_axes(ranges, n))]).reshape(n)
        if not mon.close(g.data, want, "values set by function belong to their points", rtol=1e-9, atol=1e-9, n_points=n):
            return
        idx = tuple(int(rng.integers(k)) for k in n)
        flat = int(np.ravel_multi_index(idx, n))
        mon.check(g[idx] == np.asarray(g.data).ravel()[flat], "indexing gives the value of that point")
        new = float(rng.normal())
        old = np.array(g.data)
        g[idx] = new
        old[idx] = new
        mon.check(np.array_equal(g.data, old), "setting an element changes this element only", n_points=n)
        for size in {int(np.prod(n)) + 1, int(np.prod(n)) - 1, 0, 2 * int(np.prod(n)), n[0] if n_dim > 1 else 1}:
            before = np.array(g.data)
            refused(mon, lambda: setattr(g, "data", np.zeros(size)), "data of the wrong size is refused", size=size,
                    n_points=n)
            mon.check(np.array_equal(g.data, before), "refused data leaves the grid unchanged", size=size)
        h = g.copy_empty()
        if not check_points(mon, h, ranges, n, what="copy"):
            return
        if n_dim > 1:
            refused(mon, lambda: grid.from_npoints(list(ranges), list(n) + [3]), "dimensions must match", n=n)
            refused(mon, lambda: grid.from_npoints(list(ranges), list(n)[:-1]), "dimensions must match", n=n)
    mon.sample(dict(n_points=n, ranges=ranges))


def refused(mon, fn, what, /, **w):
    mon.count("refused operations")
    try:
        res = fn()
    except Exception:
        mon.checks[what] = mon.checks.get(what, 0) + 1
        return True
    return mon.check(False, what, result=repr(res)[:200], **w)


BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
       "%": operator.mod, "**": operator.pow}


class Guard:
    """Remembers a grid, to see whether an operation changed it"""

    def __init__(self, g):
        self.g = g
        self.data = np.array(g.data)
        self.meta = (tuple(tuple(map(float, r)) for r in g.ranges), tuple(int(x) for x in g.n_points),
                     tuple(float(s) for s in g.stepsizes), int(g.n_dim))

    def ok(self, mon, **w):
        g = self.g
        mon.count("operands compared before and after")
        meta = (tuple(tuple(map(float, r)) for r in g.ranges), tuple(int(x) for x in g.n_points),
                tuple(float(s) for s in g.stepsizes), int(g.n_dim))
        return mon.check(meta == self.meta and np.array_equal(g.data, self.data, equal_nan=True),
                         "operands are left unchanged", **w)


def run_arith(rng, mon):
    for rep in range(120):
        kind = str(rng.choice(["normal", "positive", "integer"]))
        g, ranges, n = make(rng, data=kind)
        other, _, _ = make(rng, data=str(rng.choice(["normal", "positive", "integer"])), ranges=ranges, n=n)
        mon.count("grids")
        with np.errstate(all="ignore"):
            for sym, op in BIN.items():
                operands = {
                    "grid": (other, np.array(other.data)),
                    "float": (float(rng.normal()),) * 2,
                    "int": (int(rng.integers(-3, 4)),) * 2,
                    "numpy float": (np.float64(rng.normal()),) * 2,
                }
                arr = rng.normal(size=n)
                operands["array"] = (arr, arr.copy())
                operands["itself"] = (g, np.array(g.data))
                for name, (x, plain) in operands.items():
                    gd = [Guard(g)] + ([Guard(x)] if name in ("grid", "itself") else [])
                    if name == "int" and plain == 0 and sym in ("//", "%"):
                        continue
                    want = op(np.array(g.data), plain)
                    res = op(g, x)
                    mon.count("executions")
                    mon.count("arithmetic operations")
                    mon.sig("arith", sym, name, n)
                    w = dict(operator=sym, operand=name, n_points=n)
                    if not mon.close(res.data, want, "arithmetic acts element by element", rtol=1e-12, atol=1e-12, **w):
                        return
                    if not check_points(mon, res, ranges, n, **w):
                        return
                    if not all(x2.ok(mon, **w) for x2 in gd):
                        return
                    if name == "array":
                        mon.check(np.array_equal(arr, plain), "operands are left unchanged", **w)
                    if not mon.check(res is not g and not np.shares_memory(res.data, g.data) and (
                            name not in ("grid", "itself") or not np.shares_memory(res.data, x.data)),
                            "results are new grids", **w):
                        return
            # reversed operators and in-place notation
            s = [float(rng.normal()), -1, 0, 2, -1.0, -3, 1][rep % 7]
            for w_name, res, want in (("radd", s + g, s + np.array(g.data)), ("rmul", s * g, s * np.array(g.data)),
                                      ("neg", -g, -np.array(g.data)), ("pos", +g, np.array(g.data)),
                                      ("exp", g.exp(), np.exp(np.array(g.data))), ("log", g.log(), np.log(np.array(g.data))),
                                      ("np.exp", np.exp(g), np.exp(np.array(g.data))),
                                      ("np.log", np.log(g), np.log(np.array(g.data)))):
                mon.count("arithmetic operations")
                mon.sig("unary", w_name, n)
                if not mon.close(res.data, want, "functions act element by element", rtol=1e-12, atol=1e-12, function=w_name):
                    return
                if not check_points(mon, res, ranges, n, function=w_name):
                    return
                mon.check(not np.shares_memory(res.data, g.data), "results are new grids", function=w_name)
            gd = Guard(g)
            k = g
            k += 1.5
            k *= other
            k -= g
            if not mon.close(k.data, (gd.data + 1.5) * np.array(other.data) - gd.data, "chained operations", rtol=1e-11,
                             atol=1e-11):
                return
            if not gd.ok(mon, what="in-place notation"):
                return
            # mutating a result does not change the operands
            r = g + 1.0
            gd = Guard(g)
            r.data.fill(7.0)
            r.ranges[0] = (-99.0, 99.0)
            if not gd.ok(mon, what="result mutated"):
                return
        # equality
        same, _, _ = make(rng, data=None, ranges=ranges, n=n)
        same.data = np.array(g.data)
        mon.check(g == same and not (g != same), "grids with equal points and values are equal")
        at = tuple(int(rng.integers(k)) for k in n)
        for step in (1.0, 1e-3, 1e-10):  # far above rounding, far below any tolerance of a comparison
            same.data = np.array(g.data)
            same[at] = g[at] + step * max(1.0, abs(float(g[at])))
            if not mon.check(not (g == same) and g != same, "grids with different values differ", step=step, n=n):
                return
        same.data = np.array(g.data)
        same[at] = np.nextafter(float(g[at]), np.inf)
        if not mon.check(not (g == same) and g != same, "grids with different values differ", step="one ulp", n=n):
            return
        # different points are refused
        n2 = list(n)
        d = int(rng.integers(len(n)))
        n2[d] += int(rng.choice([-1, 1])) if n2[d] > 2 else 1
        r2 = list(ranges)
        shift = float(rng.choice([0.5, 1e-3, -1.0])) * (ranges[d][1] - ranges[d][0])
        r2[d] = (r2[d][0], r2[d][1] + shift) if rng.random() < 0.5 or shift < 0 and shift <= -1 else (r2[d][0] - shift, r2[d][1])
        if r2[d][1] <= r2[d][0]:
            r2[d] = (ranges[d][0] - 1.0, ranges[d][1])
        strangers = [make(rng, ranges=ranges, n=n2)[0], make(rng, ranges=r2, n=n)[0]]
        strangers[1].data = np.array(g.data)  # equal but for the points
        r3 = list(ranges)
        small = float(rng.choice([0.05, 1e-3, 1e-6])) * (ranges[d][1] - ranges[d][0])
        r3[d] = (r3[d][0], r3[d][1] + small) if rng.random() < 0.5 else (r3[d][0] + small, r3[d][1] + small)
        strangers.append(make(rng, ranges=r3, n=n)[0])
        strangers[2].data = np.array(g.data)
        if len(n) > 1 and n[::-1] != n:
            strangers.append(make(rng, ranges=ranges[::-1], n=n[::-1])[0])
        for s2 in strangers:
            mon.check(not (g == s2), "grids with different points differ", n=n, other_n=s2.n_points, ranges=ranges,
                      other_ranges=s2.ranges)
            gd = Guard(g)
            for sym, op in BIN.items():
                if not refused(mon, lambda: op(g, s2), "combining grids with different points is refused", operator=sym,
                               n=n, other_n=s2.n_points, ranges=ranges, other_ranges=s2.ranges):
                    return
            gd.ok(mon, what="refused")
        for bad in ("text", None, {}, np.zeros([k + 1 for k in n])):
            for sym in ("+", "*", "/"):
                if not refused(mon, lambda: BIN[sym](g, bad), "combining with unsuitable operands is refused",
                               operator=sym, operand=repr(bad)[:40]):
                    return
    mon.sample(dict(n_points=n, ranges=ranges, kind=kind))


def cell_bounds(data, ranges, n, pts):
    """Minimum and maximum of the values at the corners of the cells around the points"""
    lo = np.full(len(pts), np.inf)
    hi = np.full(len(pts), -np.inf)
    idx = []
    for d, ((a, b), k) in enumerate(zip(ranges, n)):
        x = (pts[:, d] - a) / (b - a) * (k - 1)
        i0 = np.clip(np.floor(x - 1e-9), 0, k - 1).astype(int)
        i1 = np.clip(np.ceil(x + 1e-9), 0, k - 1).astype(int)
        idx.append((i0, i1))
    # all points between the two indices (up to three per dimension on grid lines)
    for offs in itertools.product(range(3), repeat=len(n)):
        sel = tuple(np.minimum(i0 + o, i1) for (i0, i1), o in zip(idx, offs))
        v = data[sel]
        lo = np.minimum(lo, v)
        hi = np.maximum(hi, v)
    return lo, hi


def run_interp(rng, mon):
    from bdld import grid

    for rep in range(24):
        g, ranges, n = make(rng, data="normal")
        n_dim = len(n)
        mon.count("executions")
        mon.count("grids")
        mon.sig("interp", n)
        lo = np.array([r[0] for r in ranges])
        width = np.array([r[1] - r[0] for r in ranges])
        pts = product_points(ref_axes(ranges, n))
        data = np.array(g.data)
        gd = Guard(g)
        inner = lo + width * rng.uniform(0.001, 0.999, size=(60, n_dim))
        w = dict(n_points=n, ranges=ranges)

        def at(x, **kw):
            return np.asarray(g.interpolate(np.array(x), **kw), dtype=float).ravel()

        # stored values; points on the hull of the grid only exactly as the grid has them
        own = np.asarray(g.points())
        mon.count("interpolated points", len(own) + 2 * len(inner))
        if not mon.close(at(own), data.ravel(), "interpolation returns the stored values at the points", rtol=1e-7,
                         atol=1e-7, **w):
            return
        low, high = cell_bounds(data, ranges, n, inner)
        got = at(inner)
        ok = np.isfinite(got) & (got >= low - 1e-7) & (got <= high + 1e-7)
        if not mon.check(ok.all(), "interpolated values lie between those of the surrounding points",
                         pos=inner[~ok][:2], got=got[~ok][:2], low=low[~ok][:2], high=high[~ok][:2], **w):
            return
        if n_dim == 1:
            want = np.interp(inner[:, 0], ref_axes(ranges, n)[0], data)
            if not mon.close(got, want, "1-d interpolation is linear between the points", rtol=1e-8, atol=1e-8, **w):
                return
        co, c0 = rng.normal(size=n_dim), float(rng.normal())
        g.data = (pts @ co + c0).reshape(n)
        if not mon.close(at(inner), inner @ co + c0, "interpolation is exact for linear data", rtol=1e-7,
                         atol=1e-7 * (1 + span(ranges)), **w):
            return
        g.data = data
        # outside
        out = lo + width * rng.uniform(0.0, 1.0, size=(20, n_dim))
        d = rng.integers(n_dim, size=20)
        far = np.where(rng.random(20) < 0.5, -rng.uniform(0.01, 3, 20), 1 + rng.uniform(0.01, 3, 20))
        out[np.arange(20), d] = lo[d] + width[d] * far
        mon.count("fill values outside", 40)
        if not mon.check(np.all(np.isnan(at(out))), "points outside give the default fill value", got=at(out)[:5], **w):
            return
        fill = float(rng.choice([0.0, -1.0, 1e9]))
        if not mon.check(np.all(at(out, fill_value=fill) == fill), "points outside give the fill value", fill=fill,
                         got=at(out, fill_value=fill)[:5], **w):
            return
        if not gd.ok(mon, what="interpolation"):
            return
        # sparsify
        limit = [int(rng.integers(2, 2 * k)) for k in n]
        sp = grid.sparsify(g, list(limit))
        mon.count("sparsified grids")
        n2 = [min(a, b) for a, b in zip(n, limit)]
        if not check_points(mon, sp, ranges, n2, what="sparsify", limit=limit):
            return
        p2 = product_points(ref_axes(ranges, n2))
        low, high = cell_bounds(data, ranges, n, p2)
        got = np.asarray(sp.data).ravel()
        ok = np.isfinite(got) & (got >= low - 1e-6) & (got <= high + 1e-6)
        if not mon.check(ok.all(), "sparsified values are interpolated ones", pos=p2[~ok][:2], got=got[~ok][:2],
                         low=low[~ok][:2], high=high[~ok][:2], limit=limit, **w):
            return
        if not gd.ok(mon, what="sparsify"):
            return
        g.data = (pts @ co + c0).reshape(n)
        sp = grid.sparsify(g, list(limit))
        if not mon.close(np.asarray(sp.data).ravel(), p2 @ co + c0, "sparsified linear data stays linear", rtol=1e-6,
                         atol=1e-6 * (1 + span(ranges)), limit=limit, **w):
            return
    mon.sample(dict(n_points=n, ranges=ranges, limit=limit))


def run_steps(rng, mon):
    from bdld import grid

    for rep in range(420):
        n_dim = int(rng.integers(1, 4))
        dyadic = rng.random() < 0.4
        shrink = bool(rng.random() < 0.5)
        ranges, steps, fit = [], [], []
        for _ in range(n_dim):
            if dyadic:
                h = float(2.0 ** -rng.integers(0, 4))
                lo = float(rng.integers(-8, 8)) * 0.5
                m = int(rng.integers(1, 12))
                extra = float(rng.choice([0.0, 0.0, 0.25, 0.5, 0.75])) * h
                ranges.append((lo, lo + m * h + extra))
                fit.append(m if extra == 0 else None)
            else:
                h = float(np.round(rng.uniform(0.05, 1.0), 3))
                lo = float(np.round(rng.normal(), 2))
                length = float(np.round(rng.uniform(1.3 * h, 6 * h if n_dim == 3 else 20 * h), 3))
                if rng.random() < 0.2:  # steps that almost fit
                    length = (int(rng.integers(2, 6)) + float(rng.choice([-1, 1]) * rng.uniform(3e-5, 3e-4))) * h
                ranges.append((lo, lo + length))
                fit.append(None)
            steps.append(h)
        given = list(steps)
        if rng.random() < 0.4:
            steps = [steps[0]] * n_dim
            given = steps[0]
            fit = [fit[0]] + [None] * (n_dim - 1)
            ranges = [(lo, max(hi, lo + 1.3 * steps[0])) if i else (lo, hi) for i, (lo, hi) in enumerate(ranges)]
        g = grid.from_stepsizes(list(ranges), given, shrink) if shrink or rng.random() < 0.5 else \
            grid.from_stepsizes(list(ranges), given)
        mon.count("executions")
        mon.count("grids")
        mon.count("grids from step sizes")
        mon.sig("steps", n_dim, dyadic, shrink, [int(x) for x in g.n_points])
        w = dict(ranges=ranges, steps=given, shrink=shrink, n_points=g.n_points)
        axes = [np.asarray(a) for a in g.axes()]
        ok = True
        for d, ((lo, hi), h, a) in enumerate(zip(ranges, steps, axes)):
            tol = 1e-9 * (1 + abs(lo) + abs(hi))
            ok = ok and mon.check(len(a) >= 2 and a[0] == lo, "grid starts at the lower bound", dim=d, axis=a[:3], **w)
            ok = ok and mon.check(np.allclose(np.diff(a), h, rtol=1e-9, atol=tol), "distances are the step sizes", dim=d,
                                  diff=np.diff(a)[:3], **w)
            if shrink:
                ok = ok and mon.check(a[-1] <= hi + tol, "shrunk grid lies inside the range", dim=d, last=a[-1], **w)
                ok = ok and mon.check(a[-1] + h >= hi - tol, "shrunk grid is the largest one inside", dim=d, last=a[-1], **w)
            else:
                ok = ok and mon.check(a[-1] >= hi - tol, "grid covers the range", dim=d, last=a[-1], **w)
                ok = ok and mon.check(a[-1] <= hi + h + tol, "grid extends by less than a step", dim=d, last=a[-1], **w)
            if fit[d] is not None and dyadic:
                ok = ok and mon.check(len(a) == fit[d] + 1 and a[-1] == hi, "grid with exactly fitting steps is the range",
                                      dim=d, last=a[-1], **w)
        if not ok:
            return
        n = [len(a) for a in axes]
        rr = [(float(a[0]), float(a[-1])) for a in axes]
        if not check_points(mon, g, rr, n, **w):
            return
        g.data = rng.normal(size=int(np.prod(n)))
        if not mon.check(list(np.shape(g.data)) == n, "data fits the points", **w):
            return
        h2 = g * 2.0
        if not check_points(mon, h2, rr, n, what="product", **w):
            return
    mon.sample(dict(ranges=ranges, steps=given, shrink=shrink, n_points=n))


def direct_convolution(a, b):
    """Full discrete convolution by definition"""
    out = np.zeros([x + y - 1 for x, y in zip(a.shape, b.shape)])
    for idx in np.ndindex(*b.shape):
        sl = tuple(slice(i, i + s) for i, s in zip(idx, a.shape))
        out[sl] += b[idx] * a
    return out


def run_convolve(rng, mon):
    from bdld import grid

    for rep in range(40):
        n_dim = int(rng.integers(1, 4))
        h = [float(2.0 ** -rng.integers(0, 4)) for _ in range(n_dim)]
        n1 = shape(rng, n_dim)
        n1 = [max(k, 3) for k in n1]
        n2 = [int(rng.integers(2, k + 1)) for k in n1]
        if n2 == n1:
            n2[0] -= 1
        if min(n2) < 2 or (n2[0] == n1[0] and rng.random() < 0.8):
            n2 = [2] * n_dim
        lo1 = [float(rng.integers(-8, 8)) * 0.5 for _ in range(n_dim)]
        lo2 = [float(rng.integers(-8, 8)) * 0.5 for _ in range(n_dim)]
        r1 = [(a, a + (k - 1) * s) for a, k, s in zip(lo1, n1, h)]
        r2 = [(a, a + (k - 1) * s) for a, k, s in zip(lo2, n2, h)]
        g1, _, _ = make(rng, n_dim, ranges=r1, n=n1)
        g2, _, _ = make(rng, n_dim, ranges=r2, n=n2)
        a, b = np.array(g1.data), np.array(g2.data)
        full = direct_convolution(a, b) * float(np.prod(h))
        gd = [Guard(g1), Guard(g2)]
        for mode in ("same", "valid"):
            if mode == "valid" and any(m - k < 1 for k, m in zip(n2, n1)):
                continue  # would have a single point
            swap = mode == "valid" and rng.random() < 0.4
            x, y = (g2, g1) if swap else (g1, g2)
            method = str(rng.choice(["auto", "direct", "fft"]))
            if mode == "valid" and rng.random() < 0.3:
                res = grid.convolve(x, y)
            else:
                res = grid.convolve(x, y, mode, method)
            mon.count("executions")
            mon.count("convolutions")
            mon.sig("convolve", mode, n1, n2, swap)
            w = dict(mode=mode, n1=n1, n2=n2, swapped=swap, method=method)
            if mode == "same":
                sl = tuple(slice((k - 1) // 2, (k - 1) // 2 + m) for k, m in zip(n2, n1))
                want, rr, nn = full[sl], r1, n1
            else:
                sl = tuple(slice(k - 1, m) for k, m in zip(n2, n1))
                want = full[sl]
                nn = [m - k + 1 for k, m in zip(n2, n1)]
                rr = [(lo + (k - 1) / 2 * s, lo + (k - 1) / 2 * s + (m - 1) * s)
                      for (lo, _), k, m, s in zip(r1, n2, nn, h)]
            if not mon.close(res.data, want, "convolution is the discrete sum times the volume element", rtol=1e-9,
                             atol=1e-9, **w):
                return
            if not check_points(mon, res, rr, nn, **w):
                return
        if not all(x.ok(mon, what="convolution") for x in gd):
            return
        bad = list(n2)
        d = int(rng.integers(n_dim))
        rb = list(r2)
        rb[d] = (rb[d][0], rb[d][1] + 0.25 * h[d])
        g3, _, _ = make(rng, n_dim, ranges=rb, n=bad)
        if not refused(mon, lambda: grid.convolve(g1, g3, "same"), "different step sizes are refused", h=h):
            return
        # steps that differ little, in large and in tiny units
        unit = float(2.0 ** rng.choice([0, -30, 10]))
        eps = float(rng.choice([1e-3, 1e-4, 3e-6]))
        ra = [(a * unit, b * unit) for a, b in r1]
        rb = [(a * unit, b * unit) for a, b in r2]
        rb[d] = (rb[d][0], rb[d][0] + (rb[d][1] - rb[d][0]) * (1 + (eps if unit > 1e-6 else 2.0)))
        ga, _, _ = make(rng, n_dim, ranges=ra, n=n1)
        gb, _, _ = make(rng, n_dim, ranges=rb, n=n2)
        if not refused(mon, lambda: grid.convolve(ga, gb, "same"), "different step sizes are refused", h=h, unit=unit, eps=eps):
            return
    mon.sample(dict(n1=n1, n2=n2, steps=h))


def check_file(mon, name, pts, data, n, fmt, header, /, **w):
    atol, rtol = sim.fmt_tol(fmt)
    with open(name) as f:
        lines = f.read().split("\n")
    if header:
        hl = header.split("\n")
        if not mon.check(lines[:len(hl)] == hl, "header is the first line", got=lines[:2], want=hl, **w):
            return False
        lines = lines[len(hl):]
    rows = [l.split() for l in lines if l.strip()]
    want = np.c_[pts, np.asarray(data, dtype=float).ravel()]
    ok = mon.check(len(rows) == len(want) and all(len(r) == want.shape[1] for r in rows), "one line per point",
                   lines=len(rows), points=len(want), **w)
    if not ok:
        return False
    got = np.array([[float(x) for x in r] for r in rows])
    near = np.abs(got - want) <= atol + (rtol + 1e-12) * np.abs(want) + 1e-12
    near |= (got == want) | (np.isnan(got) & np.isnan(want))
    if not mon.check(near.all(), "file lists every point with its value in order", row=got[~near.all(axis=1)][:2],
                     want=want[~near.all(axis=1)][:2], n_points=n, **w):
        return False
    if len(n) == 2:  # blocks separated by empty lines
        body = "\n".join(lines).strip("\n").split("\n\n")
        blocks = [len([l for l in b.split("\n") if l.strip()]) for b in body]
        return mon.check(blocks == [n[1]] * n[0], "2-d files have one block per row", blocks=blocks[:5], n_points=n, **w)
    return True


def run_files(rng, mon):
    for rep in range(50):
        g, ranges, n = make(rng)
        if rng.random() < 0.3:
            d = np.array(g.data).ravel()
            d[int(rng.integers(len(d)))] = np.inf
            g.data = d
        name = str(rng.choice(["grid", "grid.dat", "a b"]))
        fmt = str(rng.choice(["%.18e", "%14.9f", "%.6g", "%12.4f"]))
        header = str(rng.choice(["", "#! FIELDS x y", "# comment"]))
        mon.count("executions")
        mon.count("grids")
        mon.count("grid files")
        mon.sig("files", n, fmt, bool(header))
        gd = Guard(g)
        kw = {}
        if fmt != "%.18e" or rng.random() < 0.5:
            kw["fmt"] = fmt
        if header:
            kw["header"] = header
        if os.path.exists(name):
            os.remove(name)
        g.write_to_file(name, **kw)
        if not check_file(mon, name, product_points(ref_axes(ranges, n)), gd.data, n, fmt, header):
            return
        if not gd.ok(mon, what="writing"):
            return
    mon.sample(dict(n_points=n, ranges=ranges, fmt=fmt))


def run_histogram(rng, mon):
    from bdld import histogram

    for rep in range(45):
        n_dim = int(rng.integers(1, 4))
        n = [int(x) for x in rng.integers(2, {1: 30, 2: 9, 3: 6}[n_dim], size=n_dim)]
        ranges = some_ranges(rng, n_dim)
        arg = n[0] if n_dim == 1 and rng.random() < 0.5 else list(n)
        h = histogram.Histogram(arg, list(ranges))
        mid = [[lo + (hi - lo) * (i + 0.5) / k for i in range(k)] for (lo, hi), k in zip(ranges, n)]
        pts = product_points(mid)
        rr = [(m[0], m[-1]) for m in mid]
        mon.count("executions")
        mon.count("grids")
        mon.count("histogram grids")
        mon.sig("histogram", n)
        tol = 1e-12 * (1 + span(ranges))
        if not mon.close(h.points(), pts, "points of a histogram are the bin centres in row-major order", rtol=0,
                         atol=tol, n=n):
            return
        # one sample in every bin with a weight that identifies it
        weight = rng.integers(0, 4, size=len(pts))
        sample = np.repeat(pts, weight, axis=0)
        jitter = rng.uniform(-0.4, 0.4, size=sample.shape) * np.array([(hi - lo) / k for (lo, hi), k in zip(ranges, n)])
        if len(sample):
            h.add(sample + jitter)
        if not mon.check(np.array_equal(np.asarray(h.data).ravel(), weight), "counts belong to the bin of their point",
                         n=n, got=np.asarray(h.data).ravel()[:10], want=weight[:10]):
            return
        with np.errstate(all="ignore"):
            for name, res, want in (("*", h * 3.0, weight * 3.0), ("+", h + h, 2.0 * weight), ("log", h.log(), np.log(weight)),
                                    ("/", h / 2, weight / 2), ("neg", -h, -1.0 * weight)):
                mon.count("arithmetic operations")
                if not mon.close(np.asarray(res.data).ravel(), want, "arithmetic acts element by element", operator=name):
                    return
                if not mon.close(res.points(), pts, "results keep the points", rtol=0, atol=10 * tol, operator=name):
                    return
        if not mon.check(np.array_equal(np.asarray(h.data).ravel(), weight), "operands are left unchanged", n=n):
            return
        h.write_to_file("histo")
        mon.count("grid files")
        if not check_file(mon, "histo", pts, weight, n, "%.18e", ""):
            return
        other = histogram.Histogram([k + 1 for k in n], list(ranges))
        refused(mon, lambda: h + other, "combining grids with different points is refused", n=n)
        h.clear()
        if not mon.check(not np.any(h.data) and list(np.shape(h.data)) == n, "clearing resets all counts"):
            return
    mon.sample(dict(bins=n, ranges=ranges))


def run_case(case, mon):
    rng = np.random.default_rng(case["seed"])
    dict(points=run_points, arith=run_arith, interp=run_interp, steps=run_steps, convolve=run_convolve,
         files=run_files, histogram=run_histogram)[case["mode"]](rng, mon)
