"""Reference implementations, written from the documentation only and deliberately naive"""
import itertools
import math
from fractions import Fraction

import numpy as np


class RefPoly:
    """sum_ijk c_ijk x^i y^j z^k"""

    def __init__(self, coeffs):
        self.c = np.array(coeffs, dtype=float)
        self.n_dim = self.c.ndim
        self.terms = [
            (idx, float(self.c[idx])) for idx in np.ndindex(*self.c.shape) if self.c[idx] != 0
        ]

    def energy(self, pos):
        return math.fsum(
            c * math.prod(float(x) ** i for x, i in zip(pos, idx)) for idx, c in self.terms
        )

    def force(self, pos):
        out = []
        for d in range(self.n_dim):
            out.append(
                -math.fsum(
                    c * idx[d] * math.prod(
                        float(x) ** (i - (k == d)) for k, (x, i) in enumerate(zip(pos, idx))
                    )
                    for idx, c in self.terms
                    if idx[d] > 0
                )
            )
        return np.array(out)

    def scale(self, pos):
        """Magnitude of the terms that are summed (for rounding tolerances)"""
        return 1e-300 + sum(
            abs(c) * (1 + sum(idx)) * math.prod(max(abs(float(x)), 1e-3) ** i for x, i in zip(pos, idx))
            for idx, c in self.terms
        )

    def energy_exact(self, pos):
        p = [Fraction(float(x)) for x in pos]
        return sum(
            (Fraction(c) * math.prod((x**i for x, i in zip(p, idx)), start=Fraction(1))
             for idx, c in self.terms),
            Fraction(0),
        )

    def force_exact(self, pos):
        p = [Fraction(float(x)) for x in pos]
        out = []
        for d in range(self.n_dim):
            s = Fraction(0)
            for idx, c in self.terms:
                if idx[d] > 0:
                    t = Fraction(c) * idx[d]
                    for k, (x, i) in enumerate(zip(p, idx)):
                        t *= x ** (i - (k == d))
                    s -= t
            out.append(s)
        return out

    def abs_energy(self, pos):
        """Sum of the absolute values of the energy terms and of the gradient terms"""
        p = [abs(float(x)) for x in pos]
        e = sum(abs(c) * math.prod(x**i for x, i in zip(p, idx)) for idx, c in self.terms)
        g = [
            sum(abs(c) * idx[d] * math.prod(x ** (i - (k == d)) for k, (x, i) in enumerate(zip(p, idx)))
                for idx, c in self.terms if idx[d] > 0)
            for d in range(self.n_dim)
        ]
        return e, np.array(g)


class RefMB:
    """Mueller-Brown potential without additive constant"""

    n_dim = 2
    a = (-1.0, -1.0, -6.5, 0.7)
    b = (0.0, 0.0, 11.0, 0.6)
    c = (-10.0, -10.0, -6.5, 0.7)
    x0 = (1.0, 0.0, -0.5, -1.0)
    y0 = (0.0, 0.5, 1.5, 1.0)

    def __init__(self, factor=1.0, third=-170.0):
        self.factor = 1.0 if factor is None else factor
        self.A = (-200.0, -100.0, third, 15.0)

    def _terms(self, pos):
        x, y = (float(v) for v in pos)
        for A, a, b, c, x0, y0 in zip(self.A, self.a, self.b, self.c, self.x0, self.y0):
            dx, dy = x - x0, y - y0
            e = self.factor * A * math.exp(min(a * dx * dx + b * dx * dy + c * dy * dy, 650.0))
            yield e, -e * (2 * a * dx + b * dy), -e * (b * dx + 2 * c * dy)

    def energy(self, pos):
        return math.fsum(t[0] for t in self._terms(pos))

    def force(self, pos):
        t = list(self._terms(pos))
        return np.array([math.fsum(x[1] for x in t), math.fsum(x[2] for x in t)])

    def abs_energy(self, pos):
        t = list(self._terms(pos))
        return (sum(abs(x[0]) for x in t),
                np.array([sum(abs(x[1]) for x in t), sum(abs(x[2]) for x in t)]))


def detect_mb(pot, factor):
    """Reference with the third amplitude the code uses (the amplitude is judged by C04)"""
    p, q = (-0.5, 1.5), (0.6, 0.0)
    d = float(pot.energy(np.array(p))) - float(pot.energy(np.array(q)))
    best = min(
        (RefMB(factor, amp) for amp in (-170.0, -175.0)),
        key=lambda r: abs(r.energy(p) - r.energy(q) - d),
    )
    return best


def boundary(kind, pos, mom, ranges):
    """Position and momentum after the documented boundary condition, and which dims hit"""
    pos = np.array(pos, dtype=float)
    mom = np.array(mom, dtype=float)
    hit = np.zeros(len(pos), dtype=bool)
    if kind is None or kind == "none":
        return pos, mom, hit
    for i, (lo, hi) in enumerate(ranges):
        if lo <= pos[i] <= hi:
            continue
        hit[i] = True
        if kind == "reflective":
            pos[i] = lo if pos[i] < lo else hi
            mom[i] = -mom[i]
        else:
            L = hi - lo
            pos[i] = pos[i] - math.floor((pos[i] - lo) / L) * L
            pos[i] = min(max(pos[i], lo), hi)
    return pos, mom, hit


def kde(points, samples, bw, block=400):
    """Average over samples of the product of normalised gaussians at the points"""
    points = np.asarray(points, dtype=float)
    samples = np.asarray(samples, dtype=float)
    bw = np.asarray(bw, dtype=float)
    out = np.empty(len(points))
    norm = 1.0
    for h in bw:
        norm *= 1 / (math.sqrt(2 * math.pi) * h)
    for s in range(0, len(points), block):
        arg = np.zeros((len(points[s:s + block]), len(samples)))
        for d, h in enumerate(bw):
            arg += ((points[s:s + block, d][:, None] - samples[:, d][None, :]) / h) ** 2
        out[s:s + block] = norm * np.exp(-0.5 * arg).mean(axis=1)
    return out


def beta_original(pos, energy, bw, kt):
    b = np.log(kde(pos, pos, bw)) + np.asarray(energy, dtype=float) / kt
    return b - b.mean()


def bin_edges(lo, hi, n):
    return np.array([lo + (hi - lo) * i / n for i in range(n + 1)])


def bin_counts(pos, ranges, n_bins, edge_tol=1e-9):
    """Lower and upper bounds of the counts per bin (they differ only for positions that
    lie on an inner bin edge within rounding) and the number of counted positions"""
    pos = np.asarray(pos, dtype=float).reshape(-1, len(ranges))
    shape = tuple(n_bins)
    lower = np.zeros(shape)
    upper = np.zeros(shape)
    total_min = total_max = 0
    for p in pos:
        options = []
        sure = True
        outside = False
        maybe_out = False
        for x, (lo, hi), n in zip(p, ranges, n_bins):
            if not (lo <= x <= hi):
                outside = True
                break
            w = (hi - lo) / n
            f = (x - lo) / w
            k = int(math.floor(f))
            k = min(max(k, 0), n - 1)
            opts = [k]
            near = round(f)
            if 0 < near < n and abs(f - near) < edge_tol:
                opts = [near - 1, near]
                sure = False
            options.append(opts)
        if outside:
            continue
        total_min += 1
        total_max += 1
        if sure:
            idx = tuple(o[0] for o in options)
            lower[idx] += 1
            upper[idx] += 1
        else:
            for idx in itertools.product(*options):
                upper[idx] += 1
    return lower, upper, total_min


def midpoints(ranges, n_bins):
    """Row-major list of the bin midpoints"""
    axes = [
        [lo + (hi - lo) * (2 * i + 1) / (2 * n) for i in range(n)]
        for (lo, hi), n in zip(ranges, n_bins)
    ]
    return np.array(list(itertools.product(*axes)), dtype=float).reshape(-1, len(ranges))


def inside(pos, lo, hi):
    """Closed rectangular region"""
    pos = np.asarray(pos, dtype=float)
    return np.all((pos >= np.asarray(lo)) & (pos <= np.asarray(hi)), axis=-1)


def from_config(pot_cfg, read_coeffs=None):
    """Reference potential of an input file section (None third amplitude: see bind)"""
    if pot_cfg["type"] == "mueller-brown":
        fac = pot_cfg.get("scaling-factor")
        return RefMB(1.0 if fac is None else float(fac))
    if pot_cfg.get("coeffs") is not None:
        return RefPoly(pot_cfg["coeffs"])
    return RefPoly(read_coeffs)


class Offset:
    """Reference potential including the additive constant the code uses"""

    def __init__(self, refpot, pot):
        if isinstance(refpot, RefMB):
            refpot = detect_mb(pot, refpot.factor)
            origin = np.zeros(2)
            self.off = float(pot.energy(origin)) - refpot.energy(origin)
        else:
            self.off = 0.0
        self.ref = refpot
        self.n_dim = refpot.n_dim

    def energy(self, pos):
        return self.ref.energy(pos) + self.off

    def force(self, pos):
        return self.ref.force(pos)

    def tolerances(self, pos, rtol=1e-9):
        ae, ag = self.ref.abs_energy(pos)
        return rtol * (ae + abs(self.off) + 1e-6), rtol * (ag + 1e-6)

    def matches(self, pos, energy, forces, rtol=1e-9):
        te, tf = self.tolerances(pos, rtol)
        return (abs(float(energy) - self.energy(pos)) <= te
                and np.shape(np.ravel(forces)) == np.shape(self.force(pos))
                and np.all(np.abs(np.ravel(forces) - self.force(pos)) <= tf))
