"""Kernel smoothing of the equilibrium density by direct summation, with intervals

The code smooths on a grid and cuts the kernel off; both are allowed for by intervals:
the kernel may be displaced by up to 0.75 grid steps and cut off anywhere beyond 4.9
bandwidths (the part of the density beyond it may or may not be included).
"""
import itertools

import numpy as np

SHIFTS = (-0.75, -0.375, 0.0, 0.375, 0.75)


def axes(ranges, n_points):
    return [np.array([lo + (hi - lo) * i / (n - 1) for i in range(n)])
            for (lo, hi), n in zip(ranges, n_points)]


def product(axs):
    return np.array(list(itertools.product(*axs)), dtype=float).reshape(-1, len(axs))


def density(energy, kt, ranges, n_points):
    """exp(-E/kT) on the grid, sums with the volume element to one. Returns (axes, values)"""
    axs = axes(ranges, n_points)
    e = np.array([energy(p) for p in product(axs)])
    p = np.exp(-(e - e.min()) / kt)
    vol = np.prod([(hi - lo) / (n - 1) for (lo, hi), n in zip(ranges, n_points)])
    return axs, (p / (p.sum() * vol)).reshape(n_points)


def _kernels(x, ax, h, s, shift, cut):
    d = x[:, None] + shift * s - ax[None, :]
    k = np.exp(-0.5 * (d / h) ** 2) / (np.sqrt(2 * np.pi) * h) * s
    if cut is not None:
        k[np.abs(d) > cut * h - 1.6 * s] = 0.0
    return k


def smooth_bounds(axs, dens, bw, nodes):
    """Lower and upper bound of (K*density) at the product of the node axes"""
    steps = [a[1] - a[0] for a in axs]
    n_dim = len(axs)
    low = high = None
    shifts = SHIFTS if n_dim == 1 else (-0.75, 0.0, 0.75)
    for sh in itertools.product(shifts, repeat=n_dim):
        for cut in (4.9, None):
            val = dens
            for d in range(n_dim):
                k = _kernels(nodes[d], axs[d], bw[d], steps[d], sh[d], cut)
                val = np.moveaxis(np.tensordot(k, np.moveaxis(val, d, 0), axes=(1, 0)), 0, d)
            low = val if low is None else np.minimum(low, val)
            high = val if high is None else np.maximum(high, val)
    return low, high


def interp_bounds(nodes, low, high, pos):
    """Bounds of a piecewise linear interpolation of node values between low and high"""
    n_dim = len(nodes)
    if n_dim == 1:
        return (np.interp(pos[:, 0], nodes[0], low), np.interp(pos[:, 0], nodes[0], high))
    lo = np.empty(len(pos))
    hi = np.empty(len(pos))
    for i, p in enumerate(pos):
        sl = []
        for x, ax in zip(p, nodes):
            k = int(np.clip(np.searchsorted(ax, x) - 1, 0, len(ax) - 2))
            sl.append(slice(k, k + 2))
        lo[i] = low[tuple(sl)].min()
        hi[i] = high[tuple(sl)].max()
    return lo, hi


class Smoothed:
    """Bounds for -log(K*pi) and the additive correction at the nodes of the rate grid"""

    def __init__(self, energy, kt, ranges, n_points, bw, max_nodes=101):
        self.ranges = ranges
        self.axs, self.dens = density(energy, kt, ranges, n_points)
        self.nodes = axes(ranges, [min(n, max_nodes) for n in n_points])
        self.low, self.high = smooth_bounds(self.axs, self.dens, bw, self.nodes)
        # log density at the nodes (the code interpolates log(K*pi/pi) linearly)
        with np.errstate(divide="ignore"):
            self.mult_low = -np.log(self.high)
            self.mult_high = -np.log(self.low)
        fl, fh = smooth_bounds(self.axs, self.dens, bw, self.axs)
        e_nodes = np.array([energy(p) for p in product(self.nodes)]).reshape(self.low.shape)
        e_fine = np.array([energy(p) for p in product(self.axs)]).reshape(self.dens.shape)
        # log pi = -E/kt + c
        i = np.unravel_index(np.argmax(self.dens), self.dens.shape)
        c = np.log(self.dens[i]) + e_fine[i] / kt
        logpi_nodes = -e_nodes / kt + c
        logpi = -e_fine / kt + c
        with np.errstate(divide="ignore", invalid="ignore"):
            rl, rh = np.log(fl) - logpi, np.log(fh) - logpi
            w = self._weights()
            il = float(np.nansum(np.where(self.dens > 1e-300, rl * self.dens, 0) * w))
            ih = float(np.nansum(np.where(self.dens > 1e-300, rh * self.dens, 0) * w))
        self.integral = (il, ih)
        self.add_low = -(np.log(self.high) - logpi_nodes) + il
        with np.errstate(divide="ignore"):
            self.add_high = -(np.log(self.low) - logpi_nodes) + ih

    def _weights(self):
        """Volume elements; rectangle and trapezoidal rule differ only at the edges"""
        vol = np.prod([a[1] - a[0] for a in self.axs])
        w = np.full(self.dens.shape, vol)
        for d in range(len(self.axs)):
            sl = [slice(None)] * len(self.axs)
            for end in (0, -1):
                sl[d] = end
                w[tuple(sl)] *= 0.5
        return w

    def mult_at(self, pos):
        return interp_bounds(self.nodes, self.mult_low, self.mult_high, pos)

    def add_at(self, pos):
        return interp_bounds(self.nodes, self.add_low, self.add_high, pos)
