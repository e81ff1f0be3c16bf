"""C09: equilibrium density and its kernel smoothing are correct on the grid"""
import numpy as np

from props import c06
from vlib import gen, ref, sim, smooth, systems

RULE = ("densities: per (potential kind, dimension, points, kT decade, offset); smoothing: per "
        "(dimension, bandwidths, points, kT); program runs: per (variant, bandwidth, points)")
REQUIRED = {
    "densities": 250,
    "density points": 50000,
    "densities in 3d": 20,
    "densities at low temperature or with large offset": 40,
    "smoothed densities": 60,
    "smoothed densities in 2d": 10,
    "smoothed densities with one dimension above the limit": 5,
    "additive corrections": 60,
    "rate grids": 60,
    "program runs with smoothed variants": 12,
    "program runs with smoothed variants in 2d": 2,
}
ASSUMPTIONS = [
    "smoothing on a grid is allowed to displace the kernel by at most 0.75 grid steps and to cut it "
    "off anywhere beyond 4.9 bandwidths; elsewhere comparisons are to rounding",
]


def cases(tier, seed):
    mul = 1 if tier == "quick" else 12
    return ([dict(mode="main2d", seed=seed * 100361 + i) for i in range(2 if tier == "quick" else 8)]
            + [dict(mode="density", seed=seed * 100333 + i) for i in range(16 * mul)]
            + [dict(mode="smooth", seed=seed * 100343 + i) for i in range(20 * mul)]
            + [dict(mode="main", seed=seed * 100357 + i) for i in range(8 * mul)])


def judge_grid(mon, g, ranges, npts, /, **w):
    ok = mon.check([int(n) for n in g.n_points] == list(npts) and np.allclose(g.ranges, ranges, rtol=1e-12),
                   "grid has the requested points", got=(g.n_points, g.ranges), **w)
    return ok and mon.check(np.asarray(g.data).shape == tuple(npts), "one value per grid point", **w)


def judge_density(mon, dens, energy, kt, ranges, npts, scale=0.0, /, **w):
    """values proportional to exp(-E/kT) at the row-major points, normalised"""
    w = dict(kt=kt, ranges=ranges, npts=npts, **w)
    if not judge_grid(mon, dens, ranges, npts, **w):
        return False
    axs, want = smooth.density(energy, kt, ranges, npts)
    vol = float(np.prod([(hi - lo) / (n - 1) for (lo, hi), n in zip(ranges, npts)]))
    got = np.asarray(dens.data, dtype=float)
    mon.count("densities")
    mon.count("density points", got.size)
    if len(npts) == 3:
        mon.count("densities in 3d")
    ok = mon.check(abs(got.sum() * vol - 1) < 1e-9, "density sums with the volume element to one",
                   got=got.sum() * vol, **w)
    # relative accuracy of exp(-E/kT) is limited by the rounding of E/kT
    tol = 1e-10 * (1 + scale / kt)
    ok &= mon.close(got, want, "density is proportional to exp(-energy/kT)", rtol=max(tol, 1e-9),
                    atol=1e-290, **w)
    pts = np.asarray(dens.points(), dtype=float)
    ok &= mon.close(pts, smooth.product(axs), "points are in row-major order", rtol=1e-9, atol=1e-9, **w)
    return ok


def run_density(case, mon):
    rng = np.random.default_rng(case["seed"])
    for rep in range(20):
        n_dim = int(rng.choice([1, 1, 2, 2, 3]))
        kind = "mb" if n_dim == 2 and rng.random() < 0.4 else None
        kt = float(rng.choice([0.5, 1.0, 2.0, 15.0]))
        offset = 0.0
        special = rng.random() < 0.25
        if kind == "mb":
            system = systems.make(rng, n_dim=2, kind="mb")
            scale = 1e4
        else:
            if n_dim == 1:
                c, lo, hi = gen.poly1d(rng)
                rr = [(lo, hi)]
            else:
                c = gen.WOLFE_QUAPP if n_dim == 2 else gen.coeffs3d()
                rr = [(-2.5, 2.5), (-2.0, 2.25), (-1.0, 1.5)][:n_dim]
            c = np.array(c, dtype=float)
            if special:
                if rng.random() < 0.5:
                    offset = float(rng.choice([-1e4, 1e4, -800.0]))
                    c[(0,) * n_dim] += offset
                else:
                    kt = float(rng.choice([0.02, 0.005]))
            system = systems.make(rng, n_dim=n_dim, coeffs=c, ranges=rr)
            scale = 100.0 + abs(offset)
        npts = [int(x) for x in rng.integers(2, {1: 400, 2: 40, 3: 12}[n_dim], size=n_dim)]
        ranges = [tuple(r) for r in system.pot.ranges]
        if rng.random() < 0.4:  # any range may be asked for
            ranges = [(lo + 0.1 * (hi - lo) * rng.random(), hi + 0.2 * (rng.random() - 0.5) * (hi - lo))
                      for lo, hi in ranges]
        if special and kind != "mb":
            mon.count("densities at low temperature or with large offset")
        dens = system.pot.calculate_probability_density(kt, ranges, list(npts))
        mon.sig("density", kind, n_dim, tuple(npts), int(np.log10(kt)), offset)
        if not judge_density(mon, dens, system.ref.energy, kt, ranges, npts, scale, kind=kind, offset=offset):
            return
        for bad_r, bad_n in ((ranges + [(0.0, 1.0)], npts), (ranges, npts + [5])):
            try:
                system.pot.calculate_probability_density(kt, bad_r, bad_n)
                mon.check(False, "density on a grid of wrong dimension is refused", n_dim=n_dim)
            except ValueError:
                mon.check(True, "density on a grid of wrong dimension is refused")
    mon.sample(dict(kind=kind, n_dim=n_dim, npts=npts, kt=kt, sum=float(np.sum(dens.data))))


def within(mon, got, low, high, what, slack, /, **w):
    got = np.asarray(got, dtype=float)
    if not mon.check(got.shape == low.shape, what, got_shape=got.shape, want_shape=low.shape, **w):
        return False
    bad = ~((got >= low - slack) & (got <= high + slack))
    if not bad.any():
        return mon.check(True, what)
    i = np.unravel_index(int(np.argmax(bad)), bad.shape)
    return mon.check(False, what, index=i, got=got[i], low=low[i], high=high[i], n_bad=int(bad.sum()), **w)


def judge_rate_grid(mon, g, variant, sm, ranges, npts, /, **w):
    """The grid a birth-death object uses for its rates"""
    mon.count("rate grids")
    n = [int(x) for x in g.n_points]
    mon.check(all(a <= 101 for a in n), "rate grid has at most 101 points per dimension", got=n, **w)
    if not judge_grid(mon, g, ranges, [min(x, 101) for x in npts], **w):
        return
    low, high = (sm.mult_low, sm.mult_high) if variant == "multiplicative" else (sm.add_low, sm.add_high)
    within(mon, g.data, low, high, f"rate grid of the {variant} variant", 2e-3, **w)


def run_smooth(case, mon):
    rng = np.random.default_rng(case["seed"])
    from bdld.actions import birth_death as bdm

    V = bdm.ApproxVariant
    for rep in range(5):
        n_dim = 1 if rng.random() < 0.7 else 2
        c, ranges, bw, npts = c06.smooth_system(rng, n_dim)
        if n_dim == 2 and rng.random() < 0.5:  # only one dimension exceeds the limit of the rate grid
            npts[int(rng.integers(2))] = int(rng.integers(105, 130))
            mon.count("smoothed densities with one dimension above the limit")
        kt = float(rng.choice([0.7, 1.0, 1.6]))
        system = systems.make(rng, n_dim=n_dim, coeffs=c, ranges=ranges)
        dens = system.pot.calculate_probability_density(kt, ranges, list(npts))
        w = dict(n_dim=n_dim, bw=bw, kt=kt, ranges=ranges, npts=npts, coeffs=c)
        if not judge_density(mon, dens, system.ref.energy, kt, ranges, npts, 100.0):
            return
        before = np.array(dens.data)
        sm = smooth.Smoothed(system.ref.energy, kt, ranges, npts, bw)
        mon.sig("smooth", n_dim, np.round(bw, 1), tuple(npts), kt, c.shape)
        # smoothed density on the full grid
        conv = bdm.dens_kernel_convolution(dens, np.array(bw), "same")
        mon.count("smoothed densities")
        if n_dim == 2:
            mon.count("smoothed densities in 2d")
        if judge_grid(mon, conv, ranges, npts, **w):
            low, high = smooth.smooth_bounds(sm.axs, sm.dens, bw, sm.axs)
            within(mon, conv.data, low, high, "smoothed density is the convolution with the kernel",
                   (5e-4 if n_dim == 1 else 2e-3) * sm.dens.max(), **w)
        mon.check(np.array_equal(before, dens.data), "smoothing leaves the density unchanged", **w)
        # additive correction
        corr = bdm.calc_additive_correction(dens, np.array(bw), "same")
        mon.count("additive corrections")
        if not judge_grid(mon, corr, ranges, [min(n, 101) for n in npts], **w):
            return
        within(mon, corr.data, sm.add_low, sm.add_high, "additive correction", 2e-3, **w)
        # its average over the equilibrium density vanishes (trapezoidal rule on the full grid)
        if all(n <= 101 for n in npts):
            wt = sm._weights()
            tot = float(np.sum(corr.data * sm.dens * wt))
            edge = 1 - float(np.sum(sm.dens * wt))
            scale = float(np.max(np.abs(sm.integral)))
            mon.count("averages of the additive correction")
            mon.check(abs(tot) < 1e-6 + (abs(edge) + 1e-9) * (scale + 1),
                      "average of the additive correction vanishes", got=tot, edge=edge, **w)
        for variant, v in (("additive", V.add), ("multiplicative", V.mult)):
            with systems.quiet():
                bd = bdm.BirthDeath([], 0.01, 10, np.array(bw), kt, None, False, v, dens)
            judge_rate_grid(mon, bd.approx_grid, variant, sm, ranges, npts, **w)
        if mon.n_violations:
            return
        # a constant density stays the same away from the edges: the kernel is normalised
        flat = systems.make(rng, n_dim=n_dim, coeffs=np.zeros((2,) * n_dim),
                            ranges=[(-6 * b, 6 * b) for b in bw])
        fn = [int(x) for x in rng.integers(61, 120, size=n_dim)]
        fd = flat.pot.calculate_probability_density(kt, flat.ranges, fn)
        fc = bdm.dens_kernel_convolution(fd, np.array(bw), "same")
        mid = tuple(n // 2 for n in fn)
        mon.close(np.asarray(fc.data)[mid], np.asarray(fd.data)[mid], "kernel is normalised", rtol=5e-5,
                  atol=0.0, **w)
        # low temperature: the density vanishes numerically on part of the grid
        if n_dim == 1:
            dw = systems.make(rng, n_dim=1, coeffs=[float(rng.choice([0.0, -50.0])), 0.2, -4.0, 0.0, 1.0],
                              ranges=[(-2.5, 2.5)])
            lt = float(rng.choice([0.02, 0.01, 0.005]))
            dd = dw.pot.calculate_probability_density(lt, dw.ranges, [301])
            cc = bdm.calc_additive_correction(dd, np.array([0.3]), "same")
            mon.count("densities at low temperature or with large offset")
            s = smooth.Smoothed(dw.ref.energy, lt, dw.ranges, [301], [0.3])
            inner = (np.abs(np.abs(s.nodes[0]) - 1.4) < 0.2)
            mon.check(np.all(np.isfinite(np.asarray(cc.data)[inner])),
                      "additive correction is finite where there is density", kt=lt,
                      got=np.asarray(cc.data)[inner][:4])
            within(mon, np.asarray(cc.data)[inner], s.add_low[inner], s.add_high[inner],
                   "additive correction at low temperature", 0.02 / lt, kt=lt)
        if mon.n_violations:
            return
    mon.sample(dict(setup=w, integral=sm.integral))


def run_main(case, mon):
    """What the program sets up from an input file"""
    rng = np.random.default_rng(case["seed"])
    for rep in range(3):
        cfg, n_dim, ranges = gen.base_config(rng, 2, n_dim=1, bd=True)
        variant = str(rng.choice(["additive", "multiplicative"]))
        sec = cfg["birth-death"]
        sec["approximation-variant"] = variant
        sec["kernel-bandwidth"] = float(np.round(10.0 ** rng.uniform(-1.3, 0.0), 3))
        cfg["ld"].update({"type": "bussi-parinello", "kt": float(rng.choice([0.7, 1.0, 1.6])), "friction": 1.0})
        if cfg["ld"]["kt"] < 0.7:
            cfg["ld"]["kt"] = 0.7
        res = sim.must_run(mon, cfg)
        if res is None:
            return
        bd = res.rec.instances["birth-death"]
        rp = gen.ref_potential(cfg)
        h = sec["kernel-bandwidth"]
        npts = 501
        mon.count("program runs with smoothed variants")
        mon.sig("main", variant, h, cfg["ld"]["kt"])
        g = bd.approx_grid
        if not mon.check(g is not None, "smoothed variants have a rate grid"):
            return
        w = dict(variant=variant, bw=h, kt=cfg["ld"]["kt"], coeffs=cfg["potential"]["coeffs"],
                 ranges=ranges)
        # the number of points of the fine grid is free: use a reference with similar steps
        sm = smooth.Smoothed(rp.energy, cfg["ld"]["kt"], ranges, [npts], [h])
        judge_rate_grid(mon, g, variant, sm, ranges, [npts], **w)
        if mon.n_violations:
            return


def run_main2d(case, mon):
    """The same in two dimensions, where setting up takes some 20 s"""
    rng = np.random.default_rng(case["seed"])
    cfg, n_dim, ranges = gen.base_config(rng, 1, n_dim=2, bd=True)
    variant = ["additive", "multiplicative"][case["seed"] % 2]
    gen.write_coeffs("pot.coeffs", gen.WOLFE_QUAPP)
    ranges = [(-2.5, 2.5), (-2.0, 2.25)]
    cfg["potential"] = {"type": "polynomial", "n_dim": 2, "coeffs-file": "pot.coeffs",
                        "min": [-2.5, -2.0], "max": [2.5, 2.25]}
    cfg["particles"] = {"number": 3, "initial-distribution": "random-global"}
    sec = cfg["birth-death"]
    sec["approximation-variant"] = variant
    bw = [float(np.round(rng.uniform(0.1, 0.16), 3)), float(np.round(rng.uniform(0.04, 0.07), 3))]
    if rng.random() < 0.5:
        bw = bw[::-1]
    sec["kernel-bandwidth"] = bw
    kt = float(rng.choice([0.8, 1.0, 1.6]))
    cfg["ld"].update({"type": "bussi-parinello", "kt": kt, "friction": 1.0})
    res = sim.must_run(mon, cfg)
    if res is None:
        return
    g = res.rec.instances["birth-death"].approx_grid
    if not mon.check(g is not None, "smoothed variants have a rate grid"):
        return
    mon.count("program runs with smoothed variants in 2d")
    mon.sig("main2d", variant, bw, kt)
    sm = smooth.Smoothed(gen.ref_potential(cfg).energy, kt, ranges, [501, 501], bw)
    judge_rate_grid(mon, g, variant, sm, ranges, [501, 501], variant_=variant, bw=bw, kt=kt)


def run_case(case, mon):
    dict(density=run_density, smooth=run_smooth, main=run_main, main2d=run_main2d)[case["mode"]](case, mon)
