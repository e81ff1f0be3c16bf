"""C06: birth-death rates equal the documented formula for every ensemble"""
import numpy as np

from vlib import core, ref, smooth, systems

RULE = ("one signature per (variant, dimension, ensemble kind, size class, bandwidth class, kT)")
REQUIRED = {
    "ensembles original": 300,
    "ensembles additive": 60,
    "ensembles multiplicative": 60,
    "density estimates": 600,
    "ensembles of 64 to 10000 walkers": 40,
    "walkers in ensembles of more than 10000": 10001,
    "walkers outside the potential range (additive)": 20,
}
ASSUMPTIONS = [
    "smoothed densities are compared within the interval given by a kernel displaced by at most "
    "0.75 grid steps and cut off beyond 4.9 bandwidths, linear interpolation between 101 nodes",
]
CASE_TIMEOUT = 800


def cases(tier, seed):
    mul = 1 if tier == "quick" else 12
    out = [dict(mode="large", n_dim=2, seed=seed * 100183)]
    sizes = [64, 127, 129, 200, 255, 257, 300, 400, 500, 512, 513, 700, 999, 1000, 1001, 1025, 1300, 1500,
             2000, 2001, 2049, 2500, 3000, 4000, 5001, 6000, 8000, 9999, 10000]
    for j, n in enumerate(sizes):
        dims = (1, 2, 3) if n <= 1300 else ((1 + (j + seed) % 3,) if n <= 3000 or tier != "quick" else (1,))
        if tier == "quick" and n > 2500:
            if n not in (3000, 10000):
                continue
        out.append(dict(mode="mid", n=n, dims=dims, seed=seed * 100213 + j))
    if tier != "quick":
        out += [dict(mode="large", n_dim=1, seed=seed * 100183 + 1),
                dict(mode="large", n_dim=3, seed=seed * 100183 + 2)]
    out += [dict(mode="orig", seed=seed * 100189 + i) for i in range(16 * mul)]
    out += [dict(mode="smooth", seed=seed * 100193 + i) for i in range(16 * mul)]
    return out


def ensemble(rng, n_dim, bw, n=None):
    """Hostile positions: clustered, coincident, far apart, on a lattice"""
    n = n or int(rng.choice([2, 2, 3, 5, 10, 30, 100]))
    kind = str(rng.choice(["normal", "cluster", "coincident", "far", "lattice", "outlier"]))
    if kind == "normal":
        pos = rng.normal(size=(n, n_dim))
    elif kind == "cluster":
        pos = 0.01 * np.min(bw) * rng.normal(size=(n, n_dim)) + rng.normal(size=n_dim)
    elif kind == "coincident":
        pos = rng.normal(size=(n, n_dim))[rng.integers(0, max(1, n // 2), size=n)]
    elif kind == "far":
        pos = rng.normal(size=(n, n_dim)) * 100
    elif kind == "lattice":
        pos = np.arange(n * n_dim, dtype=float).reshape(n, n_dim) * np.asarray(bw)
    else:
        pos = rng.normal(size=(n, n_dim))
        pos[0] += 1e3
    return pos, kind


def make_particles(ld, pos, energy=None, masses=None):
    del ld.particles[:]
    for i, p in enumerate(pos):
        ld.add_particle(p)
    if energy is not None:
        for p, e in zip(ld.particles, energy):
            p.energy = float(e)


def run_orig(case, mon):
    rng = np.random.default_rng(case["seed"])
    from bdld.actions import birth_death as bdm

    for rep in range(25):
        n_dim = int(rng.choice([1, 2, 3]))
        bw = np.round(10.0 ** rng.uniform(-1.5, 0.5, size=n_dim), 4)
        if rng.random() < 0.2:  # other units
            bw = np.round(10.0 ** rng.uniform(-3, 3, size=n_dim), 5)
        kt = float(rng.choice([0.1, 0.5, 1.0, 2.5, 40.0]))
        system = systems.make(rng, n_dim=n_dim, coeffs=np.zeros((2,) * n_dim), ranges=[(-5.0, 5.0)] * n_dim)
        ld = systems.bpld(system, 0.01, 1.0, kt, 1)
        with systems.quiet():
            if rng.random() < 0.5:
                bd = bdm.BirthDeath(ld.particles, 0.01, 10, bw.tolist() if rng.random() < 0.5 else bw, kt)
            else:
                bd = bdm.BirthDeath(ld.particles, 0.01, 10, bw, kt, 3.0, True, bdm.ApproxVariant.orig)
        for rep2 in range(2):
            pos, kind = ensemble(rng, n_dim, bw)
            n = len(pos)
            energy = rng.normal(size=n) * 10.0 ** rng.integers(-2, 5)
            # density estimate on its own
            want = ref.kde(pos, pos, bw)
            got = np.asarray(bdm.walker_density(pos.copy(), np.array(bw)), dtype=float)
            mon.count("density estimates")
            mon.close(got, want, "density is the average over product Gaussian kernels", rtol=1e-9,
                      atol=0.0, n_dim=n_dim, bw=bw, kind=kind, n=n)
            if hasattr(bdm, "_walker_density_manual"):
                try:
                    man = np.asarray(bdm._walker_density_manual(pos.copy(), np.array(bw)), dtype=float)
                except TypeError:  # an internal function, might have other arguments
                    man = None
                if man is not None and man.shape == want.shape:
                    mon.count("density estimates large-ensemble variant")
                    mon.close(man, want, "density is the same function for large ensembles", rtol=1e-9,
                              atol=0.0, n_dim=n_dim, bw=bw, kind=kind, n=n)
            make_particles(ld, pos, energy)
            beta = np.array(bd.calc_betas(), dtype=float)
            wbeta = ref.beta_original(pos, energy, bw, kt)
            tol = 1e-9 * (1 + np.abs(energy).max() / kt)
            mon.count("ensembles original")
            mon.sig("orig", n_dim, kind, n, int(np.log10(bw.min()) * 2), kt)
            w = dict(n_dim=n_dim, bw=bw, kt=kt, kind=kind, n=n)
            mon.close(beta, wbeta, "rates of the original variant", rtol=1e-9, atol=tol, **w)
            mon.check(np.array_equal([p.pos for p in ld.particles], pos)
                      and all(p.energy == e for p, e in zip(ld.particles, energy)),
                      "calculating rates does not change walkers", **w)
            perm = rng.permutation(n)
            make_particles(ld, pos[perm], energy[perm])
            mon.close(np.array(bd.calc_betas()), beta[perm],
                      "rates do not depend on the order of the walkers", rtol=1e-9, atol=tol, **w)
            if mon.n_violations:
                return
    mon.sample(dict(pos=pos, energy=energy, bw=bw, kt=kt, beta=beta))


def smooth_system(rng, n_dim):
    """Potential, ranges, bandwidths for which the smoothed density is well resolved"""
    if n_dim == 1:
        which = int(rng.integers(4))
        coeffs, lo, hi = [
            ([0.0, 0.2, -4.0, 0.0, 1.0], -2.5, 2.5),
            ([0.0, 0.0, float(np.round(rng.uniform(0.3, 1.5), 2))], -3.0, 3.5),
            ([0.0, float(np.round(rng.normal(), 2))], 0.0, 4.0),
            ([1.0, -0.3, -1.0, 0.1, 0.3], -2.25, 2.75),
        ][which]
        ranges = [(lo, hi)]
        bw = [float(np.round(rng.uniform(0.08, 0.8), 3))]
        npts = [int(rng.choice([501, 501, 301, 601, 101, 73]))]
        c = np.array(coeffs)
    else:
        c = np.zeros((3, 3))
        c[2, 0], c[0, 2], c[1, 1], c[1, 0] = 0.7, 0.4, 0.2, 0.3
        ranges = [(-2.0, 2.5), (-3.0, 2.0)]
        bw = [float(np.round(x, 3)) for x in rng.uniform(0.25, 0.8, size=2)]
        npts = [int(x) for x in rng.integers(41, 71, size=2)]
    return c, ranges, bw, npts


def run_smooth(case, mon):
    rng = np.random.default_rng(case["seed"])
    from bdld import main as bmain
    from bdld.actions import birth_death as bdm

    V = bdm.ApproxVariant
    for rep in range(5):
        n_dim = 1 if rng.random() < 0.85 else 2
        c, ranges, bw, npts = smooth_system(rng, n_dim)
        kt = float(rng.choice([0.7, 1.0, 1.6]))
        system = systems.make(rng, n_dim=n_dim, coeffs=c, ranges=ranges)
        ld = systems.bpld(system, 0.01, 1.0, kt, 1)
        via_main = n_dim == 1 and rng.random() < 0.5
        if via_main:
            npts = None
            dens = bmain.bd_prob_density(system.pot, np.array(bw), kt)
            npts = [int(n) for n in dens.n_points]
        else:
            dens = system.pot.calculate_probability_density(kt, ranges, npts)
        sm = smooth.Smoothed(system.ref.energy, kt, ranges, npts, bw)
        for variant in ("additive", "multiplicative"):
            with systems.quiet():
                bd = bdm.BirthDeath(ld.particles, 0.01, 10, np.array(bw), kt, None, False,
                                    V.add if variant == "additive" else V.mult, dens)
            for rep2 in range(2):
                n = int(rng.choice([2, 5, 20, 60, 60, 350]))
                lo = np.array([r[0] for r in ranges])
                hi = np.array([r[1] for r in ranges])
                pos = lo + (hi - lo) * rng.random(size=(n, n_dim))
                if rng.random() < 0.3:
                    pos[0] = lo
                    pos[-1] = hi
                out = np.zeros(n, dtype=bool)
                if variant == "additive" and rng.random() < 0.4:
                    out[: int(rng.integers(1, n))] = True
                    pos[out] = hi + 0.05 + rng.random(size=(out.sum(), n_dim))
                energy = rng.normal(size=n) * 3  # deliberately not those of the position
                make_particles(ld, pos, energy)
                beta = np.array(bd.calc_betas(), dtype=float)
                base = np.log(ref.kde(pos, pos, bw))
                w = dict(variant=variant, n_dim=n_dim, bw=bw, kt=kt, ranges=ranges, npts=npts,
                         coeffs=c, n=n)
                mon.count(f"ensembles {variant}")
                mon.sig(variant, n_dim, n, via_main, round(bw[0], 1), kt, c.shape, out.any())
                if not mon.check(beta.shape == (n,) and np.all(np.isfinite(beta)), "one finite rate per walker",
                                 beta=beta, **w):
                    return
                if variant == "additive":
                    base = base + energy / kt
                    base = base - base.mean()
                    l, h = sm.add_at(pos)
                    l = np.where(out, 0.0, l)
                    h = np.where(out, 0.0, h)
                    mon.count("walkers outside the potential range (additive)", out.sum())
                    low, high = base + l, base + h
                else:
                    l, h = sm.mult_at(pos)
                    low = base + l - np.mean(base + h)
                    high = base + h - np.mean(base + l)
                slack = 1e-3 + 0.0 * l
                slack[out] = 1e-9
                width = high - low
                mon.count("walker rates compared within 0.1", int(np.sum(width < 0.1)))
                mon.count("walker rates compared within wider intervals", int(np.sum(width >= 0.1)))
                bad = (beta < low - slack) | (beta > high + slack)
                i = int(np.argmax(bad))
                mon.check(not bad.any(), f"rates of the {variant} variant", walker=i, pos=pos[i],
                          got=beta[i], low=low[i], high=high[i], outside=bool(out[i]), **w)
                perm = rng.permutation(n)
                make_particles(ld, pos[perm], energy[perm])
                mon.close(np.array(bd.calc_betas()), beta[perm],
                          "rates do not depend on the order of the walkers", rtol=1e-8, atol=1e-8, **w)
                if mon.n_violations:
                    return


def run_large(case, mon):
    """More than 10000 walkers take a different path through the code"""
    rng = np.random.default_rng(case["seed"])
    from bdld.actions import birth_death as bdm

    n, n_dim = 10001, case["n_dim"]
    bw = np.round(rng.uniform(0.1, 0.6, size=n_dim), 3)
    pos = rng.normal(size=(n, n_dim))
    pos[:200] = pos[200:400]
    pos[-1] += 50
    got = np.asarray(bdm.walker_density(pos, bw), dtype=float)
    mon.count("walkers in ensembles of more than 10000", n)
    mon.count("density estimates")
    mon.sig("large", n_dim)
    mon.close(got, ref.kde(pos, pos, bw), "density is the same function for large ensembles",
              rtol=1e-9, atol=0.0, n_dim=n_dim, bw=bw)
    # just below the threshold on the same positions
    got = np.asarray(bdm.walker_density(pos[:3000], bw), dtype=float)
    mon.close(got, ref.kde(pos[:3000], pos[:3000], bw), "density is the average over product Gaussian kernels",
              rtol=1e-9, atol=0.0)


def run_mid(case, mon):
    """Ensembles of all sizes: density, rates and (walkers on distinct values) their order"""
    rng = np.random.default_rng(case["seed"])
    from bdld.actions import birth_death as bdm

    n = case["n"]
    for n_dim in case["dims"]:
        bw = np.round(10.0 ** rng.uniform(-1.3, 0.3, size=n_dim), 3)
        pos = rng.normal(size=(n, n_dim)) * rng.uniform(0.3, 3, size=n_dim)
        pos[: n // 10] = pos[n // 10: 2 * (n // 10)]
        pos[-1] += 30
        kt = float(rng.choice([0.3, 1.0, 2.0]))
        energy = rng.normal(size=n) * 3
        system = systems.make(rng, n_dim=n_dim, coeffs=np.zeros((2,) * n_dim), ranges=[(-5.0, 5.0)] * n_dim)
        ld = systems.bpld(system, 0.01, 1.0, kt, 1)
        with systems.quiet():
            bd = bdm.BirthDeath(ld.particles, 0.01, 10, bw, kt)
        make_particles(ld, pos, energy)
        beta = np.array(bd.calc_betas(), dtype=float)
        dens = ref.kde(pos, pos, bw)
        want = np.log(dens) + energy / kt
        want = want - want.mean()
        mon.count("ensembles original")
        mon.count("ensembles of 64 to 10000 walkers")
        mon.count("walkers in ensembles of 64 to 10000", n)
        mon.sig("mid", n_dim, n)
        mon.close(beta, want, "rates of the original variant", rtol=1e-9, atol=1e-8, n=n, n_dim=n_dim, bw=bw, kt=kt)
        got = np.asarray(bdm.walker_density(pos, bw), dtype=float)
        mon.count("density estimates")
        mon.close(got, dens, "density is the average over product Gaussian kernels", rtol=1e-9, atol=0.0,
                  n=n, n_dim=n_dim, bw=bw)


def run_case(case, mon):
    dict(orig=run_orig, smooth=run_smooth, large=run_large, mid=run_mid)[case["mode"]](case, mon)
