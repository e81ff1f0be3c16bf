"""C20: simulations sample the Boltzmann distribution"""
import contextlib
import math

import numpy as np

from vlib import core, gen, outputs, ref, sim

RULE = ("one signature per (kind of system, integrator, dimension, friction, mass, kT, boundary condition, birth-death "
        "variant and mode)")
REQUIRED = {
    "program runs": 100,
    "walker steps": 4000000,
    "sampled walker states": 150000,
    "averages compared": 150,
    "birth-death relaxations": 12,
    "birth-death equilibria": 6,
    "free energy differences": 6,
}
ASSUMPTIONS = [
    "harmonic systems are compared with the exact stationary state of the discretised dynamics, others with the "
    "continuous distribution (tolerance 8 standard errors plus 1.5 percentage points)",
    "standard errors come from independent walkers or repetitions",
]
ZMAX = 8.0
CASE_TIMEOUT = 800


def cases(tier, seed):
    mul = 1 if tier == "quick" else 8
    out = []
    for i in range(10 * mul):
        out.append(dict(mode="harmonic", ld="bussi-parinello", seed=seed * 100799 + i))
    for i in range(6 * mul):
        out.append(dict(mode="harmonic", ld="overdamped", seed=seed * 100801 + i))
    for i in range(5 * mul):
        out.append(dict(mode="wells", ld="bussi-parinello", seed=seed * 100811 + i, i=i))
        out.append(dict(mode="wells", ld="overdamped", seed=seed * 100823 + i, i=i))
    for i, v in enumerate(("original", "additive", "multiplicative") * (2 * mul)):
        out.append(dict(mode="relax", variant=v, seed=seed * 100829 + i))
    for i in range(3 * mul):
        out.append(dict(mode="equilibrium", seed=seed * 100847 + i))
    for i in range(3 * mul):
        out.append(dict(mode="deltaf", seed=seed * 100853 + i))
    return out


@contextlib.contextmanager
def sampler(start, every):
    """Collect positions and momenta at the beginning of every n-th time step"""
    from bdld import actions

    rec = dict(pos=[], mom=[], steps=0)
    saved = []
    for cls in (actions.bussi_parinello_ld.BussiParinelloLD, actions.overdamped_ld.OverdampedLD):
        orig = cls.run

        def run(self, step=None, _orig=orig):
            if step > start and step % every == 0:
                rec["pos"].append(np.array([p.pos for p in self.particles], dtype=float))
                rec["mom"].append(np.array([p.mom for p in self.particles], dtype=float))
            rec["steps"] += len(self.particles)
            return _orig(self, step)

        cls.run = run
        saved.append((cls, orig))
    try:
        yield rec
    finally:
        for cls, orig in saved:
            cls.run = orig


def simulate(mon, cfg, start, every):
    with sampler(start, every) as rec:
        res = sim.run_main(cfg, record=False)
    mon.count("executions")
    mon.count("program runs")
    mon.count("walker steps", rec["steps"])
    if not mon.check(res.ok, "legal input runs to completion", exit=res.exit, stderr=res.stderr[-500:],
                     tb=res.tb[-1000:]):
        return None
    pos, mom = np.array(rec["pos"]), np.array(rec["mom"])
    mon.count("sampled walker states", pos.shape[0] * pos.shape[1] if pos.ndim > 1 else 0)
    if not mon.check(pos.ndim == 3 and np.all(np.isfinite(pos)) and np.all(np.isfinite(mom)), "states are finite",
                     input=sim.input_text(cfg)):
        return None
    return pos, mom


def judge(mon, name, values, exact, tol, /, **w):
    """Average over independent values compared with the exact one; returns relative data for pooling"""
    v = np.asarray(values, dtype=float)
    m, se = float(v.mean()), float(v.std(ddof=1) / np.sqrt(len(v)))
    mon.count("averages compared")
    z = (m - exact) / se if se > 0 else 0.0
    mon.check(abs(m - exact) <= ZMAX * se + tol, "average is the one of the equilibrium distribution", quantity=name,
              got=m, want=exact, standard_error=se, z=z, tolerance=tol, **w)
    return m, se


def stationary(matrix, noise):
    """Covariance of the stationary state of y <- M y + xi, cov(xi) = noise"""
    n = len(matrix)
    a = np.eye(n * n) - np.kron(matrix, matrix)
    return np.linalg.solve(a, noise.ravel()).reshape(n, n)


def harmonic_map(ld, k, dt, mass, kt, friction):
    """One step of the documented integrators for a harmonic force as a linear map with noise"""
    if ld == "overdamped":
        return np.array([[1 - k * dt]]), np.array([[2 * dt]])
    c1 = math.exp(-0.5 * friction * dt)
    c2 = (1 - c1 * c1) * mass * kt
    o = np.array([[1.0, 0.0], [0.0, c1]])  # thermostat
    b = np.array([[1.0, 0.0], [-0.5 * dt * k, 1.0]])  # half kick
    a = np.array([[1.0, dt / mass], [0.0, 1.0]])
    q = np.array([[0.0, 0.0], [0.0, c2]])
    inner = o @ b @ a @ b
    return inner @ o, inner @ q @ inner.T + q


def run_harmonic(case, rng, mon):
    ld = case["ld"]
    n_dim = int(rng.choice([1, 1, 2, 3]))
    k = [float(np.round(np.exp(rng.uniform(np.log(0.5), np.log(8))), 3)) for _ in range(n_dim)]
    x0 = [float(np.round(rng.uniform(-1, 1), 2)) for _ in range(n_dim)]
    mass = float(rng.choice([1.0, 0.4, 2.5, 6.0]))
    kt = float(np.round(rng.uniform(0.4, 2.5), 2)) if ld != "overdamped" else 1.0
    if ld == "overdamped":
        dt = float(np.round(rng.uniform(0.05, 0.3) / max(k), 4))
        fric = None
    else:
        omega = math.sqrt(max(k) / mass)
        dt = float(np.round(rng.uniform(0.1, 0.5) / omega, 4))
        fric = float(np.round(rng.uniform(0.3, 6) * omega, 3))
    maps = [harmonic_map(ld, kk, dt, mass, kt, fric) for kk in k]
    decay = max(np.abs(np.linalg.eigvals(m)).max() for m, _ in maps)
    tau = -1.0 / math.log(decay)
    walkers = 150
    burn = int(math.ceil(9 * tau))
    every = max(1, int(tau))
    n_steps = burn + max(800, min(int(80 * tau), 1600))
    n_steps = min(n_steps, 3000)
    burn = min(burn, n_steps // 2)
    shape = (3,) * n_dim
    c = np.zeros(shape)
    for d in range(n_dim):
        for order, val in ((2, 0.5 * k[d]), (1, -k[d] * x0[d]), (0, 0.5 * k[d] * x0[d] ** 2)):
            idx = [0] * n_dim
            idx[d] = order
            c[tuple(idx)] += val
    lo = [x - 6 * math.sqrt(kt / kk) for x, kk in zip(x0, k)]
    hi = [x + 6 * math.sqrt(kt / kk) for x, kk in zip(x0, k)]
    pot = {"type": "polynomial", "n_dim": n_dim, "min": lo if n_dim > 1 else lo[0], "max": hi if n_dim > 1 else hi[0]}
    if n_dim == 1:
        pot["coeffs"] = [float(x) for x in c]
    else:
        gen.write_coeffs("pot.coeffs", c)
        pot["coeffs-file"] = "pot.coeffs"
    cfg = {"ld": {"type": ld, "timestep": dt, "n_steps": n_steps, "seed": int(rng.integers(10**6))}, "potential": pot,
           "particles": {"number": walkers, "mass": mass, "seed": int(rng.integers(10**6)),
                         "initial-distribution": "fractions-pos", "pos1": x0, "fractions": [1.0]}}
    if ld != "overdamped":
        cfg["ld"].update({"kt": kt, "friction": fric})
    got = simulate(mon, cfg, burn, every)
    if got is None:
        return
    pos, mom = got
    w = dict(ld=ld, n_dim=n_dim, k=k, mass=mass, kt=kt, friction=fric, dt=dt, steps=n_steps, burn=burn)
    mon.sig("harmonic", ld, n_dim, mass, kt, fric, dt)
    for d in range(n_dim):
        cov = stationary(*maps[d])
        x = pos[:, :, d] - x0[d]
        scale = math.sqrt(cov[0, 0])
        judge(mon, "mean position", x.mean(axis=0), 0.0, 1e-3 * scale, dim=d, **w)
        # the state after n steps from rest has not reached the last fraction of the variance
        rest = decay ** (2 * burn)
        m, se = judge(mon, "position variance", (x**2).mean(axis=0), cov[0, 0], rest * cov[0, 0], dim=d, **w)
        mon.pool(f"{ld} position variance", [(m / cov[0, 0] - 1) / (se / cov[0, 0])])
        mon.pool(f"relative error {ld} position variance", [m / cov[0, 0] - 1])
        for e in range(d):
            y = pos[:, :, e] - x0[e]
            judge(mon, "correlation of dimensions", (x * y).mean(axis=0), 0.0, 1e-3 * scale, dims=(e, d), **w)
        if ld == "overdamped":
            continue
        p = mom[:, :, d]
        judge(mon, "mean momentum", p.mean(axis=0), 0.0, 1e-3 * math.sqrt(mass * kt), dim=d, **w)
        m, se = judge(mon, "momentum variance", (p**2).mean(axis=0), cov[1, 1], rest * cov[1, 1], dim=d, **w)
        mon.pool(f"{ld} momentum variance", [(m / cov[1, 1] - 1) / (se / cov[1, 1])])
        judge(mon, "position momentum correlation", (x * p).mean(axis=0), cov[0, 1], rest * scale * math.sqrt(mass * kt),
              dim=d, **w)
        for e in range(d):
            judge(mon, "momentum correlation of dimensions", (p * mom[:, :, e]).mean(axis=0), 0.0,
                  1e-3 * mass * kt, dims=(e, d), **w)
    mon.sample(dict(kind="harmonic", **w))


def bin_probabilities(energy, kt, edges):
    """Boltzmann probabilities of intervals by quadrature"""
    out = []
    for a, b in zip(edges[:-1], edges[1:]):
        x = np.linspace(a, b, 401)
        f = np.exp(-np.array([energy([v]) for v in x]) / kt)
        out.append(float(np.sum((f[1:] + f[:-1]) / 2 * np.diff(x))))
    return out


def run_wells(case, rng, mon):
    ld = case["ld"]
    kinds = ["double", "periodic", "2d", "quartic"] + (["box"] if ld != "overdamped" else ["double"])
    kind = kinds[case["i"] % 5]
    kt = float(np.round(rng.uniform(0.8, 1.5), 2)) if ld != "overdamped" else 1.0
    mass = float(rng.choice([1.0, 0.5, 2.0]))
    walkers = 120
    bc = None
    n_dim = 1
    if kind == "double":
        c = [0.0, float(np.round(rng.uniform(-0.4, 0.4), 2)), -float(np.round(rng.uniform(1.2, 2.0), 2)), 0.0, 0.6]
        lo, hi = -3.5, 3.5
    elif kind == "quartic":
        c = [0.0, 0.3, 0.0, 0.2, 0.5]
        lo, hi = -4.0, 4.0
    elif kind == "periodic":
        c = [0.0, 0.0, float(rng.choice([0.0, 0.8, -0.7])), 0.0, 0.0]
        lo, hi = -1.5, 1.5
        bc = "periodic"
    elif kind == "box":  # walls keep the kinetic energy
        c = [0.0, float(rng.choice([0.0, 0.4, -0.4]))]
        lo, hi = -1.0, 1.0
        bc = "reflective"
    else:
        n_dim = 2
        c2 = np.zeros((5, 3))
        c2[2, 0], c2[4, 0], c2[0, 2], c2[1, 1] = -1.2, 0.5, 1.0, 0.4
        lo, hi = -3.5, 3.5
    dt = 0.01 if ld == "overdamped" else 0.05
    n_steps = 3000 if ld == "overdamped" else 2200
    fric = float(np.round(rng.uniform(0.8, 4), 2))
    if kind == "box":
        dt, fric = 0.02, float(np.round(rng.uniform(1.0, 1.5), 2))
    burn, every = n_steps // 4, 10
    pot = {"type": "polynomial", "n_dim": n_dim}
    if n_dim == 1:
        pot.update({"coeffs": c, "min": lo, "max": hi})
        start = [[0.5 * lo], [0.5 * hi], [0.0]]
        energy = ref.RefPoly(c).energy
        inner = [-1.2, -0.6, 0.0, 0.6, 1.2]
        wide = [-9.0] + inner + [9.0] if bc is None else [lo] + inner[1:-1] + [hi]
        if kind == "box":
            wide[-1] += 1e-9
        probs = bin_probabilities(energy, kt, wide)
    else:
        gen.write_coeffs("pot.coeffs", c2)
        pot.update({"coeffs-file": "pot.coeffs", "min": [lo, lo], "max": [hi, hi]})
        start = [[1.0, 0.0], [-1.0, 0.5], [0.0, -0.5]]
        r = ref.RefPoly(c2)
        # marginal distribution of x + sign of y by summation on a fine grid
        xs = np.linspace(-5, 5, 401)
        ys = np.linspace(-6, 6, 301)
        X, Y = np.meshgrid(xs, ys, indexing="ij")
        E = sum(v * X ** i * Y ** j for (i, j), v in r.terms)
        P = np.exp(-(E - E.min()) / kt)
        P /= P.sum()
        wide = [-9.0, -1.0, 0.0, 1.0, 9.0]
        probs = [float(P[(xs >= a) & (xs < b)].sum() + 0) for a, b in zip(wide[:-1], wide[1:])]
        # grid points on the edges count half on each side
        for i, e in enumerate(wide[1:-1]):
            on = np.isclose(xs, e)
            half = 0.5 * float(P[on].sum())
            left_has = float(P[on & (xs < e)].sum())
            probs[i + 1] += -half + left_has
            probs[i] += half - left_has
        exy = float((P * X * Y).sum())
    total = sum(probs)
    probs = [p / total for p in probs]
    if bc:
        pot["boundary-condition"] = bc
    cfg = {"ld": {"type": ld, "timestep": dt, "n_steps": n_steps, "seed": int(rng.integers(10**6))}, "potential": pot,
           "particles": {"number": walkers, "mass": mass, "initial-distribution": "random-pos",
                         "seed": int(rng.integers(10**6)), "pos1": start[0], "pos2": start[1], "pos3": start[2]}}
    if ld != "overdamped":
        cfg["ld"].update({"kt": kt, "friction": fric})
    got = simulate(mon, cfg, burn, every)
    if got is None:
        return
    pos, mom = got
    mon.sig("wells", kind, ld, kt, mass, fric if ld != "overdamped" else None)
    w = dict(kind=kind, ld=ld, kt=kt, mass=mass, friction=fric, coefficients=pot.get("coeffs"))
    for (a, b), p in zip(zip(wide[:-1], wide[1:]), probs):
        inside = ((pos[:, :, 0] >= a) & (pos[:, :, 0] < b)).mean(axis=0)
        judge(mon, "probability of interval", inside, p, 0.015, interval=(a, b), **w)
    if n_dim == 2:
        judge(mon, "mean of x*y", (pos[:, :, 0] * pos[:, :, 1]).mean(axis=0), exy, 0.02, **w)
    if ld != "overdamped":
        for d in range(n_dim):
            p2 = mom[:, :, d] ** 2
            judge(mon, "momentum variance", p2.mean(axis=0), mass * kt, 0.02 * mass * kt, dim=d, **w)
            # independent of position: same variance on both sides
            right = pos[:, :, 0] > 0
            for name, side in (("right", right), ("left", ~right)):
                n_side = side.sum(axis=0)
                use = n_side > 20
                if use.sum() > 40:
                    v = (p2 * side).sum(axis=0)[use] / n_side[use]
                    judge(mon, f"momentum variance on the {name}", v, mass * kt, 0.04 * mass * kt, dim=d, **w)
            judge(mon, "position momentum correlation", (pos[:, :, d] * mom[:, :, d]).mean(axis=0), 0.0,
                  0.03 * math.sqrt(mass * kt), dim=d, **w)
    mon.sample(dict(probabilities=probs, **w))


def quantiles(energy, kt, lo, hi, n):
    """Positions at equidistant quantiles of the Boltzmann distribution"""
    x = np.linspace(lo, hi, 4001)
    f = np.exp(-np.array([energy([v]) for v in x]) / kt)
    cdf = np.concatenate([[0], np.cumsum((f[1:] + f[:-1]) / 2)])
    cdf /= cdf[-1]
    return np.interp((np.arange(n) + 0.5) / n, cdf, x)


def bd_config(rng, variant, recalc, tilt, kt, ld, walkers, n_steps, stride, factor, bw):
    c = [0.0, tilt, -5.0, 0.0, 1.0]
    cfg = {"ld": {"type": ld, "timestep": 0.005, "n_steps": n_steps, "seed": int(rng.integers(10**6))},
           "potential": {"type": "polynomial", "n_dim": 1, "coeffs": c, "min": -2.8, "max": 2.8},
           "particles": {"number": walkers, "mass": 1.0, "seed": int(rng.integers(10**6))},
           "birth-death": {"stride": stride, "kernel-bandwidth": bw, "seed": int(rng.integers(10**6)),
                           "exponential-factor": factor, "approximation-variant": variant,
                           "recalculate-probabilities": recalc}}
    if ld != "overdamped":
        cfg["ld"].update({"kt": kt, "friction": 10.0})
    return cfg, ref.RefPoly(c).energy


def run_relax(case, rng, mon):
    """Wrong state populations move towards those of the equilibrium"""
    variant = case["variant"]
    ld = str(rng.choice(["bussi-parinello", "overdamped"]))
    recalc = bool(rng.random() < 0.4)
    kt = 1.0 if ld == "overdamped" else float(rng.choice([0.8, 1.0, 1.2]))
    tilt = float(rng.choice([-0.3, -0.15, 0.0, 0.15, 0.3]))
    start_left = float(rng.choice([0.9, 0.1, 0.95, 0.05]))
    walkers, stride, factor, n_steps = 60, 10, 10.0, 500
    finals = []
    first = []
    for rep in range(8):
        cfg, energy = bd_config(rng, variant, recalc, tilt, kt, ld, walkers, n_steps, stride, factor, 0.3)
        cfg["particles"].update({"initial-distribution": "fractions-pos", "pos1": [-1.55], "pos2": [1.55],
                                 "fractions": [start_left, round(1 - start_left, 6)]})
        got = simulate(mon, cfg, n_steps - 60, 10)
        if got is None:
            return
        pos, _ = got
        finals.append(float((pos[:, :, 0] < 0).mean()))
        mon.count("birth-death relaxations")
    pl, pr = bin_probabilities(energy, kt, [-3.5, 0.0, 3.5])
    eq = pl / (pl + pr)
    got = float(np.mean(finals))
    se = float(np.std(finals, ddof=1) / np.sqrt(len(finals)))
    mon.count("averages compared")
    mon.sig("relax", variant, ld, recalc, kt, tilt, start_left)
    w = dict(variant=variant, ld=ld, recalc=recalc, kt=kt, tilt=tilt, start=start_left, equilibrium=eq, got=got, se=se)
    mon.pool("relax " + variant, [abs(got - eq) / abs(start_left - eq)])
    mon.check(abs(got - eq) < 0.5 * abs(start_left - eq) + 0.03, "populations move towards the equilibrium", **w)
    mon.sample(w)


def run_equilibrium(case, rng, mon):
    """The multiplicative variant keeps an equilibrated ensemble"""
    ld = str(rng.choice(["bussi-parinello", "overdamped"]))
    recalc = bool(rng.random() < 0.3)
    kt = 1.0 if ld == "overdamped" else float(rng.choice([0.8, 1.0, 1.3]))
    tilt = float(rng.choice([-0.6, 0.3, 0.6]))
    walkers, stride, factor, n_steps = 200, 10, 40.0, 400
    left, spread = [], []
    for rep in range(10):
        cfg, energy = bd_config(rng, "multiplicative", recalc, tilt, kt, ld, walkers, n_steps, stride, factor, 0.3)
        x = quantiles(energy, kt, -3.0, 3.0, walkers)
        cfg["particles"].update({"initial-distribution": "fractions-pos", "fractions": [1.0] * walkers})
        cfg["particles"].update({f"pos{i+1}": [float(v)] for i, v in enumerate(x)})
        got = simulate(mon, cfg, 150, 10)
        if got is None:
            return
        pos, mom = got
        left.append(float((pos[:, :, 0] < 0).mean()))
        spread.append(float((np.abs(pos[:, :, 0])).mean()))
        mon.count("birth-death equilibria")
    pl, pr = bin_probabilities(energy, kt, [-3.5, 0.0, 3.5])
    eq = pl / (pl + pr)
    grid = np.linspace(-3.5, 3.5, 2001)
    f = np.exp(-np.array([energy([v]) for v in grid]) / kt)
    mean_abs = float((np.abs(grid) * f).sum() / f.sum())
    mon.sig("equilibrium", ld, recalc, kt, tilt)
    w = dict(ld=ld, recalc=recalc, kt=kt, tilt=tilt)
    mon.pool("equilibrium left", [float(np.mean(left)) - eq])
    mon.pool("equilibrium distance", [float(np.mean(spread)) - mean_abs])
    judge(mon, "population of the left state", left, eq, 0.025, **w)
    judge(mon, "mean distance from the origin", spread, mean_abs, 0.02, **w)
    mon.sample(dict(left=np.mean(left), want=eq, distance=np.mean(spread), want_distance=mean_abs, **w))


def run_deltaf(case, rng, mon):
    """Reported free energy differences converge to those of the potential"""
    ld = str(rng.choice(["bussi-parinello", "overdamped"]))
    kt = 1.0 if ld == "overdamped" else float(rng.choice([0.7, 1.6, 2.5]))
    c = [0.0, float(np.round(rng.uniform(-0.5, 0.5), 2)), -1.5, 0.0, 0.6]
    n_steps = 2500
    values, fes = [], []
    energy = ref.RefPoly(c).energy
    for rep in range(10):
        cfg = {"ld": {"type": ld, "timestep": 0.01 if ld == "overdamped" else 0.05, "n_steps": n_steps,
                      "seed": int(rng.integers(10**6))},
               "potential": {"type": "polynomial", "n_dim": 1, "coeffs": c, "min": -3.0, "max": 3.0},
               "particles": {"number": 16, "initial-distribution": "random-pos", "seed": int(rng.integers(10**6)),
                             "pos1": [-1.1], "pos2": [1.1]},
               "trajectories": {"stride": 5, "write-stride": 500},
               "histogram": {"min": -3.0, "max": 3.0, "bins": 30, "stride": 5, "reset": 500},
               "fes": {"kt": kt, "filename": "fes", "stride": 500},
               "delta-f": {"filename": "df", "state1-min": -3.0, "state1-max": 0.0, "state2-min": 0.0, "state2-max": 3.0,
                           "state3-min": 1.4, "state3-max": 3.0}}
        if ld != "overdamped":
            cfg["ld"].update({"kt": kt, "friction": 2.0})
        with sim.fresh_dir():
            with sampler(n_steps, 10) as rec:
                res = sim.run_main(cfg, record=False)
            mon.count("executions")
            mon.count("program runs")
            mon.count("walker steps", rec["steps"])
            if not mon.check(res.ok, "legal input runs to completion", tb=res.tb[-800:]):
                return
            _, _, rows = sim.read_table("df")
            values.append([float(x) for x in rows[-1]][-2:])
            _, _, frows = sim.read_table("fes")
            fes.append([float(r[1]) for r in frows])
        mon.count("free energy differences")
    p = bin_probabilities(energy, kt, [-3.0, 0.0, 1.4, 3.0])
    want = [-kt * math.log((p[1] + p[2]) / p[0]), -kt * math.log(p[2] / p[0])]
    v = np.array(values)
    mon.sig("deltaf", ld, kt, c)
    w = dict(ld=ld, kt=kt, c=c)
    for j in range(2):
        judge(mon, f"free energy difference {j + 1}", v[:, j], want[j], 0.06 * kt, **w)
    # free energy surface itself in the populated region
    mids = -3.0 + 0.2 * (np.arange(30) + 0.5)
    exact = np.array([-kt * math.log(q) for q in bin_probabilities(energy, kt, list(-3.0 + 0.2 * np.arange(31)))])
    use = exact - exact.min() < 1.5 * kt
    f = np.array(fes)[:, use]
    f = f - f.mean(axis=1, keepdims=True)
    want_f = exact[use] - exact[use].mean()
    for j in range(f.shape[1]):
        judge(mon, "free energy surface", f[:, j], want_f[j], 0.06 * kt, pos=mids[use][j], **w)
    mon.sample(dict(delta_f=v.mean(axis=0), want=want, **w))


def finalize(mon, tier):
    for name, p in sorted(mon.pools.items()):
        if name.endswith("variance") and not name.startswith("relative") and p[0] >= 5:
            # sums of z values of many systems
            z = p[1] / math.sqrt(p[0])
            mon.check(abs(z) < 7.0, "variances of all systems together agree", pool=name, n=p[0], z=z)


def run_case(case, mon):
    rng = np.random.default_rng(case["seed"])
    dict(harmonic=run_harmonic, wells=run_wells, relax=run_relax, equilibrium=run_equilibrium,
         deltaf=run_deltaf)[case["mode"]](case, rng, mon)
