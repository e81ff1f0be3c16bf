"""C02: overdamped Langevin steps follow Euler-Maruyama"""
import numpy as np

from vlib import core, ref, systems

RULE = ("one signature per (dimension, potential, timestep, mass set, boundary condition, way the "
        "particle entered the list)")
REQUIRED = {
    "far particle steps": 400,
    "first steps of new particles": 1200,
    "particles in large ensembles": 70000,
    "noise values searched for repetitions": 1000000,
    "noisy particle steps": 100000,
    "drift dominated particle steps": 3000,
    "parameter sets compared with the same random numbers": 150,
    "list op insert": 50,
    "list op overwrite": 50,
    "list op remove": 50,
}
ASSUMPTIONS = [
    "noise distribution is judged by mean, variance, fourth moment, outliers and "
    "correlations of the inferred normal numbers (z > 7 is a violation)",
]
MASSES = [1.0, 0.25, 3.5]


def cases(tier, seed):
    mul = 1 if tier == "quick" else 10
    out = []
    i = 0
    for _ in range(10 * mul):
        out.append(dict(mode="list", seed=seed * 100019 + i))
        i += 1
    for r in range(4 * mul):
        for n_dim in (1, 2, 3):
            out.append(dict(mode="noise", n_dim=n_dim, seed=seed * 100019 + i,
                            steps=2500 if tier == "quick" else 6000))
            i += 1
    for r in range(1 if tier == "quick" else 4):
        out.insert(r, dict(mode="long", seed=seed * 100019 + 10**6 + r, n=[10, 3, 200, 1][r],
                           values=1200000 if tier == "quick" else 3000000))
    for r in range(3 * mul):
        out.append(dict(mode="fresh", seed=seed * 100019 + 2 * 10**6 + r))
    for r, n in enumerate([1100, 5000, 70000] * (1 if tier == "quick" else 4)):
        out.insert(0, dict(mode="big", n=n, seed=seed * 100019 + 3 * 10**6 + r))
    for r in range(4 * mul):
        out.append(dict(mode="same", seed=seed * 100019 + 4 * 10**6 + r))
        out.append(dict(mode="far", seed=seed * 100019 + 5 * 10**6 + r))
    for _ in range(12 * mul):
        out.append(dict(mode="drift", seed=seed * 100019 + i))
        i += 1
    return out


def check_cache(mon, system, p, w):
    ae, ag = system.ref.abs_energy(p.pos)
    off = getattr(system, "offset", 0.0)
    mon.check(abs(float(p.energy) - system.ref.energy(p.pos) - off) <= 1e-9 * (ae + abs(off) + 1e-6),
              "stored energy belongs to the new position", got=p.energy,
              want=system.ref.energy(p.pos), **w)
    f = system.ref.force(p.pos)
    mon.check(np.all(np.abs(np.ravel(p.forces) - f) <= 1e-9 * (ag + 1e-6)),
              "stored forces belong to the new position", got=p.forces, want=f, **w)


def run_noise(case, mon):
    rng = np.random.default_rng(case["seed"])
    n_dim = case["n_dim"]
    system = systems.make(rng, n_dim=n_dim, coeffs=systems.confining(rng, n_dim),
                          ranges=[(-4.0, 4.0)] * n_dim)
    dt = float(rng.choice([0.0005, 0.01, 0.1]))
    ld = systems.overdamped(system, dt, int(rng.integers(0, 10**6)))
    other = systems.overdamped(system, 3 * dt, 7)
    other.add_particle(system.start(rng, 0.3), 2.0)
    mon.check(float(ld.kt) == 1.0, "thermal energy of the overdamped dynamics is 1", kt=ld.kt)
    n = 7
    masses = [float(x) for x in rng.choice(MASSES, size=n)]
    for k in range(n):  # those replaced below had another mass before
        ld.add_particle(system.start(rng, 0.3), masses[k] * (9.0 if k in (2, 5) else 1.0))
    ld.add_particle(system.start(rng, 0.3), masses[2], 2, True)
    ld.remove_particle(5)
    ld.add_particle(system.start(rng, 0.3), masses[5], 5)
    for p in ld.particles:
        p.mom[:] = rng.normal(size=n_dim)  # momenta must not matter
    steps = case["steps"]
    N = np.empty((steps, n, n_dim))
    X = np.empty((steps, n, n_dim))
    for step in range(steps):
        before = [np.array(p.pos) for p in ld.particles]
        mom = [np.array(p.mom) for p in ld.particles]
        if step % 50 == 0:
            other.run(step)
        ld.run(step + 1)
        for i, p in enumerate(ld.particles):
            N[step, i] = (p.pos - before[i] - dt * system.ref.force(before[i])) / np.sqrt(2 * dt)
            X[step, i] = before[i]
            if step % 40 == 0:
                w = dict(step=step, particle=i, mass=masses[i])
                check_cache(mon, system, p, w)
                mon.check(float(p.mass) == masses[i], "mass is unchanged", **w)
                mon.check(np.array_equal(p.mom, mom[i]), "momenta are not used or changed", **w)
    mon.count("noisy particle steps", steps * n)
    mon.sig("noise", n_dim, dt, masses)
    if not mon.check(np.all(np.isfinite(N)), "finite noise"):
        return
    core.check_no_repeats(mon, N, 1e-9, n_dim=n_dim, dt=dt)
    mon.check(np.abs(N).max() < 8, "noise has no outliers", max=np.abs(N).max(), dt=dt)
    for i, m in enumerate(masses):
        mon.pool(f"n mass {m}", N[:, i])
        mon.pool("n " + {2: "overwritten", 5: "inserted"}.get(i, "added"), N[:, i])
    mon.pool(f"n dt {dt}", N)
    for d in range(n_dim):
        mon.pool(f"n dim {d} of {n_dim}", N[..., d])
    mon.pool("x particles", N[:, 0] * N[:, 1])
    mon.pool("x particles", N[:, 3] * N[:, 4])
    mon.pool("x successive steps", N[1:] * N[:-1])
    mon.pool("x successive steps next particle", N[1:, :-1] * N[:-1, 1:])
    mon.pool("x position", N * X)
    mon.pool("x squares steps", (N[1:] ** 2 - 1) * (N[:-1] ** 2 - 1))
    mon.pool("x squares particles", (N[:, 0] ** 2 - 1) * (N[:, 1] ** 2 - 1))
    if n_dim > 1:
        mon.pool("x dims", N[..., 0] * N[..., 1])
        mon.pool("x dims last", N[..., 0] * N[..., -1])


def run_drift(case, mon):
    """Strong forces: the drift is seen almost without noise, also with boundary conditions"""
    rng = np.random.default_rng(case["seed"])
    for rep in range(15):
        bc = str(rng.choice(["none", "none", "reflective", "periodic"]))
        n_dim = int(rng.choice([1, 2, 3]))
        shape = tuple(int(x) for x in rng.integers(2, 4, size=n_dim))
        amp = 10.0 ** rng.integers(3, 8)
        coeffs = np.round(rng.normal(size=shape), 2) * amp
        ranges = [(float(np.round(-1 - rng.random(), 2)), float(np.round(1 + rng.random(), 2)))
                  for _ in range(n_dim)]
        system = systems.make(rng, n_dim=n_dim, bc=bc, coeffs=coeffs, ranges=ranges)
        dt = float(10.0 ** rng.uniform(-6, -2))
        ld = systems.overdamped(system, dt, int(rng.integers(0, 10**6)))
        for _ in range(4):
            ld.add_particle(system.start(rng, 0.8), float(rng.choice(MASSES)))
        mon.sig("drift", n_dim, bc, int(np.log10(amp)), round(np.log10(dt)))
        for step in range(1, 16):
            for p in ld.particles:  # restart from known places, new forces come from the code
                if np.abs(p.pos).max() > 3:
                    ld.add_particle(system.start(rng, 0.8), float(p.mass),
                                    ld.particles.index(p), True)
            before = [np.array(p.pos) for p in ld.particles]
            ld.run(step)
            for i, p in enumerate(ld.particles):
                raw = before[i] + dt * system.ref.force(before[i])
                _, ag = system.ref.abs_energy(before[i])
                noise = 8 * np.sqrt(2 * dt)
                tol = noise + 1e-9 * (dt * ag + np.abs(raw))
                w = dict(step=step, particle=i, bc=bc, dt=dt, before=before[i], ranges=ranges,
                         raw=raw, got=p.pos)
                for d, (lo, hi) in enumerate(ranges):
                    L = hi - lo
                    if bc == "none" or lo + tol[d] < raw[d] < hi - tol[d]:
                        ok = abs(p.pos[d] - raw[d]) <= tol[d]
                    elif bc == "reflective" and not lo - tol[d] < raw[d] < hi + tol[d]:
                        ok = p.pos[d] == (lo if raw[d] < lo else hi)
                    elif bc == "periodic" and L > 4 * tol[d]:
                        k = (p.pos[d] - raw[d]) / L
                        ok = abs(k - round(k)) * L <= 2 * tol[d]
                    else:
                        continue
                    if not mon.check(ok, "position changes by dt*force at the old position", dim=d, **w):
                        return
                mon.count("drift dominated particle steps")
                check_cache(mon, system, p, dict(step=step, bc=bc))


def run_long(case, mon):
    """Very many normal numbers of one generator: none is used twice"""
    rng = np.random.default_rng(case["seed"])
    n, n_dim = case["n"], 3
    c = np.zeros((3, 3, 3))
    c[2, 0, 0] = c[0, 2, 0] = c[0, 0, 2] = 0.5
    system = systems.make(rng, n_dim=3, coeffs=c, ranges=[(-1.0, 1.0)] * 3)
    dt = 0.05
    ld = systems.overdamped(system, dt, int(rng.integers(0, 10**6)))
    for _ in range(n):
        ld.add_particle(system.start(rng))
    steps = case["values"] // (n * n_dim)
    N = np.empty((steps, n, n_dim))
    pos = np.array([p.pos for p in ld.particles])
    for step in range(steps):
        ld.run(step + 1)
        new = np.array([p.pos for p in ld.particles])
        N[step] = (new - pos * (1 - dt)) / np.sqrt(2 * dt)
        pos = new
    mon.count("noisy particle steps", steps * n)
    mon.sig("long", n)
    core.check_no_repeats(mon, N, 1e-11, particles=n)
    mon.pool("n long", N)
    core.check_normal_sample(mon, N, particles=n)
    k = N.shape[0] // 8
    for j in range(8):
        mon.pool(f"n long {j}", N[j * k:(j + 1) * k])
    flat = N.reshape(-1)
    for lag in (1, 2, 3, 4, 5, 6, 7, 8, 16, 64, 256, 1000, 1024, 4096, 10000):
        mon.pool(f"x lag {lag}", flat[lag:] * flat[:-lag])


def run_fresh(case, mon):
    """First steps of particles that were just created"""
    rng = np.random.default_rng(case["seed"])
    for rep in range(6):
        n_dim = int(rng.integers(1, 4))
        system = systems.make(rng, n_dim=n_dim, coeffs=systems.confining(rng, n_dim), ranges=[(-4.0, 4.0)] * n_dim)
        dt = 0.01
        ld = systems.overdamped(system, dt, int(rng.integers(0, 10**6)))
        for _ in range(20):
            ld.add_particle(system.start(rng, 0.3), float(rng.choice(MASSES)))
        for step in range(60):
            k = int(rng.integers(0, 20))
            if step % 2:
                ld.add_particle(system.start(rng, 0.3), float(rng.choice(MASSES)), k, True)
            else:
                ld.remove_particle(k)
                ld.add_particle(system.start(rng, 0.3), float(rng.choice(MASSES)))
                k = 19
            todo = range(20) if step == 0 else [k]
            before = {i: np.array(ld.particles[i].pos) for i in todo}
            ld.run(step + 1)
            for i in todo:
                n = (ld.particles[i].pos - before[i] - dt * system.ref.force(before[i])) / np.sqrt(2 * dt)
                mon.count("first steps of new particles")
                mon.pool("n first step of a particle", n)
                mon.check(np.abs(n).min() > 1e-9, "noise is never absent", n=n, step=step)
        mon.sig("fresh", n_dim)


def run_same(case, mon):
    """The same random numbers with other parameters: their size has to follow the rule exactly"""
    rng = np.random.default_rng(case["seed"])
    n, steps = 4, 6
    n_dim = int(rng.integers(1, 4))
    system = systems.make(rng, n_dim=n_dim, coeffs=np.zeros((1,) * n_dim), ranges=[(-1.0, 1.0)] * n_dim)
    seed = int(rng.integers(0, 10**6))
    first = None
    for rep in range(60):
        dt = 0.01 if rep == 0 else float(10 ** rng.uniform(-7, 1))
        masses = [float(10 ** rng.uniform(-2, 2)) for _ in range(n)]
        ld = systems.overdamped(system, dt, seed)
        for m in masses:
            ld.add_particle([0.0] * n_dim, m)
        N = np.empty((n, steps, n_dim))
        for step in range(steps):
            before = [np.array(p.pos) for p in ld.particles]
            ld.run(step + 1)
            for i, p in enumerate(ld.particles):
                N[i, step] = (p.pos - before[i]) / np.sqrt(2 * dt)
        if first is None:
            first = N
            continue
        mon.count("parameter sets compared with the same random numbers")
        mon.sig("same", n_dim, round(np.log10(dt)))
        ratio = N / first
        for i in range(n):
            r = ratio[i]
            # other random numbers would not be proportional to the first ones
            if not np.all(np.isfinite(r)) or np.ptp(r) > 1e-6 * abs(np.mean(r)):
                mon.count("skipped: other random numbers")
                continue
            mon.count("noise amplitudes compared")
            if not mon.check(abs(np.mean(r) - 1) < 1e-6, "amplitude of the noise is sqrt(2 dt) for every timestep and mass",
                             factor=np.mean(r), dt=dt, mass=masses[i]):
                return


def run_big(case, mon):
    """Ensembles of any size: every particle is moved by the rule (drift dominated)"""
    rng = np.random.default_rng(case["seed"])
    system = systems.make(rng, n_dim=1, coeffs=[0.0, 1e4, 3e3], ranges=[(-1.0, 1.0)])
    dt, n = 1e-4, case["n"]
    ld = systems.overdamped(system, dt, 1)
    for _ in range(n):
        ld.add_particle(system.start(rng, 0.8))
    before = np.array([p.pos for p in ld.particles])
    ld.run(1)
    now = np.array([p.pos for p in ld.particles])
    N = (now - before - dt * (-1e4 - 6e3 * before)) / np.sqrt(2 * dt)
    mon.count("particles in large ensembles", n)
    mon.sig("big", n)
    mon.check(np.abs(N).max() < 8, "every particle of a large ensemble makes the step", n=n,
              particle=int(np.abs(N).argmax()), worst=np.abs(N).max())
    mon.pool("n large ensemble", N)
    for i in list(range(0, n, 1 + n // 3000)) + [n - 1]:
        check_cache(mon, system, ld.particles[i], dict(n=n, particle=i))


def run_list(case, mon):
    rng = np.random.default_rng(case["seed"])
    for rep in range(4):
        system = systems.make(rng, bc=str(rng.choice(["none", "reflective", "periodic"])),
                              kind="mb" if rng.random() < 0.2 else None)
        ld = systems.overdamped(system, 0.0005, int(rng.integers(10**6)))
        labels = systems.list_history(mon, rng, ld, system, 40)
        mon.sig("list", labels, system.n_dim)


def run_far(case, mon):
    """Positions and forces of any magnitude are moved like all others"""
    rng = np.random.default_rng(case["seed"])
    for rep in range(12):
        n_dim = int(rng.integers(1, 4))
        scale = float(10.0 ** rng.integers(2, 9))
        co = systems.confining(rng, n_dim) * scale ** float(rng.choice([-1.0, 0.0, 0.5]))
        system = systems.make(rng, n_dim, coeffs=co, ranges=[(-1.0, 1.0)] * n_dim)
        dt = float(rng.choice([1e-6, 1e-3, 0.01]))
        ld = systems.overdamped(system, dt, int(rng.integers(10**6)))
        for k in range(5):
            ld.add_particle(rng.normal(size=n_dim) * scale, float(rng.choice(MASSES)))
        mon.sig("far", n_dim, scale, dt)
        for step in range(1, 4):
            before = [np.array(p.pos, dtype=float) for p in ld.particles]
            ld.run(step)
            for i, (p, pos) in enumerate(zip(ld.particles, before)):
                mon.count("far particle steps")
                f = system.ref.force(pos)
                tol = 8.0 * np.sqrt(2 * dt) + 1e-9 * (np.abs(pos) + dt * np.abs(f).max())
                w = dict(step=step, particle=i, dt=dt, before=pos, force=f)
                if not mon.check(np.all(np.abs(p.pos - pos - dt * f) <= tol), "drift is dt times the force at the old position",
                                 got=p.pos, want=pos + dt * f, **w):
                    return
                check_cache(mon, system, p, w)


def run_case(case, mon):
    dict(drift=run_drift, noise=run_noise, list=run_list, long=run_long, fresh=run_fresh, big=run_big,
         same=run_same, far=run_far)[case["mode"]](case, mon)


def finalize(mon, tier):
    core.check_normal_pools(mon, "n ")
    core.check_product_pools(mon, "x ")
