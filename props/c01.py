"""C01: underdamped Langevin steps follow the Bussi-Parrinello scheme"""
import numpy as np

from vlib import core, ref, systems

RULE = ("one signature per (dimension, boundary condition, friction*dt decade, mass set, "
        "temperature class, way the particle entered the list)")
REQUIRED = {
    "far particle steps": 400,
    "deterministic particle steps": 20000,
    "noisy particle steps": 100000,
    "boundary hits": 200,
    "noise values searched for repetitions": 1000000,
    "first steps of new particles": 1200,
    "particles in large ensembles": 70000,
    "parameter sets compared with the same random numbers": 150,
    "list op insert": 50,
    "list op overwrite": 50,
    "list op remove": 50,
}
ASSUMPTIONS = [
    "noise distribution is judged by mean, variance, fourth moment, outliers and "
    "correlations of the inferred normal numbers (z > 7 is a violation)",
]

MASSES = [1.0, 0.5, 2.75, 12.0]


def cases(tier, seed):
    mul = 1 if tier == "quick" else 8
    out = []
    i = 0
    for _ in range(6 * mul):
        for bc in ("none", "reflective", "periodic"):
            out.append(dict(mode="det", bc=bc, seed=seed * 100003 + i))
            i += 1
    for _ in range(12 * mul):
        out.append(dict(mode="list", seed=seed * 100003 + i))
        i += 1
    for r in range(1 if tier == "quick" else 4):
        out.insert(r, dict(mode="long", seed=seed * 100003 + 10**6 + r, n=[10, 3, 200, 1][r],
                           values=1200000 if tier == "quick" else 3000000))
    for r in range(4 * mul):
        out.append(dict(mode="fresh", seed=seed * 100003 + 2 * 10**6 + r))
    for r, n in enumerate([1100, 5000, 70000] * (1 if tier == "quick" else 4)):
        out.insert(0, dict(mode="big", n=n, seed=seed * 100003 + 3 * 10**6 + r))
    for r in range(4 * mul):
        out.append(dict(mode="same", seed=seed * 100003 + 4 * 10**6 + r))
        out.append(dict(mode="far", seed=seed * 100003 + 5 * 10**6 + r))
    grid = [(1, 1e-3), (2, 1e-3), (1, 0.05), (3, 0.05), (2, 0.5), (1, 2.0), (3, 5.0), (1, 20.0)]
    for r in range(2 * mul):
        for n_dim, gdt in grid:
            out.append(dict(mode="noise", n_dim=n_dim, gdt=gdt, seed=seed * 100003 + i,
                            steps=2500 if tier == "quick" else 8000))
            i += 1
    return out


def ref_step(system, pos, mom, mass, c1, dt):
    """One step without noise"""
    m = c1 * mom + 0.5 * dt * system.ref.force(pos)
    raw = pos + dt * m / mass
    new, m, hit = ref.boundary(system.bc, raw, m, system.ranges)
    m = c1 * (m + 0.5 * dt * system.ref.force(new))
    return raw, new, m, hit


def run_det(case, mon):
    rng = np.random.default_rng(case["seed"])
    for rep in range(8):
        kind = "mb" if rng.random() < 0.25 else None
        system = systems.make(rng, bc=case["bc"], kind=kind)
        dt = float(rng.choice([1e-3, 5e-3, 0.02]))
        friction = float(rng.choice([0.0, 0.0, 0.1, 1.0, 20.0, 200.0, 3000.0, 1e5]))
        # without friction there is no noise, whatever the temperature
        kt = float(rng.choice([0.5, 3.0])) if friction == 0 else 1e-44
        ld = systems.bpld(system, dt, friction, kt, int(rng.integers(1, 10**6)))
        other = systems.bpld(system, 0.5 * dt, friction + 1.0, 2.0, 5)  # must not interfere
        c1 = np.exp(-0.5 * friction * dt)
        n = int(rng.integers(1, 6))
        for k in range(n):
            ld.add_particle(system.start(rng, 0.9), float(rng.choice(MASSES)))
            other.add_particle(system.start(rng, 0.9), 4.0)
        hot = system.bc != "none" and rng.random() < 0.7
        mon.sig("det", system.n_dim, system.bc, kind, friction, dt, [p.mass for p in ld.particles])
        for step in range(1, 61):
            if hot and step % 3 == 1:  # hit the walls
                for p in ld.particles:
                    p.mom[:] = p.mass * rng.normal(size=system.n_dim) * 2.0 / dt * rng.random() ** 2
            elif step % 20 == 1:
                for p in ld.particles:
                    p.mom[:] = p.mass * rng.normal(size=system.n_dim)
            before = [systems.state(p) for p in ld.particles]
            if rng.random() < 0.3:
                other.run(step)
            if rng.random() < 0.5:
                ld.run(step)
            else:
                ld.run()
            if not mon.check(len(ld.particles) == n, "number of particles is constant"):
                return
            bad = False
            for i, (p, (pos, mom, mass, _, _)) in enumerate(zip(ld.particles, before)):
                if not np.all(np.isfinite(pos)) or np.abs(pos).max() > 30:
                    bad = True  # left the region in which the potential confines
                    break
                raw, new, m, hit = ref_step(system, pos, mom, mass, c1, dt)
                edge = False
                for x, y, (lo, hi) in zip(raw, new, system.ranges):
                    tol = 1e-8 * (hi - lo) + 1e-12 * abs(x)
                    edge |= min(abs(x - lo), abs(x - hi), abs(y - lo), abs(y - hi)) < tol and not (
                        system.bc == "reflective" and min(abs(x - lo), abs(x - hi)) > tol
                    )
                if edge and system.bc != "none":
                    mon.count("skipped: step ends on a boundary")
                    continue
                mon.count("deterministic particle steps")
                mon.count("boundary hits", hit.sum())
                if not np.all(np.isfinite(new)) or np.abs(new).max() > 30:
                    bad = True
                    break
                ptol = 1e-9 * (1 + np.abs(raw).max() * (1 if system.bc == "periodic" else 1e-2))
                _, ag = system.ref.abs_energy(new)
                _, ag0 = system.ref.abs_energy(pos)
                mtol = 1e-9 * (np.abs(m).max() + np.abs(mom).max() + dt * (ag.max() + ag0.max())
                               + 1e-6) + dt * 1e3 * ag.max() * ptol
                w = dict(step=step, particle=i, bc=system.bc, dt=dt, friction=friction, mass=mass,
                         before=(pos, mom))
                ok = mon.check(np.all(np.abs(p.pos - new) <= ptol),
                               "noise-free position update is velocity Verlet", got=p.pos,
                               want=new, **w)
                ok &= mon.check(np.all(np.abs(p.mom - m) <= mtol),
                                "noise-free momentum update is c1*(VV(c1*p))", got=p.mom,
                                want=m, **w)
                ok &= mon.check(float(p.mass) == mass, "mass is unchanged", **w)
                if not ok:
                    return
                ae, _ = system.ref.abs_energy(p.pos)
                f = system.ref.force(p.pos)
                mon.check(np.all(np.abs(np.ravel(p.forces) - f) <= 1e-8 * (ag + 1e-6)),
                          "stored forces belong to the new position", got=p.forces, want=f, **w)
            if bad:
                break
    mon.sample(dict(case=case, last_pos=[p.pos for p in ld.particles]))


def noise_of_step(system, before, p, dt, c1, c2, forces):
    pos, mom, mass = before[:3]
    m2 = (p.pos - pos) * mass / dt
    n1 = (m2 - 0.5 * dt * forces - c1 * mom) / c2
    f1 = system.ref.force(p.pos)
    n2 = (p.mom - c1 * (m2 + 0.5 * dt * f1)) / c2
    return n1, n2, f1


def run_noise(case, mon, mode=None):
    rng = np.random.default_rng(case["seed"])
    n_dim, gdt = case["n_dim"], case["gdt"]
    system = systems.make(rng, n_dim=n_dim, coeffs=systems.confining(rng, n_dim),
                          ranges=[(-4.0, 4.0)] * n_dim)
    dt = float(rng.choice([0.004, 0.02, 0.05]))
    friction = gdt / dt
    kt = float(rng.choice([0.3, 1.0, 2.7]))
    ld = systems.bpld(system, dt, friction, kt, int(rng.integers(0, 10**6)))
    c1 = np.exp(-0.5 * gdt)
    n = 7
    masses = [float(x) for x in rng.choice(MASSES, size=n)]
    for k in range(n):  # those replaced below had another mass before
        ld.add_particle(system.start(rng, 0.3), masses[k] * (9.0 if k in (2, 5) else 1.0))
    # part of the particles get their place by overwriting and inserting
    ld.add_particle(system.start(rng, 0.3), masses[2], 2, True)
    ld.remove_particle(5)
    ld.add_particle(system.start(rng, 0.3), masses[5], 5)
    steps = case["steps"]
    N1 = np.empty((steps, n, n_dim))
    N2 = np.empty((steps, n, n_dim))
    P = np.empty((steps, n, n_dim))
    c2 = [np.sqrt((1 - c1 * c1) * m * kt) for m in masses]
    f = [system.ref.force(p.pos) for p in ld.particles]
    for step in range(steps):
        before = [systems.state(p) for p in ld.particles]
        ld.run(step + 1)
        for i, p in enumerate(ld.particles):
            N1[step, i], N2[step, i], f[i] = noise_of_step(
                system, before[i], p, dt, c1, c2[i], f[i])
            P[step, i] = before[i][1] / np.sqrt(masses[i] * kt)
    mon.count("noisy particle steps", steps * n)
    mon.sig("noise", n_dim, gdt, dt, kt, masses)
    if not mon.check(np.all(np.isfinite(N1)) and np.all(np.isfinite(N2)), "finite noise"):
        return
    core.check_no_repeats(mon, np.r_[N1.ravel(), N2.ravel()], 1e-9, gdt=gdt, n_dim=n_dim)
    mon.check(np.abs(N1).min() > 1e-11 and np.abs(N2).min() > 1e-11, "noise is never absent")
    # exact structure within this run
    mon.check(np.abs(N1).max() < 8 and np.abs(N2).max() < 8, "noise has no outliers",
              max1=np.abs(N1).max(), max2=np.abs(N2).max(), gdt=gdt, masses=masses)
    for i, m in enumerate(masses):
        how = {2: "overwritten", 5: "inserted"}.get(i, "added")
        mon.pool(f"n mass {m}", N1[:, i])
        mon.pool(f"n mass {m}", N2[:, i])
        mon.pool(f"n {how}", N1[:, i])
        mon.pool(f"n {how}", N2[:, i])
    mon.pool(f"n first gdt {gdt}", N1)
    mon.pool(f"n second gdt {gdt}", N2)
    mon.pool(f"n kt {kt}", N1)
    mon.pool(f"n kt {kt}", N2)
    for d in range(n_dim):
        mon.pool(f"n dim {d} of {n_dim}", N1[..., d])
        mon.pool(f"n dim {d} of {n_dim}", N2[..., d])
    mon.pool("x first*second half", N1 * N2)
    mon.pool("x particles", N1[:, 0] * N1[:, 1])
    mon.pool("x particles", N2[:, 3] * N2[:, 4])
    mon.pool("x particles second*first", N2[:, :-1] * N1[:, 1:])
    mon.pool("x successive steps", N1[1:] * N1[:-1])
    mon.pool("x successive steps second*first", N2[:-1] * N1[1:])
    mon.pool("x successive steps", N2[1:] * N2[:-1])
    mon.pool("x momentum", P * N1)
    mon.pool("x momentum second", P * N2)
    mon.pool("x squares first*second", (N1**2 - 1) * (N2**2 - 1))
    mon.pool("x squares particles", (N1[:, 0] ** 2 - 1) * (N1[:, 1] ** 2 - 1))
    mon.pool("x squares steps", (N1[1:] ** 2 - 1) * (N1[:-1] ** 2 - 1))
    if n_dim > 1:
        mon.pool("x dims", N1[..., 0] * N1[..., 1])
        mon.pool("x dims", N2[..., 0] * N2[..., -1])
        mon.pool("x dims first*second", N1[..., 0] * N2[..., 1])


def run_long(case, mon):
    """Very many normal numbers of one generator: none is used twice"""
    rng = np.random.default_rng(case["seed"])
    n, n_dim = case["n"], 3
    system = systems.make(rng, n_dim=3, coeffs=np.zeros((1, 1, 1)), ranges=[(-1.0, 1.0)] * 3)
    dt, friction, kt = 0.05, 20.0, 1.0
    c1 = np.exp(-0.5 * friction * dt)
    c2 = np.sqrt((1 - c1 * c1) * kt)
    ld = systems.bpld(system, dt, friction, kt, int(rng.integers(0, 10**6)))
    for _ in range(n):
        ld.add_particle(system.start(rng))
    steps = case["values"] // (2 * n * n_dim)
    N = np.empty((steps, 2, n, n_dim))
    pos = np.array([p.pos for p in ld.particles])
    mom = np.array([p.mom for p in ld.particles])
    for step in range(steps):
        ld.run(step + 1)
        new = np.array([p.pos for p in ld.particles])
        m2 = (new - pos) / dt
        N[step, 0] = (m2 - c1 * mom) / c2
        pos, mom = new, np.array([p.mom for p in ld.particles])
        N[step, 1] = (mom - c1 * m2) / c2
    mon.count("noisy particle steps", steps * n)
    mon.sig("long", n)
    core.check_no_repeats(mon, N, 1e-11, particles=n)
    mon.pool("n long", N)
    core.check_normal_sample(mon, N[:, 0], half=1, particles=n)
    core.check_normal_sample(mon, N[:, 1], half=2, particles=n)
    k = N.shape[0] // 8
    for j in range(8):
        mon.pool(f"n long {j}", N[j * k:(j + 1) * k])
    flat = N.reshape(-1)
    for lag in (1, 2, 3, 4, 5, 6, 7, 8, 16, 64, 256, 1000, 1024, 4096, 10000):
        mon.pool(f"x lag {lag}", flat[lag:] * flat[:-lag])


def run_fresh(case, mon):
    """First steps of particles that were just created, in every way, on used and unused lists"""
    rng = np.random.default_rng(case["seed"])
    for rep in range(6):
        n_dim = int(rng.integers(1, 4))
        system = systems.make(rng, n_dim=n_dim, coeffs=systems.confining(rng, n_dim), ranges=[(-4.0, 4.0)] * n_dim)
        dt, gdt, kt = 0.02, float(rng.choice([0.05, 0.5, 3.0])), float(rng.choice([0.4, 1.0]))
        c1 = np.exp(-0.5 * gdt)
        ld = systems.bpld(system, dt, gdt / dt, kt, int(rng.integers(0, 10**6)))
        for _ in range(20):
            ld.add_particle(system.start(rng, 0.3), float(rng.choice(MASSES)))
        for step in range(40):
            kind = str(rng.choice(["add", "overwrite", "insert"]))
            k = int(rng.integers(0, 20))
            pos, mass = system.start(rng, 0.3), float(rng.choice(MASSES))
            if kind == "overwrite":
                ld.add_particle(pos, mass, k, True)
            else:
                ld.remove_particle(k)
                if kind == "add":
                    ld.add_particle(pos, mass)
                    k = 19
                else:
                    ld.add_particle(pos, mass, k)
            new = ld.particles[k]
            before = systems.state(new)
            if step == 0:
                before = [systems.state(p) for p in ld.particles]
                todo = list(enumerate(ld.particles))
            else:
                before, todo = {k: before}, [(k, new)]
            ld.run(step + 1)
            for i, p in todo:
                c2 = np.sqrt((1 - c1 * c1) * before[i][2] * kt)
                n1, n2, _ = noise_of_step(system, before[i], p, dt, c1, c2, system.ref.force(before[i][0]))
                mon.count("first steps of new particles")
                mon.pool("n first step of a particle, first half", n1)
                mon.pool("n first step of a particle, second half", n2)
                mon.check(np.abs(np.r_[n1, n2]).min() > 1e-9, "noise is never absent", n1=n1, n2=n2, step=step, how=kind)
        mon.sig("fresh", n_dim, gdt, kt)


def run_same(case, mon):
    """The same random numbers with other parameters: their size has to follow the rule exactly"""
    rng = np.random.default_rng(case["seed"])
    n, steps = 4, 6
    n_dim = int(rng.integers(1, 4))
    system = systems.make(rng, n_dim=n_dim, coeffs=np.zeros((1,) * n_dim), ranges=[(-1.0, 1.0)] * n_dim)
    seed = int(rng.integers(0, 10**6))
    first = None
    for rep in range(60):
        gdt = 0.5 if rep == 0 else float(10 ** rng.uniform(-4, 1.7))
        dt = float(10 ** rng.uniform(-4, 0.5))
        kt = float(10 ** rng.uniform(-3, 3))
        masses = [float(10 ** rng.uniform(-2, 2)) for _ in range(n)]
        c1 = np.exp(-0.5 * gdt)
        ld = systems.bpld(system, dt, gdt / dt, kt, seed)
        for m in masses:
            ld.add_particle([0.0] * n_dim, m)
        N = np.empty((2, n, steps, n_dim))
        for step in range(steps):
            before = [systems.state(p) for p in ld.particles]
            ld.run(step + 1)
            for i, p in enumerate(ld.particles):
                c2 = np.sqrt(-np.expm1(-gdt) * masses[i] * kt)
                m2 = (p.pos - before[i][0]) * masses[i] / dt
                N[0, i, step] = (m2 - c1 * before[i][1]) / c2
                N[1, i, step] = (p.mom - c1 * m2) / c2
        if first is None:
            first = N
            continue
        mon.count("parameter sets compared with the same random numbers")
        mon.sig("same", n_dim, round(np.log10(gdt)), round(np.log10(dt)), round(np.log10(kt)))
        ratio = N / first
        for half in range(2):
            for i in range(n):
                r = ratio[half, i]
                # other random numbers would not be proportional to the first ones
                if not np.all(np.isfinite(r)) or np.ptp(r) > 1e-6 * abs(np.mean(r)):
                    mon.count("skipped: other random numbers")
                    continue
                mon.count("noise amplitudes compared")
                if not mon.check(abs(np.mean(r) - 1) < 1e-6, "amplitude of the noise follows friction, mass and temperature",
                                 factor=np.mean(r), half=half, friction=gdt / dt, dt=dt, kt=kt, mass=masses[i]):
                    return


def run_big(case, mon):
    """Ensembles of any size: every particle is moved by the rule"""
    rng = np.random.default_rng(case["seed"])
    system = systems.make(rng, n_dim=int(rng.integers(1, 3)), bc=str(rng.choice(["none", "reflective"])))
    dt, friction, n = 0.005, 2.0, case["n"]
    ld = systems.bpld(system, dt, friction, 1e-44, 1)
    c1 = np.exp(-0.5 * friction * dt)
    for _ in range(n):
        ld.add_particle(system.start(rng, 0.8), float(rng.choice(MASSES)))
    for p in ld.particles:
        p.mom[:] = rng.normal(size=system.n_dim)
    before = [systems.state(p) for p in ld.particles]
    ld.run(1)
    mon.sig("big", n, system.n_dim)
    mon.count("particles in large ensembles", n)
    for i in list(range(0, n, 1 + n // 6000)) + [n - 1]:
        pos, mom, mass = before[i][:3]
        raw, new, m, hit = ref_step(system, pos, mom, mass, c1, dt)
        p = ld.particles[i]
        mon.count("deterministic particle steps")
        if not mon.check(np.allclose(p.pos, new, rtol=1e-9, atol=1e-9) and np.allclose(p.mom, m, rtol=1e-7, atol=1e-7),
                         "every particle of a large ensemble makes the step", n=n, particle=i, got=(p.pos, p.mom), want=(new, m)):
            return


def run_list(case, mon):
    rng = np.random.default_rng(case["seed"])
    for rep in range(4):
        system = systems.make(rng, bc=str(rng.choice(["none", "reflective", "periodic"])),
                              kind="mb" if rng.random() < 0.2 else None)
        ld = systems.bpld(system, 0.002, float(rng.choice([1.0, 10.0])), 1.0,
                          int(rng.integers(10**6)))
        labels = systems.list_history(mon, rng, ld, system, 40)
        mon.sig("list", labels, system.n_dim)


def run_far(case, mon):
    """Positions, momenta and forces of any magnitude are moved like all others"""
    rng = np.random.default_rng(case["seed"])
    for rep in range(12):
        n_dim = int(rng.integers(1, 4))
        scale = float(10.0 ** rng.integers(2, 9))
        co = systems.confining(rng, n_dim) * scale ** float(rng.choice([-1.0, 0.0, 0.5]))
        system = systems.make(rng, n_dim, coeffs=co, ranges=[(-1.0, 1.0)] * n_dim)
        dt = float(rng.choice([1e-3, 0.01]))
        ld = systems.bpld(system, dt, 0.0, 1.0, int(rng.integers(10**6)))
        for k in range(5):
            ld.add_particle(rng.normal(size=n_dim) * scale, float(rng.choice(MASSES)))
            ld.particles[-1].mom[:] = rng.normal(size=n_dim) * 10.0 ** rng.integers(-3, 12)
        mon.sig("far", n_dim, scale, dt)
        for step in range(1, 4):
            before = [systems.state(p) for p in ld.particles]
            ld.run(step)
            for i, (p, (pos, mom, mass, _, _)) in enumerate(zip(ld.particles, before)):
                _, new, m, _ = ref_step(system, pos, mom, mass, 1.0, dt)
                f0, f1 = np.abs(system.ref.force(pos)), np.abs(system.ref.force(new))
                mon.count("far particle steps")
                mtol = 1e-9 * (np.abs(mom) + dt * (f0 + f1).max() + 1e-6)
                ptol = 1e-9 * (np.abs(pos) + np.abs(new)) + 10 * dt * mtol / mass + 1e-12
                mtol = mtol + 10 * dt * np.abs(co).max() * ptol.max()
                w = dict(step=step, particle=i, dt=dt, mass=mass, before=(pos, mom))
                if not (mon.check(np.all(np.abs(p.pos - new) <= ptol), "noise-free position update is velocity Verlet",
                                  got=p.pos, want=new, **w)
                        and mon.check(np.all(np.abs(p.mom - m) <= mtol), "noise-free momentum update is c1*(VV(c1*p))",
                                      got=p.mom, want=m, **w)):
                    return


def run_case(case, mon):
    dict(det=run_det, noise=run_noise, list=run_list, long=run_long, fresh=run_fresh, big=run_big,
         same=run_same, far=run_far)[case["mode"]](case, mon)


def finalize(mon, tier):
    core.check_normal_pools(mon, "n ")
    core.check_product_pools(mon, "x ")
