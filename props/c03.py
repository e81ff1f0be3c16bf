"""C03: boundary conditions confine particles exactly as documented"""
import numpy as np

from props import c01, c02
from vlib import gen, sim, systems

RULE = ("direct calls: one signature per (condition, dimensions, per dimension: inside / on a "
        "boundary / ulp outside / up to one range outside / many ranges outside, side); "
        "dynamics: per (integrator, condition, dimension, potential)")
REQUIRED = {
    "direct applications": 20000,
    "coordinates outside in direct calls": 8000,
    "coordinates on a boundary in direct calls": 1000,
    "particle steps in dynamics": 20000,
    "wall contacts in dynamics": 500,
    "deterministic particle steps": 5000,
    "boundary hits": 200,
    "program runs with boundary condition": 20,
}
ASSUMPTIONS = ["coordinates up to 1e6 times the range away from it",
               "images under periodic wrapping may exceed the range by rounding (4 ulp)"]


def cases(tier, seed):
    mul = 1 if tier == "quick" else 12
    out = []
    for i in range(16 * mul):
        out.append(dict(mode="direct", seed=seed * 100043 + i))
    for i in range(16 * mul):
        out.append(dict(mode="dynamics", seed=seed * 100057 + i))
    for i, bc in enumerate(("none", "reflective", "periodic") * (3 * mul)):
        out.append(dict(mode="exact", bc=bc, seed=seed * 100103 + i))
    for i in range(8 * mul):
        out.append(dict(mode="main", seed=seed * 100069 + i))
    return out


def hostile(rng, lo, hi):
    L = hi - lo
    kind = int(rng.integers(8))
    side = 1 if rng.random() < 0.5 else -1
    edge = hi if side > 0 else lo
    if kind == 0:
        return edge, "edge"
    if kind == 1:
        return float(np.nextafter(edge, side * np.inf)), "ulp out"
    if kind == 2:
        return float(np.nextafter(edge, -side * np.inf)), "ulp in"
    if kind == 3:
        return edge + side * L * rng.random(), "near"
    if kind == 4:
        return edge + side * L * float(rng.integers(0, 5)), "whole ranges"
    if kind == 5:
        return edge + side * L * 10.0 ** rng.uniform(0, 6), "far"
    if kind == 6:
        return float(edge + side * L * 10.0 ** rng.uniform(-14, -1)), "tiny out"
    return float(rng.uniform(lo, hi)), "inside"


def in_range(x, lo, hi, bc):
    """Inside the closed range; an image under periodic wrapping is only defined up to rounding"""
    tol = 4 * np.spacing(max(abs(lo), abs(hi))) if bc == "periodic" else 0.0
    return lo - tol <= x <= hi + tol


def judge(mon, bc, ranges, x0, m0, x1, m1, **w):
    """Compare one application of the boundary condition with its documentation"""
    w = dict(bc=bc, ranges=ranges, pos=x0, mom=m0, new_pos=x1, new_mom=m1, **w)
    for i, (lo, hi) in enumerate(ranges):
        out = not lo <= x0[i] <= hi
        if bc == "none" or not out:
            mon.check(x1[i] == x0[i], "coordinate inside (or without condition) is untouched", dim=i, **w)
            mon.check(m1[i] == m0[i], "momentum of untouched coordinate is untouched", dim=i, **w)
            continue
        mon.check(in_range(x1[i], lo, hi, bc), "position is inside the closed range", dim=i, **w)
        if bc == "reflective":
            mon.check(x1[i] == (lo if x0[i] < lo else hi), "reflected to the crossed boundary", dim=i, **w)
            mon.check(m1[i] == -m0[i], "reflected momentum is reversed", dim=i, **w)
        else:
            L = hi - lo
            k = (x0[i] - x1[i]) / L
            tol = 8 * np.spacing(max(abs(x0[i]), abs(lo), abs(hi))) * (1 + abs(k)) / L
            mon.check(abs(k - round(k)) <= tol and (round(k) != 0 or abs(k) <= tol),
                      "periodic image differs by whole ranges", dim=i, k=k, tol=tol, **w)
            mon.check(m1[i] == m0[i], "periodic condition keeps momenta", dim=i, **w)


def run_direct(case, mon):
    rng = np.random.default_rng(case["seed"])
    for rep in range(40):
        n_dim = int(rng.choice([1, 2, 3]))
        bc = str(rng.choice(["reflective", "periodic", "periodic", "none"]))
        ranges = []
        for _ in range(n_dim):
            lo = float(np.round(rng.normal() * 3, int(rng.integers(0, 4))))
            ranges.append((lo, float(lo + np.round(10.0 ** rng.uniform(-1, 2), 2) + 0.01)))
        coeffs = np.zeros((2,) * n_dim)
        system = systems.make(rng, n_dim=n_dim, bc="none", coeffs=coeffs, ranges=ranges)
        if rng.random() < 0.3:  # switching the condition must take effect
            systems.set_bc(system.pot, str(rng.choice(["reflective", "periodic"])))
            if bc == "none":
                system.pot.boundary_condition = None
        systems.set_bc(system.pot, bc)
        for _ in range(50):
            x, kinds = zip(*(hostile(rng, lo, hi) for lo, hi in ranges))
            x0 = np.array(x)
            m0 = rng.normal(size=n_dim) * 10.0 ** rng.integers(-3, 4)
            if rng.random() < 0.1:
                m0[int(rng.integers(n_dim))] = 0.0
            x1, m1 = x0.copy(), m0.copy()
            system.pot.apply_boundary_condition(x1, m1)
            mon.count("direct applications")
            for v, (lo, hi), k in zip(x0, ranges, kinds):
                mon.count("coordinates outside in direct calls", not lo <= v <= hi)
                mon.count("coordinates on a boundary in direct calls", v in (lo, hi))
            mon.sig("direct", bc, kinds, [bool(v > lo) for v, (lo, _) in zip(x0, ranges)])
            judge(mon, bc, ranges, x0, m0, x1, m1, kinds=kinds)
    mon.sample(dict(bc=bc, ranges=ranges, pos=x0, new_pos=x1))


def run_dynamics(case, mon):
    rng = np.random.default_rng(case["seed"])
    for rep in range(10):
        bc = str(rng.choice(["reflective", "periodic"]))
        kind = "mb" if rng.random() < 0.2 else None
        system = systems.make(rng, bc=bc, kind=kind)
        integ = str(rng.choice(["bpld", "overdamped"]))
        if integ == "bpld":
            dt = float(rng.choice([0.005, 0.05, 0.5]))
            kt = float(rng.choice([1.0, 30.0, 1e4]))
            ld = systems.bpld(system, dt, float(rng.choice([0.1, 2.0, 30.0])), kt,
                              int(rng.integers(10**6)))
        else:
            dt = float(rng.choice([0.005, 0.1, 2.0]))
            kt = 1.0
            ld = systems.overdamped(system, dt, int(rng.integers(10**6)))
        for _ in range(4):
            ld.add_particle(system.start(rng, 1.0), float(rng.choice([0.3, 1.0, 4.0])))
        # record what the boundary condition is given and makes of it, if it is called here
        orig = system.pot.apply_boundary_condition
        log = []

        def spy(pos, mom, *a, **k):
            b = (np.array(pos), np.array(mom))
            r = orig(pos, mom, *a, **k)
            log.append((b, (np.array(pos), np.array(mom))))
            return r

        system.pot.apply_boundary_condition = spy
        mon.sig("dyn", integ, bc, system.n_dim, kind, dt, kt)
        for step in range(1, 81):
            del log[:]
            ld.run(step)
            for i, p in enumerate(ld.particles):
                mon.count("particle steps in dynamics")
                for x, (lo, hi) in zip(p.pos, system.ranges):
                    if not mon.check(in_range(x, lo, hi, bc), "walker is inside the closed range after the step",
                                     x=x, range=(lo, hi), integrator=integ, bc=bc, dt=dt, step=step):
                        return
                    mon.count("wall contacts in dynamics", x in (lo, hi))
            for (x0, m0), (x1, m1) in log:
                if np.all(np.isfinite(x0)):
                    mon.count("wall contacts in dynamics", int(np.sum(x0 != x1)))
                    if np.abs(x0).max() < 1e7:
                        judge(mon, bc, system.ranges, x0, m0, x1, m1, integrator=integ)


def run_main(case, mon):
    rng = np.random.default_rng(case["seed"])
    for rep in range(4):
        bc = str(rng.choice(["reflective", "periodic"]))
        cfg, n_dim, ranges = gen.base_config(rng, 40, bc=bc)
        cfg["ld"]["timestep"] = float(rng.choice([0.01, 0.05, 0.2]))
        if "kt" in cfg["ld"]:
            cfg["ld"]["kt"] = float(rng.choice([2.0, 20.0]))
        if "birth-death" in cfg:
            cfg["birth-death"]["approximation-variant"] = "original"
        res = sim.must_run(mon, cfg)
        if res is None:
            return
        mon.count("program runs with boundary condition")
        mon.sig("main", n_dim, bc, cfg["ld"]["type"], cfg["potential"]["type"], "birth-death" in cfg)
        for k, snap in enumerate(res.rec.end_of_step + res.rec.after_ld):
            for (lo, hi), x in zip(ranges, snap.pos.T):
                mon.check(all(in_range(v, lo, hi, bc) for v in np.ravel(x)), "walkers of a program run stay inside",
                          step=k, x=x, range=(lo, hi), input=sim.input_text(cfg))
            mon.count("wall contacts in dynamics",
                      sum(int(np.sum((x == lo) | (x == hi))) for (lo, hi), x in zip(ranges, snap.pos.T)))


def run_exact(case, mon):
    """Noise-free steps of both integrators, the whole step is predicted exactly"""
    c01.run_det(case, mon)
    c02.run_drift(case, mon)


def run_case(case, mon):
    dict(exact=run_exact, direct=run_direct, dynamics=run_dynamics, main=run_main)[case["mode"]](case, mon)
