"""Potentials and integrators of the code under test next to their references"""
import contextlib
import io

import numpy as np

from vlib import gen, ref


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


class System:
    def __init__(self, pot, refpot, ranges, bc):
        self.pot, self.ref, self.ranges, self.bc = pot, refpot, ranges, bc
        self.n_dim = len(ranges)

    def start(self, rng, spread=1.0):
        return np.array([
            0.5 * (lo + hi) + spread * (rng.random() - 0.5) * (hi - lo) for lo, hi in self.ranges
        ])


def set_bc(pot, bc):
    from bdld.potential.potential import BoundaryCondition

    if bc == "reflective":
        pot.boundary_condition = BoundaryCondition.reflective
    elif bc == "periodic":
        pot.boundary_condition = BoundaryCondition.periodic


def make(rng, n_dim=None, bc="none", kind=None, coeffs=None, ranges=None):
    """Random potential object with boundary condition and its reference"""
    from bdld.potential.mueller_brown import MuellerBrownPotential
    from bdld.potential.polynomial import PolynomialPotential

    if n_dim is None:
        n_dim = int(rng.choice([1, 1, 2, 2, 3]))
    if kind == "mb":
        fac = float(rng.choice([0.05, 0.1, 0.3, 1.0]))
        pot = MuellerBrownPotential(fac)
        r = ref.detect_mb(pot, fac)
        rr = [(-1.5, 1.5), (-0.5, 2.5)]
    else:
        if coeffs is None:
            if n_dim == 1:
                coeffs, lo, hi = gen.poly1d(rng)
                rr = [(lo, hi)]
            else:
                coeffs = gen.WOLFE_QUAPP if n_dim == 2 else gen.coeffs3d()
                rr = [(-2.5, 2.5), (-2.0, 2.25), (-1.0, 1.5)][:n_dim]
        rr = ranges or rr
        pot = PolynomialPotential(np.array(coeffs, dtype=float), list(rr))
        r = ref.RefPoly(coeffs)
    set_bc(pot, bc)
    return System(pot, r, rr, bc)


def confining(rng, n_dim, k=1.0):
    """Harmonic coefficients so that long runs stay bounded"""
    shape = (3,) * n_dim
    c = np.zeros(shape)
    for d in range(n_dim):
        idx = [0] * n_dim
        idx[d] = 2
        c[tuple(idx)] = 0.5 * k * (1 + 0.3 * d)
        idx[d] = 1
        c[tuple(idx)] = 0.2 * d - 0.1
    return c


def bpld(system, dt, friction, kt, seed):
    from bdld.actions.bussi_parinello_ld import BussiParinelloLD

    with quiet():
        return BussiParinelloLD(system.pot, dt, friction, kt, seed)


def overdamped(system, dt, seed):
    from bdld.actions.overdamped_ld import OverdampedLD

    with quiet():
        return OverdampedLD(system.pot, dt, seed)


def state(p):
    return (np.array(p.pos, dtype=float), np.array(p.mom, dtype=float), float(p.mass),
            float(p.energy), np.array(p.forces, dtype=float).ravel())


def list_history(mon, rng, ld, system, n_ops, masses=(1.0, 0.5, 3.0)):
    """Random add/insert/overwrite/remove history against a list model

    :return labels of the particles in the final list
    """
    model = [state(p) for p in ld.particles]
    labels = ["initial"] * len(model)

    def same(a, b):
        return all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))

    for k in range(n_ops):
        n = len(model)
        op = str(rng.choice(["add", "add", "insert", "overwrite", "remove", "bad"]))
        if n == 0 and op in ("overwrite", "remove", "insert"):
            op = "add"
        pos = system.start(rng)
        if n and rng.random() < 0.3:  # several particles at the same place
            other = np.array(ld.particles[int(rng.integers(n))].pos, dtype=float)
            if np.all(np.abs(other) < 20):
                pos = other
        given = [pos.tolist(), pos.copy()][int(rng.integers(2))]
        mass = float(rng.choice(masses))
        if op == "bad":
            try:
                ld.add_particle(np.append(pos, 0.0), mass)
                mon.check(False, "particle of wrong dimension is refused")
            except ValueError:
                mon.check(True, "particle of wrong dimension is refused")
            where = None
        elif op == "add":
            if mass == 1.0 and rng.random() < 0.5:
                ld.add_particle(given)
            else:
                ld.add_particle(given, mass)
            model.append(None)
            labels.append("add")
            where = n
        elif op == "insert":
            where = int(rng.integers(0, n + 1))
            ld.add_particle(given, mass, where)
            model.insert(where, None)
            labels.insert(where, "insert")
        elif op == "overwrite":
            if rng.random() < 0.3:
                where = n - 1
                ld.add_particle(given, mass, overwrite=True)
            else:
                where = int(rng.integers(0, n))
                ld.add_particle(given, mass, where - n if rng.random() < 0.2 else where, True)
            model[where] = None
            labels[where] = "overwrite"
        else:
            where = int(rng.integers(0, n))
            ld.remove_particle(where - n if rng.random() < 0.2 else where)
            del model[where]
            del labels[where]
        mon.count(f"list op {op}")
        now = [state(p) for p in ld.particles]
        if not mon.check(len(now) == len(model), "particle list has the right length",
                         op=op, got=len(now), want=len(model)):
            return None
        for i, (a, b) in enumerate(zip(now, model)):
            if b is None:
                ok = (
                    np.array_equal(a[0], pos) and not a[1].any() and a[1].shape == pos.shape
                    and a[2] == mass
                )
                mon.check(ok, "new particle rests at the given position with its mass",
                          op=op, where=where, got=a[:3], want=(pos, mass))
                e, g = system.ref.energy(pos), system.ref.force(pos)
                ae, ag = system.ref.abs_energy(pos)
                off = 0.0
                if hasattr(system.ref, "factor"):
                    off = float(system.pot.energy(pos)) - e
                mon.check(abs(a[3] - e - off) <= 1e-9 * (ae + abs(off) + 1e-9),
                          "new particle has the energy of its position", got=a[3], want=e)
                mon.check(np.all(np.abs(a[4] - g) <= 1e-9 * (ag + 1e-9)),
                          "new particle has the forces of its position", got=a[4], want=g)
                model[i] = a
            else:
                mon.check(same(a, b), "other entries of the particle list are untouched",
                          op=op, where=where, index=i, got=a, want=b)
        if op != "bad" and op != "remove" and isinstance(given, np.ndarray):
            given += 100.0  # the caller's array must not be the particle's position
            mon.check(np.array_equal(ld.particles[where].pos, pos),
                      "particle does not alias the caller's array", op=op)
        if rng.random() < 0.3:
            ld.run(k + 1)
            model = [state(p) for p in ld.particles]
    return labels
