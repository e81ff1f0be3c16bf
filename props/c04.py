"""C04: potentials return the documented energy and its exact negative gradient"""
from fractions import Fraction

import numpy as np

from vlib import gen, ref, sim, systems

RULE = ("polynomials: one signature per (dimension, shape of the coefficients, set of non-zero "
        "coefficients, source); Mueller-Brown: per scaling factor and region of the position")
REQUIRED = {
    "polynomial evaluations": 10000,
    "coefficient files": 150,
    "Mueller-Brown evaluations": 3000,
    "finite difference comparisons": 1000,
    "reference surfaces": 100,
}
ASSUMPTIONS = [
    "the additive constant of the Mueller-Brown potential is not fixed by the documentation, "
    "only energy differences are compared",
]


def cases(tier, seed):
    mul = 1 if tier == "quick" else 15
    out = []
    for i in range(16 * mul):
        out.append(dict(mode="poly", seed=seed * 100109 + i))
    for i in range(12 * mul):
        out.append(dict(mode="file", seed=seed * 100129 + i))
    for i in range(8 * mul):
        out.append(dict(mode="mb", seed=seed * 100151 + i))
    return out


def random_coeffs(rng, n_dim=None):
    n_dim = n_dim or int(rng.choice([1, 2, 3]))
    hi = {1: 9, 2: 6, 3: 5}[n_dim]
    shape = tuple(int(x) for x in rng.integers(1, hi, size=n_dim))
    if rng.random() < 0.15:  # high orders
        shape = {1: (int(rng.integers(9, 31)),), 2: (int(rng.integers(2, 5)), int(rng.integers(8, 16))),
                 3: (int(rng.integers(1, 4)), int(rng.integers(5, 12)), int(rng.integers(1, 4)))}[n_dim]
        if rng.random() < 0.5:
            shape = shape[::-1]
    kind = int(rng.integers(4))
    if kind == 3:
        c = rng.normal(size=shape) * 10.0 ** rng.integers(-16, 3)
    elif kind == 0:
        c = np.round(rng.normal(size=shape), 3)
    elif kind == 1:
        c = rng.integers(-4, 5, size=shape).astype(float)
    else:
        c = rng.normal(size=shape) * 10.0 ** rng.integers(-5, 6, size=shape)
    c[rng.random(size=shape) < rng.choice([0, 0.5])] = 0.0
    return c


def random_pos(rng, n_dim):
    kind = int(rng.integers(5))
    if kind == 0:
        p = rng.normal(size=n_dim)
    elif kind == 1:
        p = rng.normal(size=n_dim) * 10.0 ** rng.integers(-6, 4, size=n_dim)
    elif kind == 2:
        p = rng.integers(-2, 3, size=n_dim).astype(float)
    elif kind == 3:
        p = np.zeros(n_dim)
        p[int(rng.integers(n_dim))] = rng.normal()
    else:
        p = rng.uniform(-3, 3, size=n_dim)
    return p


def check_eval(mon, pot, r, pos, rng, what, **w):
    arg = pos.tolist() if rng.random() < 0.3 else pos.copy()
    e, f = pot.energy(arg), pot.force(arg)
    e2, f2 = pot.evaluate(arg)
    mon.check(np.array_equal(np.asarray(arg), pos), "evaluation does not change the position")
    w = dict(pos=pos, what=what, **w)
    if not mon.check(np.shape(f) == (len(pos),) and np.shape(f2) == (len(pos),) and np.size(e) == 1,
                     "one energy and one force per dimension", shapes=(np.shape(e), np.shape(f)), **w):
        return False
    e, e2 = float(np.ravel(e)[0]), float(np.ravel(e2)[0])
    ae, ag = r.abs_energy(pos)
    ok = mon.check(abs(e - e2) <= 1e-12 * (ae + 100) and np.all(np.abs(f - f2) <= 1e-12 * (ag + 1e-12)),
                   "evaluate returns energy and force", energy=(e, e2), force=(f, f2), **w)
    return ok and (e, np.array(f, dtype=float))


def check_poly(mon, pot, r, pos, rng, what, **w):
    res = check_eval(mon, pot, r, pos, rng, what, **w)
    if not res:
        return False
    e, f = res
    ae, ag = r.abs_energy(pos)
    we = r.energy_exact(pos)
    wf = r.force_exact(pos)
    mon.count("polynomial evaluations")
    ok = mon.check(abs(Fraction(e) - we) <= 1e-13 * 4 * ae + 1e-290, "polynomial energy",
                   coeffs=r.c, pos=pos, got=e, want=float(we), what=what, **w)
    for d in range(len(pos)):
        ok &= mon.check(abs(Fraction(f[d]) - wf[d]) <= 1e-13 * 4 * ag[d] + 1e-290, "polynomial force",
                        coeffs=r.c, pos=pos, dim=d, got=f[d], want=float(wf[d]), what=what, **w)
    return ok


def check_reference(mon, pot, r, pts, rng):
    given = list(pts) if rng.random() < 0.5 else pts
    got = np.asarray(pot.calculate_reference(given), dtype=float)
    raw = np.array([r.energy(p) for p in pts])
    tol = 1e-12 * max(r.abs_energy(p)[0] for p in pts) + 1e-11
    mon.count("reference surfaces")
    mon.check(got.shape == raw.shape and np.all(np.abs(got - (raw - raw.min())) <= 4 * tol),
              "reference is the energy shifted to minimum zero", got=got, want=raw - raw.min())
    mon.check(got.min() == 0.0, "reference minimum is zero", minimum=got.min())
    shifted = np.asarray(pot.calculate_reference(given, False), dtype=float)
    mon.check(np.all(np.abs((shifted - shifted[0]) - (raw - raw[0])) <= 4 * tol),
              "unshifted reference has the same differences")
    single = np.array([float(pot.energy(p)) for p in pts])
    mon.check(np.all(np.abs(shifted - single) <= 4 * tol), "unshifted reference is the energy")


def run_poly(case, mon):
    rng = np.random.default_rng(case["seed"])
    from bdld.potential.polynomial import PolynomialPotential

    pots = []
    for rep in range(12):
        c = random_coeffs(rng)
        arg = c.tolist() if rng.random() < 0.5 else c.copy()
        pots.append((PolynomialPotential(arg, [(-1.0, 1.0)] * c.ndim), ref.RefPoly(c)))
        mon.sig("poly", c.shape, (c != 0).astype(int))
    for rep in range(12):  # interleaved, instances must not influence each other
        for pot, r in pots:
            for _ in range(6):
                pos = random_pos(rng, r.n_dim)
                if not check_poly(mon, pot, r, pos, rng, "direct"):
                    return
    for pot, r in pots:
        mon.check(pot.n_dim == r.n_dim, "dimension follows from coefficients")
        pts = rng.uniform(-2, 2, size=(int(rng.integers(1, 40)), r.n_dim))
        check_reference(mon, pot, r, pts, rng)
        for _ in range(5):  # gradient independent of any formula
            pos = rng.uniform(-1.5, 1.5, size=r.n_dim)
            f = pot.force(pos)
            ae, ag = r.abs_energy(np.abs(pos) + 0.1)
            for d in range(r.n_dim):
                h = 1e-4
                a, b = pos.copy(), pos.copy()
                a[d] += h
                b[d] -= h
                fd = -(float(pot.energy(a)) - float(pot.energy(b))) / (2 * h)
                mon.count("finite difference comparisons")
                mon.check(abs(fd - f[d]) <= 1e-5 * (ae + ag.max()) * 10 + 1e-9,
                          "force is the negative gradient", fd=fd, force=f[d], coeffs=r.c, pos=pos)
    mon.sample(dict(coeffs=r.c, pos=pos, force=f))


def write_file(rng, path, c):
    rows = [idx for idx in np.ndindex(*c.shape) if c[idx] != 0]
    if not rows or rng.random() < 0.3:
        extra = tuple(n - 1 for n in c.shape)
        if extra not in rows:
            rows.append(extra)
    order = rng.permutation(len(rows))
    if rng.random() < 0.2:
        order = np.arange(len(rows))
    ncol = int(rng.integers(0, 3))
    sep = str(rng.choice([" ", "   ", "\t"]))
    lines = []
    for n, k in enumerate(order):
        idx = rows[k]
        v = float(c[idx])
        txt = str(rng.choice([repr(v), f"{v:+.17e}", f"{v:.17e}"]))
        line = sep.join([str(i) for i in idx] + [txt] + [str(n), "s^1*1"][:ncol])
        if rng.random() < 0.5:
            line = "       " + line
        lines.append(line)
        if rng.random() < 0.15:
            lines.append("# a comment 1 2 3")
        if rng.random() < 0.1:
            lines.append("")
    head = ["#! FIELDS idx_dim1 idx_dim2 pot.coeffs index description", "#! SET ndimensions  2"]
    text = ""
    if rng.random() < 0.7:
        text += "\n".join(head) + "\n"
    text += "\n".join(lines) + "\n"
    if rng.random() < 0.5:
        text += "#!-------------------\n"
    with open(path, "w") as f:
        f.write(text)
    return text


def run_file(case, mon):
    rng = np.random.default_rng(case["seed"])
    from bdld import inputparser, main
    from bdld.potential import polynomial

    for rep in range(18):
        c = random_coeffs(rng)
        high = rep == 7
        if high:  # a single very high order
            c = np.zeros([1] * int(rng.integers(0, 3)) + [int(rng.integers(120, 400))])
            c[tuple([0] * (c.ndim - 1) + [-1])] = rng.normal()
        n_dim = c.ndim
        path = f"file{rep}.coeffs"
        text = write_file(rng, path, c)
        r = ref.RefPoly(c)
        via = str(rng.choice(["function", "input"]))
        ranges = [(-2.0 - d, 2.5 + d) for d in range(n_dim)]
        if via == "function":
            pot = polynomial.PolynomialPotential(polynomial.coefficients_from_file(path, n_dim), ranges)
        else:
            cfg = {"ld": {"type": "overdamped", "timestep": 0.01, "n_steps": 1},
                   "potential": {"type": "polynomial", "n_dim": n_dim, "coeffs-file": path,
                                 "min": [x[0] for x in ranges] if n_dim > 1 else ranges[0][0],
                                 "max": [x[1] for x in ranges] if n_dim > 1 else ranges[0][1]},
                   "particles": {"number": 1, "initial-distribution": "random-global"}}
            sim.write_input(cfg, "input")
            with systems.quiet():
                pot = main.setup_potential(inputparser.Input("input").potential)
        mon.count("coefficient files")
        mon.sig("file", via, c.shape, (c != 0).astype(int))
        if not mon.check(pot.n_dim == n_dim, "dimension of potential from file", file=text):
            return
        for _ in range(12):
            pos = rng.uniform(0.95, 1.02, size=n_dim) if high else random_pos(rng, n_dim)
            if not check_poly(mon, pot, r, pos, rng, "file", file=text):
                return


def run_mb(case, mon):
    rng = np.random.default_rng(case["seed"])
    from bdld import main
    from bdld.potential.mueller_brown import MuellerBrownPotential

    factors = [None, 1.0, 0.1, 0.05, 0.25, 2.5, 0.0, -0.7, 1e-3, 40.0, float(np.round(rng.uniform(0.01, 3), 3))]
    rng.shuffle(factors)
    pots = []
    for fac in factors:
        if rng.random() < 0.4:
            pot = main.setup_potential({"type": "mueller-brown", "scaling-factor": fac, "n_dim": 2,
                                        "boundary-condition": None})
        elif fac is None:
            pot = MuellerBrownPotential()
        else:
            pot = MuellerBrownPotential(fac)
        pots.append((fac, pot))
    zero = {}
    for rep in range(60):
        for fac, pot in pots:
            r = ref.detect_mb(pot, fac)
            if r.A[2] == -175.0:
                mon.finding("mueller-brown-third-amplitude", "amplitude -175 instead of -170")
            if rng.random() < 0.8:
                pos = np.array([rng.uniform(-1.6, 1.6), rng.uniform(-0.6, 2.6)])
            else:
                pos = rng.uniform(-4, 4, size=2)
            mon.sig("mb", fac, np.floor(pos * 2))
            res = check_eval(mon, pot, r, pos, rng, "mb", factor=fac)
            if not res:
                return
            e, f = res
            ae, ag = r.abs_energy(pos)
            mon.count("Mueller-Brown evaluations")
            if fac not in zero:
                zero[fac] = float(pot.energy(np.zeros(2))) - r.energy(np.zeros(2))
            ok = mon.check(abs(e - r.energy(pos) - zero[fac]) <= 1e-10 * (ae + 100),
                           "Mueller-Brown energy differences", factor=fac, pos=pos, got=e,
                           want=r.energy(pos) + zero[fac])
            ok &= mon.check(np.all(np.abs(f - r.force(pos)) <= 1e-10 * (ag + 1)),
                            "Mueller-Brown force", factor=fac, pos=pos, got=f, want=r.force(pos))
            h = 1e-5
            for d in range(2):
                a, b = pos.copy(), pos.copy()
                a[d] += h
                b[d] -= h
                fd = -(float(pot.energy(a)) - float(pot.energy(b))) / (2 * h)
                mon.count("finite difference comparisons")
                ok &= mon.check(abs(fd - f[d]) <= 1e-4 * (ag.max() + ae + 10), "force is the negative gradient",
                                fd=fd, force=f, pos=pos)
            if not ok:
                return
    for fac, pot in pots:
        r = ref.detect_mb(pot, fac)
        pts = np.c_[rng.uniform(-1.5, 1.5, size=30), rng.uniform(-0.5, 2.5, size=30)]
        check_reference(mon, pot, r, pts, rng)
        mon.check(list(map(tuple, pot.ranges)) == [(-1.5, 1.5), (-0.5, 2.5)], "documented range")
    mon.sample(dict(factor=fac, pos=pos, energy=e, force=f))


def run_case(case, mon):
    dict(poly=run_poly, file=run_file, mb=run_mb)[case["mode"]](case, mon)
