"""Random but legal simulation inputs"""
import numpy as np


def poly1d(rng):
    kind = rng.integers(5)
    if kind == 0:
        return [0.0, 0.2, -4.0, 0.0, 1.0], -2.5, 2.5
    if kind == 1:
        return [0.0, 0.0, float(rng.uniform(0.5, 3))], -3.0, 3.5
    if kind == 2:
        return [float(x) for x in np.round(rng.normal(size=rng.integers(2, 6)), 3)] + [0.5 if True else 0], -1.5, 2.0
    if kind == 3:
        return [0.0, float(np.round(rng.normal(), 3))], 0.0, 4.0
    return [1.0, -0.3, -1.0, 0.1, 0.6, 0.0, 0.05], -2.25, 2.75


def write_coeffs(path, coeffs, rng=None, extra=True):
    c = np.array(coeffs, dtype=float)
    rows = []
    for idx in np.ndindex(*c.shape):
        if c[idx] != 0 or all(i == n - 1 for i, n in zip(idx, c.shape)) or rng is None:
            rows.append((idx, c[idx]))
    if rng is not None:
        rng.shuffle(rows)
    with open(path, "w") as f:
        f.write("#! FIELDS idx_dim1 idx_dim2 pot.coeffs index description\n#! SET type LinearBasisSet\n")
        for n, (idx, val) in enumerate(rows):
            line = "  ".join(str(i) for i in idx) + f"   {val!r}"
            if extra:
                line += f"   {n}  s^1*1"
            f.write(line + "\n")
        f.write("#!-------------------\n")


WOLFE_QUAPP = [
    [0.0, 0.1, -4.0, 0.0, 1.0],
    [0.3, 1.0, 0.0, 0.0, 0.0],
    [-2.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0],
    [1.0, 0.0, 0.0, 0.0, 0.0],
]


def coeffs3d():
    c = np.zeros((3, 2, 4))
    c[2, 0, 0] = 1.0
    c[0, 1, 0] = 0.25
    c[1, 1, 1] = 0.1
    c[0, 0, 2] = 0.8
    c[0, 0, 3] = 0.05
    return c


def potential_section(rng, n_dim=None, bc=None, kind=None):
    """Potential section, writes a coefficient file to the current directory if needed

    :return (section dict, n_dim, ranges)
    """
    if n_dim is None:
        n_dim = int(rng.choice([1, 1, 1, 2, 2, 3]))
    if n_dim == 1:
        c, lo, hi = poly1d(rng)
        sec = {"type": "polynomial", "n_dim": 1, "coeffs": c, "min": lo, "max": hi}
        ranges = [(lo, hi)]
    elif n_dim == 2 and bc != "none" and (
        kind == "mueller-brown" or (kind is None and rng.random() < 0.4)
    ):
        # its walls are so steep that walkers outside the range would fly off
        bc = bc or str(rng.choice(["reflective", "periodic"]))
        sec = {"type": "mueller-brown"}
        if rng.random() < 0.8:
            sec["scaling-factor"] = float(rng.choice([0.1, 0.25, 0.05]))
        else:
            sec["scaling-factor"] = None
        ranges = [(-1.5, 1.5), (-0.5, 2.5)]
    else:
        coeffs = WOLFE_QUAPP if n_dim == 2 else coeffs3d()
        write_coeffs("pot.coeffs", coeffs, rng)
        ranges = [(-2.5, 2.5), (-2.0, 2.25), (-1.0, 1.5)][:n_dim]
        if rng.random() < 0.4:  # neither bounds nor widths in order
            ranges = [(-2.0, 1.75), (-2.5, 2.5)] if n_dim == 2 else [(-1.75, 1.5), (-2.5, 2.5), (-2.0, 1.25)]
        sec = {"type": "polynomial", "n_dim": n_dim, "coeffs-file": "pot.coeffs",
               "min": [r[0] for r in ranges], "max": [r[1] for r in ranges]}
    if bc is None:
        bc = rng.choice(["none", "none", "reflective", "periodic"])
    if bc != "none":
        sec["boundary-condition"] = str(bc)
    return sec, n_dim, ranges


def ld_section(rng, n_steps, ld_type=None, seed=None, dt=None):
    t = ld_type or str(rng.choice(["bussi-parinello", "bussi-parinello", "overdamped"]))
    sec = {"type": t, "timestep": dt or float(rng.choice([0.001, 0.005, 0.002, 0.0025])),
           "n_steps": int(n_steps), "seed": int(rng.integers(0, 10**6)) if seed is None else seed}
    if t == "bussi-parinello":
        sec["kt"] = float(np.round(rng.uniform(0.3, 2.0), 3))
        sec["friction"] = float(rng.choice([0.5, 1.0, 5.0, 10.0, 30.0]))
    return sec


def particles_section(rng, ranges, number=None):
    if number is None:
        number = rng.integers(2, 9) if rng.random() < 0.92 else rng.choice([10, 11, 13, 25, 64, 101])
    n = int(number)
    sec = {"number": n, "mass": float(rng.choice([1.0, 1.0, 0.5, 2.75])), "seed": int(rng.integers(0, 10**6))}
    kind = str(rng.choice(["random-global", "random-pos", "fractions-pos"]))
    sec["initial-distribution"] = kind
    if kind != "random-global":
        k = int(rng.integers(1, 4)) if rng.random() < 0.93 else int(rng.integers(10, 13))
        for i in range(k):
            sec[f"pos{i+1}"] = [float(np.round(rng.uniform(lo, hi), 2)) for lo, hi in ranges]
        if kind == "fractions-pos":
            sec["fractions"] = [float(x) for x in rng.integers(1, 5, size=k)]
    return sec


def bd_section(rng, n_dim, ranges, stride=None, variant="original", recalc=None):
    bw = [float(np.round(rng.uniform(0.1, 0.6), 2)) for _ in range(n_dim)]
    sec = {"stride": int(stride or rng.integers(1, 8)),
           "kernel-bandwidth": bw[0] if n_dim == 1 else bw,
           "seed": int(rng.integers(0, 10**6)),
           "exponential-factor": float(rng.choice([1.0, 10.0, 100.0, 1000.0]))}
    if recalc is None:
        recalc = bool(rng.random() < 0.4)
    if recalc or rng.random() < 0.3:
        sec["recalculate-probabilities"] = recalc
    if variant:
        sec["approximation-variant"] = variant
    return sec


def base_config(rng, n_steps, n_dim=None, bd=None, ld_type=None, number=None, bc=None, kind=None):
    pot, n_dim, ranges = potential_section(rng, n_dim, bc, kind)
    cfg = {"ld": ld_section(rng, n_steps, ld_type)}
    cfg["potential"] = pot
    cfg["particles"] = particles_section(rng, ranges, number)
    if bd is None:
        bd = rng.random() < 0.6
    if bd:
        variant = "original"
        if n_dim == 1 and rng.random() < 0.4:
            variant = str(rng.choice(["additive", "multiplicative", "add", "mult", "orig"]))
        cfg["birth-death"] = bd_section(rng, n_dim, ranges, variant=variant)
    return cfg, n_dim, ranges


def states_options(rng, ranges, n_states, grid_aligned=None):
    opts = {}
    for i in range(n_states):
        lo, hi = [], []
        for a, b in ranges:
            x, y = sorted(rng.uniform(a, b, size=2))
            if rng.random() < 0.3:
                x = a
            if rng.random() < 0.3:
                y = b
            lo.append(float(np.round(x, 3)))
            hi.append(float(np.round(y, 3)))
        opts[f"state{i+1}-min"] = lo
        opts[f"state{i+1}-max"] = hi
    return opts


def ref_potential(cfg):
    """Reference of the potential section made by potential_section"""
    from vlib import ref

    n = cfg["potential"].get("n_dim")
    return ref.from_config(cfg["potential"], WOLFE_QUAPP if n == 2 else coeffs3d())
