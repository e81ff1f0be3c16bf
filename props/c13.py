"""C13: free energy differences are correct and written exactly once"""
import itertools

import numpy as np

from props import c10
from vlib import gen, outputs, ref, sim

RULE = "one signature per (n_steps, stride, write-stride, fes stride, states, dimension)"
REQUIRED = {
    "program runs": 400,
    "delta F files": 400,
    "delta F lines": 2500,
    "finite delta F values": 2000,
    "runs in 2d": 30,
    "runs in 3d": 15,
    "runs of more than 65536 steps": 1,
    "runs with more than nine states": 10,
    "direct differences": 300,
    "runs with borders on bin midpoints": 80,
}
ASSUMPTIONS = [
    "bins whose midpoint coincides with a border of a state only up to rounding are not judged "
    "(exact coincidence is)",
]
GRID = list(itertools.product((1, 2, 5, 6, 7, 12, 13), (None, 1, 2, 3, 4, 5, 7), (1, 2, 3, 4, 6), (1, 2, 3)))


def cases(tier, seed):
    rng = np.random.default_rng(seed)
    idx = rng.permutation(len(GRID))
    n = 360 if tier == "quick" else len(GRID)
    combos = [GRID[i] for i in idx[:n]]
    out = [dict(mode="enum", combos=combos[i:i + 40], seed=seed * 100447 + i) for i in range(0, n, 40)]
    m = 40 if tier == "quick" else 500
    out += [dict(mode="random", seed=seed * 100459 + i) for i in range(m)]
    out.append(dict(mode="long", seed=seed * 100447 - 1))
    out += [dict(mode="direct", seed=seed * 100469 + i) for i in range(6 if tier == "quick" else 80)]
    return out


def run_one(mon, cfg, n_dim, exact=False):
    with sim.fresh_dir():
        if n_dim > 1 and "coeffs-file" in cfg["potential"]:
            gen.write_coeffs("pot.coeffs", gen.WOLFE_QUAPP if n_dim == 2 else gen.coeffs3d())
        res = sim.must_run(mon, cfg)
        if res is None:
            return None
        mon.count("program runs")
        if n_dim > 1:
            mon.count(f"runs in {n_dim}d")
        if exact:
            mon.count("runs with borders on bin midpoints")
        outputs.check_delta_f(mon, cfg, res.rec, n_dim, exact=exact)
        sec = cfg["delta-f"]
        if len(outputs.state_list(sec)) > 9:
            mon.count("runs with more than nine states")
        mon.sig(cfg["ld"]["n_steps"], sec.get("stride"), sec.get("write-stride"), cfg["fes"].get("stride"),
                len(outputs.state_list(sec)), n_dim)
        return res


def run_direct(rng, mon):
    from bdld.actions.delta_f_action import calculate_delta_f
    from bdld.tools import pos_inside_ranges

    for rep in range(60):
        d = int(rng.choice([1, 2, 3]))
        rr, nb = outputs.dyadic_ranges(rng, d)
        f = rng.uniform(0, 12, size=nb)
        if rng.random() < 0.6:
            f[rng.random(nb) < 0.4] = np.inf
        k = int(rng.integers(2, 6))
        sec = outputs.states(rng, rr, k, (rr, nb))
        pts = ref.midpoints(rr, nb)
        regions = [[(float(a), float(b)) for a, b in zip(lo, hi)] for lo, hi in outputs.state_list(sec)]
        masks = pos_inside_ranges(pts, regions)
        want_masks, _ = outputs.region_masks(sec, rr, nb, True)
        kt = float(rng.choice([0.1, 1.0, 2.5]))
        w = dict(n_dim=d, bins=nb, kt=kt, states=regions)
        ok = mon.check(len(masks) == k and all(np.array_equal(np.ravel(a), b) for a, b in zip(masks, want_masks)),
                       "states are closed rectangular regions", **w)
        f0 = f.copy()
        with np.errstate(all="ignore"):
            got = np.array(calculate_delta_f(f, kt, [np.array(m) for m in want_masks]), dtype=float)
        mon.count("direct differences", k - 1)
        ok &= mon.close(got, outputs.delta_f(f0, kt, want_masks), "differences from summed Boltzmann weights",
                        rtol=1e-9, atol=1e-9, **w)
        ok &= mon.check(np.array_equal(f, f0), "the surface is not modified", **w)
        mon.sig("direct", d, k, tuple(nb))
        if not ok:
            return


def run_case(case, mon):
    rng = np.random.default_rng(case["seed"])
    if case["mode"] == "direct":
        return run_direct(rng, mon)
    if case["mode"] == "long":
        run_one(mon, outputs.long_config(rng, ["trajectories", "histogram", "fes", "delta-f"]), 1, exact=True)
        mon.count("runs of more than 65536 steps")
        return
    if case["mode"] == "enum":
        for n_steps, stride, mult, fes_stride in case["combos"]:
            W = int(outputs.pick(rng, [1, 1, 2, 3]))
            cfg = c10.enum_config(rng, n_steps, 1, W, int(rng.integers(2, 5)))
            del cfg["trajectories"]["filename"]
            cfg["histogram"] = {"min": -2.0, "max": 2.0, "bins": int(outputs.pick(rng, [4, 8, 16]))}
            cfg["fes"] = {"kt": float(np.round(rng.uniform(0.3, 3), 2)), "stride": fes_stride}
            if rng.random() < 0.2:
                del cfg["fes"]["stride"]
            cfg["delta-f"] = {**outputs.states(rng, None, outputs.n_states(rng, 2, 5), ([(-2.0, 2.0)], [8])),
                              "filename": "df"}
            if stride:
                cfg["delta-f"]["stride"] = stride
                if rng.random() < 0.8:
                    cfg["delta-f"]["write-stride"] = stride * mult
            run_one(mon, cfg, 1, exact=True)
            if mon.n_violations:
                return
        return
    for rep in range(4):
        n_steps = int(outputs.pick(rng, [1, 30, 99, 100, 101, 150, 201, int(rng.integers(1, 220))]))
        with sim.fresh_dir():
            cfg, n_dim, ranges = gen.base_config(rng, n_steps, number=int(rng.integers(4, 12)))
        if rng.random() < 0.25:
            cfg["ld"]["timestep"] = float(outputs.pick(rng, [0.00123457, 1.7e-5, 3.1e-6]))
        exact = bool(rng.random() < 0.5)
        cfg["trajectories"] = outputs.traj_section(rng, None)
        cfg["trajectories"]["write-stride"] = int(outputs.pick(rng, [1, 2, 5, 10]))
        cfg["histogram"] = outputs.histo_section(rng, n_dim, ranges, n_steps, None, dyadic=exact, reset=False)
        cfg["fes"] = outputs.fes_section(rng, "fe" if rng.random() < 0.3 else None)
        if "stride" in cfg["fes"] or rng.random() < 0.8:
            cfg["fes"]["stride"] = cfg["trajectories"]["write-stride"]
            cfg["fes"].pop("write-stride", None)
        grid = outputs.grid_of(cfg["histogram"])
        cfg["delta-f"] = outputs.strided(
            rng, outputs.states(rng, grid[0], outputs.n_states(rng, 2, 5), grid if exact else None), "df")
        res = run_one(mon, cfg, n_dim, exact)
        if res is None or mon.n_violations:
            return
    mon.sample(dict(delta_f=cfg["delta-f"], n_steps=n_steps, n_dim=n_dim))
