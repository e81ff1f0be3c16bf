"""C12: the free energy surface is -kT ln(counts), aligned to zero"""
import itertools

import numpy as np

from props import c10
from vlib import gen, outputs, sim, systems

RULE = "one signature per (n_steps, stride, write-stride, trajectory write-stride, kT, dimension, number of empty bins)"
REQUIRED = {
    "program runs": 400,
    "surfaces calculated": 3000,
    "surface files": 800,
    "empty bins": 5000,
    "direct surfaces": 300,
    "surfaces of empty histograms": 20,
    "runs in 2d": 15,
    "runs in 3d": 5,
    "runs of more than 65536 steps": 1,
}
ASSUMPTIONS = []
GRID = list(itertools.product((1, 2, 5, 6, 7, 12, 13), (None, 1, 2, 3, 4, 5, 7), (None, 1, 2, 3, 4, 6, 8),
                              (1, 2, 3, 5, 20)))


def cases(tier, seed):
    rng = np.random.default_rng(seed)
    combos = [c for c in GRID if c[1] is not None or c[2] is None]
    idx = rng.permutation(len(combos))
    n = 400 if tier == "quick" else len(combos)
    combos = [combos[i] for i in idx[:n]]
    out = [dict(mode="enum", combos=combos[i:i + 40], seed=seed * 100403 + i) for i in range(0, n, 40)]
    m = 24 if tier == "quick" else 400
    out += [dict(mode="random", seed=seed * 100411 + i) for i in range(m)]
    out.append(dict(mode="long", seed=seed * 100403 - 1))
    out += [dict(mode="direct", seed=seed * 100417 + i) for i in range(6 if tier == "quick" else 80)]
    return out


def run_one(mon, cfg, n_dim, **w):
    with sim.fresh_dir():
        if n_dim > 1 and "coeffs-file" in cfg["potential"]:
            gen.write_coeffs("pot.coeffs", gen.WOLFE_QUAPP if n_dim == 2 else gen.coeffs3d())
        res = sim.must_run(mon, cfg)
        if res is None:
            return None
        mon.count("program runs")
        if n_dim > 1:
            mon.count(f"runs in {n_dim}d")
        outputs.check_fes(mon, cfg, res.rec, n_dim, **w)
        sec = cfg["fes"]
        mon.sig(cfg["ld"]["n_steps"], sec.get("stride"), sec.get("write-stride"),
                cfg["trajectories"].get("write-stride"), sec["kt"], n_dim,
                int((res.rec.histo_data["final"] == 0).sum()))
        return res


def run_direct(rng, mon):
    """calculate_fes on hostile histograms"""
    from bdld.actions.fes_action import calculate_fes
    from bdld.histogram import Histogram

    for rep in range(60):
        d = int(rng.choice([1, 2, 3]))
        rr = [(-1.0 - float(x), 1.5) for x in rng.random(d)]
        nb = [int(x) for x in rng.integers(1, 8, size=d)]
        h = Histogram(list(nb), list(rr))
        kind = str(rng.choice(["empty", "single", "sparse", "full", "huge"]))
        c = np.zeros(nb)
        if kind == "single":
            c.flat[int(rng.integers(c.size))] = float(rng.integers(1, 9))
        elif kind == "sparse":
            c = rng.integers(0, 3, size=nb).astype(float)
        elif kind == "full":
            c = rng.integers(1, 2000, size=nb).astype(float)
        elif kind == "huge":
            c = rng.integers(0, 2, size=nb) * 10.0 ** rng.integers(0, 15, size=nb)
        h.data = c.copy()
        kt = float(10.0 ** rng.uniform(-2, 2))
        junk = [np.full(c.size, np.nan) for _ in range(3)]  # stale memory must not show up
        del junk
        with np.errstate(all="ignore"):
            f = calculate_fes(h, kt)
        mon.count("direct surfaces")
        if not c.any():
            mon.count("surfaces of empty histograms")
        w = dict(kind=kind, bins=nb, kt=kt)
        mon.check(not np.any(np.isnan(f.data)), "surface is never NaN", **w)
        mon.close(f.data, outputs.fes_from_counts(c, kt), "surface is -kT ln(counts), aligned to zero", rtol=1e-10,
                  atol=1e-10 * kt, **w)
        mon.check(np.array_equal(h.data, c), "the histogram is not modified by the surface", **w)
        f.data[...] = -5.0
        mon.check(np.array_equal(h.data, c), "the surface is independent of the histogram", **w)
        mon.sig("direct", kind, tuple(nb))
        if mon.n_violations:
            return


def run_case(case, mon):
    rng = np.random.default_rng(case["seed"])
    if case["mode"] == "direct":
        return run_direct(rng, mon)
    if case["mode"] == "long":
        run_one(mon, outputs.long_config(rng, ["trajectories", "histogram", "fes"]), 1)
        mon.count("runs of more than 65536 steps")
        return
    if case["mode"] == "enum":
        for n_steps, stride, ws, W in case["combos"]:
            cfg = c10.enum_config(rng, n_steps, 1, W, int(rng.integers(1, 4)))
            if rng.random() < 0.5:
                del cfg["trajectories"]["filename"]
            cfg["histogram"] = {"min": -2.0, "max": 2.0, "bins": int(rng.integers(1, 15)),
                                "stride": int(rng.integers(1, 4))}
            if rng.random() < 0.3:
                cfg["histogram"]["reset"] = [int(rng.integers(1, n_steps + 1))]
            cfg["fes"] = {"kt": float(np.round(rng.uniform(0.1, 3), 2)), "filename": "surf"}
            if stride:
                cfg["fes"]["stride"] = stride
            if ws:
                cfg["fes"]["write-stride"] = ws
            run_one(mon, cfg, 1)
            if mon.n_violations:
                return
        return
    for rep in range(4):
        n_steps = int(outputs.pick(rng, [1, 30, 99, 100, 101, 150, int(rng.integers(1, 200))]))
        with sim.fresh_dir():
            cfg, n_dim, ranges = gen.base_config(rng, n_steps)
        cfg["trajectories"] = outputs.traj_section(rng, None)
        cfg["histogram"] = outputs.histo_section(rng, n_dim, ranges, n_steps, "hi" if rng.random() < 0.3 else None)
        cfg["fes"] = outputs.fes_section(rng, "fe" if rng.random() < 0.8 else None)
        if rng.random() < 0.3:
            cfg["delta-f"] = outputs.strided(rng, outputs.states(rng, ranges, 2), "df")
        res = run_one(mon, cfg, n_dim)
        if res is None or mon.n_violations:
            return
    mon.sample(dict(fes=cfg["fes"], n_steps=n_steps, final=res.rec.fes_data["final"].ravel()[:8]))
