"""C10: trajectory files hold every stride-th step exactly once and nothing else"""
import itertools

import numpy as np

from vlib import gen, outputs, sim

RULE = ("one signature per (n_steps, stride, write-stride, momentum, dimension, format, birth-death)")
REQUIRED = {
    "program runs": 800,
    "trajectory files": 1500,
    "trajectory lines": 15000,
    "runs with strides that do not divide each other": 300,
    "runs with momentum": 100,
    "runs with birth-death events": 30,
    "runs in 3d": 8,
    "runs of more than 65536 steps": 1,
    "runs with large trajectory buffers": 2,
    "runs with more than 1000 walkers": 1,
}
ASSUMPTIONS = []
# every combination of small values (the arithmetic is modular: offsets, wraps and rests all occur)
GRID = list(itertools.product(range(1, 15), (1, 2, 3, 4, 5, 6, 7, 9), (1, 2, 3, 4, 5, 6, 7, 11)))


def cases(tier, seed):
    rng = np.random.default_rng(seed)
    combos = list(GRID)
    rng.shuffle(combos)
    n = 720 if tier == "quick" else len(combos)
    combos = [tuple(int(x) for x in c) for c in combos[:n]]
    out = [dict(mode="enum", combos=combos[i:i + 45], seed=seed * 100361 + i) for i in range(0, n, 45)]
    m = 24 if tier == "quick" else 500
    out += [dict(mode="random", seed=seed * 100363 + i) for i in range(m)]
    out.append(dict(mode="long", seed=seed * 100367))
    out += [dict(mode="buffer", seed=seed * 100379 + i) for i in range(2 if tier == "quick" else 12)]
    out += [dict(mode="crowd", seed=seed * 100391 + i) for i in range(1 if tier == "quick" else 4)]
    return out


def enum_config(rng, n_steps, stride, ws, number=1):
    return {
        "ld": {"type": "overdamped", "timestep": float(outputs.pick(rng, [0.005, 0.01, 0.003, 0.00123457, 1.7e-5, 3.1e-6, 1e-7])),
               "n_steps": n_steps, "seed": int(rng.integers(10**6))},
        "potential": {"type": "polynomial", "n_dim": 1, "coeffs": [0.0, 0.1, 0.5], "min": -2.0, "max": 2.0},
        "particles": {"number": number, "initial-distribution": "random-global", "seed": int(rng.integers(10**6))},
        "trajectories": {"filename": "traj", "stride": stride, "write-stride": ws},
    }


def run_one(mon, cfg, n_dim, **w):
    with sim.fresh_dir():
        if n_dim > 1 and "coeffs-file" in cfg["potential"]:
            gen.write_coeffs("pot.coeffs", gen.WOLFE_QUAPP if n_dim == 2 else gen.coeffs3d())
        res = sim.must_run(mon, cfg)
        if res is None:
            return None
        mon.count("program runs")
        outputs.check_traj(mon, cfg, res.rec, n_dim, **w)
        sec = cfg["trajectories"]
        s, ws, n = sec.get("stride", 1), sec.get("write-stride", 100), cfg["ld"]["n_steps"]
        if ws % s or n % ws or n % s:
            mon.count("runs with strides that do not divide each other")
        if sec.get("momentum"):
            mon.count("runs with momentum")
        if any(ev for _, ev in res.rec.bd_events):
            mon.count("runs with birth-death events")
        if n_dim == 3:
            mon.count("runs in 3d")
        mon.sig(n, s, ws, sec.get("momentum"), n_dim, sec.get("fmt"), "birth-death" in cfg)
        return res


def run_case(case, mon):
    rng = np.random.default_rng(case["seed"])
    if case["mode"] == "long":
        run_one(mon, outputs.long_config(rng, ["trajectories"]), 1)
        mon.count("runs of more than 65536 steps")
        return
    if case["mode"] == "buffer":
        # many values are held in memory before they are written, with all their digits
        ws = int(outputs.pick(rng, [5000, 12000, 100000]))
        cfg = enum_config(rng, int(rng.integers(30, 90)), 1, ws, int(rng.integers(5, 14)))
        cfg["trajectories"]["fmt"] = outputs.cfg_fmt(str(outputs.pick(rng, ["%.17g", "%.14e", "%.12f"])))
        if rng.random() < 0.5:
            cfg["trajectories"]["momentum"] = True
            cfg["ld"].update({"type": "bussi-parinello", "kt": 1.0, "friction": 2.0})
        run_one(mon, cfg, 1)
        mon.count("runs with large trajectory buffers")
        return
    if case["mode"] == "crowd":
        run_one(mon, enum_config(rng, int(rng.integers(3, 8)), 1, int(rng.integers(1, 6)), int(rng.integers(1010, 1200))), 1)
        mon.count("runs with more than 1000 walkers")
        return
    if case["mode"] == "enum":
        for n_steps, stride, ws in case["combos"]:
            cfg = enum_config(rng, n_steps, stride, ws, int(rng.integers(1, 3)))
            if rng.random() < 0.4:
                cfg["trajectories"]["momentum"] = True
                cfg["ld"].update({"type": "bussi-parinello", "kt": 1.0, "friction": 2.0})
            run_one(mon, cfg, 1)
            if mon.n_violations:
                return
        return
    for rep in range(5):
        n_steps = int(outputs.pick(rng, [1, 7, 30, 99, 100, 101, 150, 199, 200, 201, int(rng.integers(1, 260)), 1030]))
        with sim.fresh_dir():
            cfg, n_dim, ranges = gen.base_config(rng, n_steps)
        if rng.random() < 0.3:
            cfg["ld"]["timestep"] = float(outputs.pick(rng, [0.00123457, 1.7e-5, 3.1e-6, 1e-7]))
        cfg["trajectories"] = outputs.traj_section(rng, "out")
        if "birth-death" in cfg:
            cfg["birth-death"]["exponential-factor"] = 1000.0
        # other analysis must not disturb the trajectories
        if rng.random() < 0.4:
            cfg["histogram"] = outputs.histo_section(rng, n_dim, ranges, n_steps)
        res = run_one(mon, cfg, n_dim)
        if res is None or mon.n_violations:
            return
    mon.sample(dict(trajectories=cfg["trajectories"], n_steps=n_steps, walkers=res.rec.end_of_step[0].n,
                    last=res.rec.end_of_step[-1].pos))
