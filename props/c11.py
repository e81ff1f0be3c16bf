"""C11: the histogram counts every sampled position exactly once"""
import itertools

import numpy as np

from props import c10
from vlib import gen, outputs, ref, sim

RULE = ("one signature per (n_steps, stride, trajectory write-stride, resets, filename given, "
        "histogram write-stride, dimension)")
REQUIRED = {
    "program runs": 600,
    "histogram states compared": 3000,
    "samples in compared histograms": 50000,
    "histogram files": 400,
    "runs with reset": 200,
    "runs with reset between updates": 100,
    "runs without trajectory files": 200,
    "runs in 2d": 20,
    "runs in 3d": 10,
    "runs of more than 65536 steps": 1,
    "runs with more than 1000 counts in a bin": 5,
    "positions outside the histogram": 500,
    "positions exactly at the edge of the histogram": 20,
    "direct histogram additions": 200,
    "additions to bins with millions of counts": 6,
}
ASSUMPTIONS = [
    "positions within 1e-9 bin widths of an inner bin edge may be counted in either bin",
    "the outermost edges belong to the outermost bins (closed range)",
]
GRID = list(itertools.product((1, 2, 3, 5, 6, 7, 10, 12, 13), (1, 2, 3, 4, 5, 7), (1, 2, 3, 4, 5, 6, 8, 20),
                              (None, "one", "two", "many", "end"), (True, False)))


def cases(tier, seed):
    rng = np.random.default_rng(seed)
    idx = rng.permutation(len(GRID))
    n = 640 if tier == "quick" else len(GRID)
    combos = [GRID[i] for i in idx[:n]]
    out = [dict(mode="enum", combos=combos[i:i + 40], seed=seed * 100379 + i) for i in range(0, n, 40)]
    m = 30 if tier == "quick" else 500
    out += [dict(mode="random", seed=seed * 100391 + i) for i in range(m)]
    out.append(dict(mode="long", seed=seed * 100379 - 1))
    out += [dict(mode="direct", seed=seed * 100393 + i) for i in range(4 if tier == "quick" else 60)]
    out.append(dict(mode="huge", seed=seed * 100403))
    return out


def run_one(mon, cfg, n_dim, **w):
    with sim.fresh_dir():
        if n_dim > 1 and "coeffs-file" in cfg["potential"]:
            gen.write_coeffs("pot.coeffs", gen.WOLFE_QUAPP if n_dim == 2 else gen.coeffs3d())
        res = sim.must_run(mon, cfg)
        if res is None:
            return None
        sec, traj = cfg["histogram"], cfg["trajectories"]
        mon.count("program runs")
        outputs.check_histo(mon, cfg, res.rec, n_dim, **w)
        W = traj.get("write-stride", 100)
        if sec.get("reset"):
            mon.count("runs with reset")
            if any(r % W and r <= cfg["ld"]["n_steps"] for r in sec["reset"]):
                mon.count("runs with reset between updates")
        if not traj.get("filename"):
            mon.count("runs without trajectory files")
        if n_dim > 1:
            mon.count(f"runs in {n_dim}d")
        if max(np.max(v) for v in res.rec.histo_data.values()) > 1000:
            mon.count("runs with more than 1000 counts in a bin")
        rr, nb = outputs.grid_of(sec)
        pos = np.concatenate([s.pos for s in res.rec.end_of_step[1:]])
        lo, hi = np.array([r[0] for r in rr]), np.array([r[1] for r in rr])
        mon.count("positions outside the histogram", int((~ref.inside(pos, lo, hi)).sum()))
        mon.count("positions exactly at the edge of the histogram", int(np.any((pos == lo) | (pos == hi), axis=1).sum()))
        mon.sig(cfg["ld"]["n_steps"], sec.get("stride"), W, tuple(sec.get("reset", ())), bool(traj.get("filename")),
                sec.get("write-stride"), bool(sec.get("filename")), n_dim)
        return res


def run_case(case, mon):
    rng = np.random.default_rng(case["seed"])
    if case["mode"] == "direct":
        return run_direct(rng, mon)
    if case["mode"] == "huge":
        return run_huge(rng, mon)
    if case["mode"] == "long":
        run_one(mon, outputs.long_config(rng, ["trajectories", "histogram"]), 1)
        mon.count("runs of more than 65536 steps")
        return
    if case["mode"] == "enum":
        for n_steps, stride, W, reset, traj_file in case["combos"]:
            cfg = c10.enum_config(rng, n_steps, 1, W, int(rng.integers(1, 4)))
            if not traj_file:
                del cfg["trajectories"]["filename"]
            cfg["trajectories"]["stride"] = int(rng.integers(1, 5))
            big = not traj_file and rng.random() < 0.25
            if big:
                cfg["particles"]["number"] = int(rng.integers(500, 1100))
            h = {"min": -2.0, "max": float(outputs.pick(rng, [2.0, 1.0])), "bins": int(rng.integers(1, 3 if big else 30)), "stride": stride}
            if reset == "end":
                h["reset"] = [n_steps]
            elif reset:
                h["reset"] = [int(x) for x in rng.integers(1, n_steps + 1, size=dict(one=1, two=2, many=5)[reset])]
            if rng.random() < 0.5:
                h["filename"] = "histo"
                if rng.random() < 0.5:
                    h["write-stride"] = int(rng.integers(1, 8))
            cfg["histogram"] = h
            if rng.random() < 0.5:
                cfg["potential"]["boundary-condition"] = "reflective"
                cfg["potential"]["min"], cfg["potential"]["max"] = -0.5, 1.0
                h["min"], h["max"] = (-0.5, 1.0) if rng.random() < 0.6 else (-0.25, 1.0)
            run_one(mon, cfg, 1)
            if mon.n_violations:
                return
        return
    for rep in range(5):
        n_steps = int(outputs.pick(rng, [1, 30, 99, 100, 101, 150, 200, 201, int(rng.integers(1, 260)), 1234]))
        with sim.fresh_dir():
            cfg, n_dim, ranges = gen.base_config(rng, n_steps)
        cfg["trajectories"] = outputs.traj_section(rng, "traj" if rng.random() < 0.5 else None)
        cfg["histogram"] = outputs.histo_section(rng, n_dim, ranges, n_steps, "hi" if rng.random() < 0.6 else None)
        if rng.random() < 0.4:
            cfg["fes"] = outputs.fes_section(rng)
        res = run_one(mon, cfg, n_dim)
        if res is None or mon.n_violations:
            return
    mon.sample(dict(histogram=cfg["histogram"], trajectories=cfg["trajectories"], n_steps=n_steps,
                    total=float(res.rec.histo_data["final"].sum())))


def run_direct(rng, mon):
    """Histogram class on hostile data: edges, outside, empty, repeated additions and clears"""
    from bdld.histogram import Histogram

    for rep in range(40):
        d = int(rng.choice([1, 2, 3]))
        rr = [tuple(sorted(float(x) for x in np.round(rng.normal(size=2) * 3, 2))) for _ in range(d)]
        if any(b - a < 0.05 for a, b in rr):
            continue
        nb = [int(x) for x in rng.integers(1, 9, size=d)]
        h = Histogram(list(nb), list(rr))
        low = np.zeros(nb)
        high = np.zeros(nb)
        total = 0
        w = dict(ranges=rr, bins=nb)
        mon.close(np.array(h.points()), ref.midpoints(rr, nb), "bin midpoints", rtol=1e-10, atol=1e-10, **w)
        for k in range(6):
            n = int(rng.choice([0, 1, 3, 50, 50, 3000]))
            x = np.empty((n, d))
            for j, (a, b) in enumerate(rr):
                x[:, j] = a + (b - a) * rng.uniform(-0.2, 1.2, size=n)
                edges = ref.bin_edges(a, b, nb[j])
                m = rng.random(n) < 0.2
                x[m, j] = rng.choice([a, b, np.nextafter(a, -9e9), np.nextafter(b, 9e9), edges[len(edges) // 2]],
                                     size=int(m.sum()))
            x0 = x.copy()
            h.add(x)
            l, u, t = ref.bin_counts(x, rr, nb)
            low += l
            high += u
            total += t
            mon.count("direct histogram additions")
            mon.count("positions exactly at the edge of the histogram", int(np.sum([(x[:, j] == r[0]) | (x[:, j] == r[1])
                      for j, r in enumerate(rr)])))
            mon.check(np.array_equal(x, x0), "adding data does not change it", **w)
            if not outputs.counts_ok(mon, h.data, ((low, high, total), n), "repeated additions accumulate", **w):
                return
            if rng.random() < 0.2:
                h.clear()
                low[:] = 0
                high[:] = 0
                total = 0
                mon.check(not np.any(h.data), "clearing removes all counts", **w)


def run_huge(rng, mon):
    """No count is too large: one bin gets more than 2**24 samples, then single ones"""
    from bdld.histogram import Histogram

    h = Histogram([3], [(0.0, 3.0)])
    want = np.zeros(3)
    block = np.full((2**22 + 1, 1), 1.5)
    block[::4] = 0.25
    extra = [block] * 6 + [np.array([[x]]) for x in (1.5, 1.5, 0.5, 1.25, 2.5, 1.75, 1.5)]
    for x in extra:
        h.add(x)
        want += [np.sum((x >= i) & (x < i + 1)) for i in range(3)]
        mon.count("additions to bins with millions of counts")
        if not mon.check(np.array_equal(np.asarray(h.data, dtype=float), want), "counts of any size are exact",
                         got=np.asarray(h.data), want=want):
            return
    mon.sig("huge", want.tolist())
    mon.sample(dict(counts=want.tolist()))
