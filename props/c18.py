"""C18: the initial ensemble is exactly the one requested"""
from fractions import Fraction
import math

import numpy as np

from vlib import core, gen, sim

RULE = ("one signature per (initial distribution, dimension, integrator, potential, size class, number of positions, "
        "kind of fractions, seed given)")
REQUIRED = {
    "initial ensembles": 1500,
    "walkers checked": 40000,
    "ensembles random-global": 300,
    "ensembles random-pos": 300,
    "ensembles fractions-pos": 500,
    "fractions with a remainder": 150,
    "fractions times number exactly integer": 100,
    "rejected mismatches": 150,
}
ASSUMPTIONS = ["distributions are judged by pooled moments, correlations and bin counts (z > 7 is a violation)"]


def cases(tier, seed):
    mul = 1 if tier == "quick" else 14
    return ([dict(mode="global", seed=seed * 100649 + i) for i in range(12 * mul)]
            + [dict(mode="pos", seed=seed * 100669 + i) for i in range(12 * mul)]
            + [dict(mode="fractions", seed=seed * 100673 + i) for i in range(16 * mul)]
            + [dict(mode="mismatch", seed=seed * 100693 + i) for i in range(6 * mul)])


def config(rng, number):
    pot, n_dim, ranges = gen.potential_section(rng)
    if n_dim == 1 and rng.random() < 0.5:
        lo = float(np.round(rng.uniform(-3, 0.5), 2))
        hi = lo + float(np.round(rng.uniform(0.2, 4), 2))
        pot.update({"min": lo, "max": hi})
        ranges = [(lo, hi)]
    cfg = {"ld": gen.ld_section(rng, 1), "potential": pot}
    cfg["ld"]["timestep"] = 1e-5
    sec = {"number": int(number)}
    if rng.random() < 0.7:
        sec["mass"] = float(rng.choice([1.0, 0.5, 2.75, 0.01, 40.0, np.round(rng.uniform(0.1, 5), 3)]))
    if rng.random() < 0.8:
        sec["seed"] = int(rng.integers(0, 10**6))
    cfg["particles"] = sec
    return cfg, n_dim, ranges


def positions(rng, ranges, k):
    seen = []
    while len(seen) < k:
        p = [float(np.round(rng.uniform(lo, hi), 3)) for lo, hi in ranges]
        if rng.random() < 0.1:
            p = [float(lo) for lo, _ in ranges]
        if rng.random() < 0.1:
            p = [0.0 for _ in ranges]
        if p not in seen:
            seen.append(p)
    return seen


def initial(mon, cfg):
    """Initial ensemble of a run, checked for size, mass and momenta"""
    res = sim.must_run(mon, cfg)
    if res is None:
        return None
    snap = res.rec.end_of_step[0]
    part = cfg["particles"]
    mon.count("initial ensembles")
    mon.count("ensembles " + part["initial-distribution"])
    mon.count("walkers checked", snap.n)
    mon.sig(part["initial-distribution"], snap.pos.shape[1:], cfg["ld"]["type"], cfg["potential"]["type"],
            int(np.log2(part["number"])), sum(k.startswith("pos") for k in part),
            [round(x / sum(part["fractions"]), 3) for x in part["fractions"]] if "fractions" in part else None,
            "seed" in part)
    w = dict(particles=part, potential=cfg["potential"])
    ok = mon.check(snap.n == part["number"], "number of walkers is the requested one", got=snap.n, **w)
    ok = ok and mon.check(np.all(snap.mass == part.get("mass", 1.0)), "walkers have the requested mass",
                          got=np.unique(snap.mass), **w)
    ok = ok and mon.check(np.all(snap.mom == 0.0) and snap.mom.shape == snap.pos.shape, "walkers start at rest",
                          got=snap.mom[:3], **w)
    return snap if ok else None


def run_global(rng, mon):
    for rep in range(30):
        n = int(rng.choice([1, 2, 3, 7, 20, 60, 200]))
        cfg, n_dim, ranges = config(rng, n)
        cfg["particles"]["initial-distribution"] = "random-global"
        with sim.fresh_dir():
            if "coeffs-file" in cfg["potential"]:
                gen.write_coeffs("pot.coeffs", gen.WOLFE_QUAPP if n_dim == 2 else gen.coeffs3d())
            snap = initial(mon, cfg)
        if snap is None:
            return
        lo = np.array([r[0] for r in ranges])
        width = np.array([r[1] - r[0] for r in ranges])
        u = (snap.pos - lo) / width
        if not mon.check(np.all(u >= -1e-12) and np.all(u <= 1 + 1e-12), "walkers lie in the range of the potential",
                         ranges=ranges, got=snap.pos[:5]):
            return
        if n > 2:
            mon.check(len(np.unique(snap.pos[:, 0])) == n, "positions are drawn independently", pos=snap.pos[:5])
        v = (u - 0.5) * np.sqrt(12)
        for d in range(n_dim):
            mon.pool(f"uniform {n_dim}d dim{d}", v[:, d])
            mon.pool(f"product walkers {n_dim}d dim{d}", v[1:, d] * v[:-1, d])
            for e in range(d):
                mon.pool(f"product dims {n_dim}d {e}{d}", v[:, d] * v[:, e])
            for b, near in (("low", u[:, d] < 0.01), ("high", u[:, d] > 0.99)):
                mon.pool(f"edge {b}", near.astype(float))
            for b in range(8):
                mon.pool(f"bin8 {n_dim}d dim{d} {b}", (np.floor(u[:, d] * 8) == b).astype(float))
        if n > 2:
            # independent draws: the average of an ensemble fluctuates as much as it should
            mon.pool("averages squared", (v.sum(axis=0) / np.sqrt(n)) ** 2 - 1)
        mon.pool("uniform first walker", v[0])
        mon.pool("uniform last walker", v[-1])
    mon.sample(dict(particles=cfg["particles"], pos=snap.pos[:4]))


def run_pos(rng, mon):
    for rep in range(40):
        n = int(rng.choice([1, 2, 5, 17, 50, 150]))
        cfg, n_dim, ranges = config(rng, n)
        k = int(rng.integers(1, 6) if rng.random() < 0.9 else 12)
        pos = positions(rng, ranges, k)
        cfg["particles"]["initial-distribution"] = "random-pos"
        cfg["particles"].update({f"pos{i+1}": p for i, p in enumerate(pos)})
        with sim.fresh_dir():
            if "coeffs-file" in cfg["potential"]:
                gen.write_coeffs("pot.coeffs", gen.WOLFE_QUAPP if n_dim == 2 else gen.coeffs3d())
            snap = initial(mon, cfg)
        if snap is None:
            return
        which = []
        for p in snap.pos:
            hit = [i for i, q in enumerate(pos) if np.array_equal(p, q)]
            if not mon.check(len(hit) == 1, "walkers are on the given positions only", got=p, positions=pos):
                return
            which.append(hit[0])
        which = np.array(which)
        for i in range(k):
            # indicator values with mean 0 and variance 1
            if k > 1:
                z = ((which == i) - 1 / k) / np.sqrt((1 - 1 / k) / k)
                mon.pool(f"choice {i} of {k}", z)
                if n > 1:
                    mon.pool(f"product choice {i} of {k}", z[1:] * z[:-1])
                mon.pool(f"choice first walker {i} of {k}", z[:1])
                if i == 0 and n > 4 and k < 4:
                    mon.pool("averages squared of choices", (z.sum() / np.sqrt(n)) ** 2 - 1)
    mon.sample(dict(particles=cfg["particles"], counts=np.bincount(which, minlength=k)))


def expected_counts(texts, number):
    fr = [Fraction(t) for t in texts]
    total = sum(fr)
    counts = [math.floor(f / total * number) for f in fr]
    exact = any((f / total * number).denominator == 1 and f for f in fr)
    rest = number - sum(counts)
    counts[0] += rest
    return counts, rest, exact


def fractions(rng, k, number):
    kind = str(rng.choice(["near", "decimals", "sum one", "absolute", "thirds", "zeros", "tiny", "equal"]))
    if kind == "near":
        # shares that are a little more or less than a whole number of walkers
        parts = [int(x) * 10**6 for x in rng.integers(1, max(2, number // k + 1), size=k)]
        e = int(10 ** rng.integers(0, 5)) * int(rng.integers(1, 10))
        for i in range(0, k - 1, 2):
            parts[i] -= e
            parts[i + 1] += e
        parts[-1] += max(0, number * 10**6 - sum(parts))
        t = [f"{p // 10**6}.{p % 10**6:06d}" for p in parts]
    elif kind == "decimals":
        t = [f"{rng.integers(1, 1000) / 1000:.3f}" for _ in range(k)]
    elif kind == "sum one":
        cuts = sorted(int(x) for x in rng.integers(0, 101, size=k - 1))
        parts = np.diff([0] + cuts + [100])
        t = [f"{p / 100:.2f}" for p in parts]
    elif kind == "absolute":
        cuts = sorted(int(x) for x in rng.integers(0, number + 1, size=k - 1))
        t = [str(int(x)) for x in np.diff([0] + cuts + [number])]
    elif kind == "thirds":
        t = [str(int(x)) for x in rng.integers(1, 4, size=k)]
    elif kind == "zeros":
        t = [str(int(x)) for x in rng.integers(0, 2, size=k)]
        t[int(rng.integers(k))] = "1"
    elif kind == "tiny":
        t = [f"{rng.integers(1, 50)}e-5" for _ in range(k)]
    else:
        t = [str(rng.choice(["0.1", "1", "0.25", "7"]))] * k
    return t, kind


def run_fractions(rng, mon):
    for rep in range(45):
        n = int(rng.choice([1, 2, 3, 5, 7, 10, 20, 29, 50, 100, int(rng.integers(1, 300)), int(rng.integers(300, 3000))]))
        cfg, n_dim, ranges = config(rng, n)
        k = int(rng.integers(1, 6) if rng.random() < 0.9 else 11)
        pos = positions(rng, ranges, k)
        t, kind = fractions(rng, k, n)
        cfg["particles"]["initial-distribution"] = "fractions-pos"
        cfg["particles"].update({f"pos{i+1}": p for i, p in enumerate(pos)})
        cfg["particles"]["fractions"] = [float(x) for x in t]
        with sim.fresh_dir():
            if "coeffs-file" in cfg["potential"]:
                gen.write_coeffs("pot.coeffs", gen.WOLFE_QUAPP if n_dim == 2 else gen.coeffs3d())
            snap = initial(mon, cfg)
        if snap is None:
            return
        want, rest, exact = expected_counts(t, n)
        got = [int(np.sum(np.all(snap.pos == np.array(q), axis=1))) for q in pos]
        if rest:
            mon.count("fractions with a remainder")
        if exact:
            mon.count("fractions times number exactly integer")
        if not mon.check(got == want, "numbers of walkers per position are the requested fractions", got=got, want=want,
                         fractions=t, number=n, kind=kind):
            return
    mon.sample(dict(fractions=t, number=n, counts=got))


def run_mismatch(rng, mon):
    for rep in range(30):
        n = int(rng.integers(1, 30))
        cfg, n_dim, ranges = config(rng, n)
        k = int(rng.integers(1, 5))
        m = int(rng.choice([x for x in range(1, 7) if x != k]))
        pos = positions(rng, ranges, k)
        cfg["particles"]["initial-distribution"] = "fractions-pos"
        cfg["particles"].update({f"pos{i+1}": p for i, p in enumerate(pos)})
        cfg["particles"]["fractions"] = [float(x) for x in fractions(rng, m, n)[0]]
        with sim.fresh_dir():
            if "coeffs-file" in cfg["potential"]:
                gen.write_coeffs("pot.coeffs", gen.WOLFE_QUAPP if n_dim == 2 else gen.coeffs3d())
            res = sim.run_main(cfg)
        mon.count("executions")
        mon.count("rejected mismatches")
        mon.sig("mismatch", k, m)
        if not mon.check(res.exit == 1 and not res.rec.events, "differing numbers of positions and fractions are rejected",
                         exit=res.exit, positions=k, fractions=m, events=res.rec.events[:3]):
            return


def finalize(mon, tier):
    for name, p in sorted(mon.pools.items()):
        if p[0] < (150 if name.startswith("averages") else 1000):
            continue
        if name.startswith("bin8"):
            z = (p[1] - p[0] / 8) / np.sqrt(p[0] * 7 / 64)
            mon.check(abs(z) < 7, "initial positions fill the range evenly", pool=name, n=p[0], z=z)
        elif name.startswith("edge"):
            z = (p[1] - p[0] * 0.01) / np.sqrt(p[0] * 0.0099)
            mon.check(abs(z) < 7, "initial positions reach the edges of the range", pool=name, n=p[0], z=z)
        elif name.startswith("uniform"):
            mon.check(abs(core.z_mean(p)) < 7, "initial positions are centred", pool=name, n=p[0], z=core.z_mean(p))
            zv = (p[2] / p[0] - 1) / np.sqrt(0.8 / p[0])  # fourth moment of a uniform variable is 9/5
            mon.check(abs(zv) < 7, "initial positions have the spread of the range", pool=name, n=p[0], z=zv)
        elif name.startswith("averages"):
            # variance of the square of a nearly normal number: about 2
            z = p[1] / np.sqrt(2 * p[0])
            mon.check(abs(z) < 6.5, "averages of initial positions fluctuate as for independent draws", pool=name,
                      n=p[0], z=z)
        elif name.startswith("choice"):
            mon.check(abs(core.z_mean(p)) < 7, "positions are chosen with equal probability", pool=name, n=p[0],
                      z=core.z_mean(p))
        elif name.startswith("product"):
            mon.check(abs(core.z_mean(p)) < 9, "initial positions are uncorrelated", pool=name, n=p[0],
                      z=core.z_mean(p))


def run_case(case, mon):
    rng = np.random.default_rng(case["seed"])
    dict(**{"global": run_global}, pos=run_pos, fractions=run_fractions, mismatch=run_mismatch)[case["mode"]](rng, mon)
