"""C21: the program simulates exactly the system the input file describes"""
import copy
import itertools
import os
import subprocess
import sys

import numpy as np

from props import c01, c07
from vlib import bdmodel, core, gen, outputs, ref, sim, smooth

RULE = ("dynamics: per (integrator, dimension, potential, boundary condition, timestep, friction, mass given); "
        "birth-death: per (variant and how it is given, recalculation, walkers, stride, integrator); "
        "sections: per set of sections; defaults: per omitted option")
REQUIRED = {
    "runs of more than 131072 steps": 1,
    "noise-free walker steps": 2500,
    "noise-free boundary hits": 200,
    "noise-free boundary hits in 2 dimensions": 60,
    "noise-free boundary hits in 3 dimensions": 60,
    "noisy walker steps underdamped": 40000,
    "noisy walker steps overdamped": 20000,
    "birth-death executions with known rates": 15000,
    "birth-death events with known rates": 8000,
    "section sets": 14,
    "action calls ordered": 1200,
    "output rows tied to the state after the step": 2000,
    "pairs with omitted and explicit default": 60,
    "pairs that must differ": 15,
    "processes": 12,
    "files of processes compared": 40,
    "failing runs with status not 0": 6,
}
ASSUMPTIONS = [
    "the noise is judged by the moments of the inferred normal numbers (z > 7 is a violation)",
    "the birth-death outcome distribution is compared with a chi-square test (p < 1e-9 is a violation); the ensemble "
    "is put back to its start after every execution",
]


def cases(tier, seed):
    mul = 1 if tier == "quick" else 14
    out = []
    for mode, n, prime in (("det", 14, 100621), ("noise", 16, 100649), ("bd", 16, 100669),
                           ("sections", 10, 100673), ("defaults", 10, 100693), ("cli", 4, 100699)):
        out += [dict(mode=mode, seed=seed * prime + i, i=i) for i in range(n * mul)]
    out.insert(0, dict(mode="long", seed=seed * 100703, n_steps=140000 if tier == "quick" else 1100000))
    return out


class Sys:
    """What the reference step needs to know, from the input file alone"""

    def __init__(self, cfg, ranges, pot=None):
        r = gen.ref_potential(cfg)
        self.ref = ref.Offset(r, pot) if pot is not None else r
        self.bc = cfg["potential"].get("boundary-condition") or "none"
        self.ranges = ranges
        self.n_dim = len(ranges)
        self.abs_energy = (self.ref.ref if pot is not None else self.ref).abs_energy


def run_recorded(mon, cfg, **kw):
    """Run and return (result, potential used by the program)"""
    res = sim.must_run(mon, cfg, **kw)
    if res is None:
        return None, None
    ld = res.rec.instances.get("ld")
    if not mon.check(ld is not None, "the dynamics were run", input=sim.input_text(cfg)):
        return None, None
    return res, ld.pot


def check_length(mon, cfg, rec):
    n = cfg["ld"]["n_steps"]
    return mon.check(len(rec.after_ld) == n and len(rec.end_of_step) == n + 1,
                     "exactly n_steps time steps are performed", n_steps=n, performed=len(rec.after_ld),
                     input=sim.input_text(cfg))


def run_det(case, mon):
    """Dynamics without noise: every parameter shows exactly"""
    rng = np.random.default_rng(case["seed"])
    for rep in range(6):
        n_steps = int(rng.choice([1, 2, 7, 40, 90]))
        bc = str(rng.choice(["none", "reflective", "periodic"]))
        steep = rep < 2
        tiny = rep in (2, 3)  # several dimensions, so narrow that walkers reach every wall
        if steep or tiny:
            n_steps, bc = 60, ["reflective", "periodic"][rep % 2]
        dim = 1 if steep else (2 + (case["i"] + rep // 2) % 2 if tiny else None)
        cfg, n_dim, ranges = gen.base_config(rng, n_steps, bd=False, bc=bc, ld_type="bussi-parinello",
                                             number=int(rng.integers(1, 6)), n_dim=dim,
                                             kind="polynomial" if tiny else None)
        if tiny:
            ranges = [(lo, lo + float(np.round(rng.uniform(0.004, 0.02), 4)))
                      for lo in np.round(rng.uniform(-1.5, 1.5, size=n_dim), 2).tolist()]
            cfg["potential"]["min"] = [r[0] for r in ranges]
            cfg["potential"]["max"] = [r[1] for r in ranges]
            for key in [k for k in cfg["particles"] if k.startswith("pos") or k == "fractions"]:
                del cfg["particles"][key]
            cfg["particles"].update({"initial-distribution": "fractions-pos", "fractions": [1.0],
                                     "pos1": [0.5 * (a + b) for a, b in ranges]})
        if n_dim == 1 and (steep or rng.random() < 0.3):  # so the walls are hit
            cfg["potential"]["coeffs"] = [0.0, float(rng.choice([-1, 1])) * 1e4]
        if n_dim == 1 and rng.random() < 0.3:
            gen.write_coeffs("pot.coeffs", cfg["potential"].pop("coeffs"), rng)
            coeffs = None
            cfg["potential"]["coeffs-file"] = "pot.coeffs"
            with open("pot.coeffs") as f:
                rows = [ln.split() for ln in f if not ln.startswith("#") and ln.strip()]
            coeffs = np.zeros(max(int(r[0]) for r in rows) + 1)
            for r in rows:
                coeffs[int(r[0])] = float(r[1])
            refcfg = copy.deepcopy(cfg)
            refcfg["potential"]["coeffs"] = list(coeffs)
            mon.count("1-d coefficients from file")
        else:
            refcfg = cfg
        cfg["ld"]["timestep"] = float(rng.choice([1e-3, 0.0025, 0.01])) if not tiny else 0.01
        cfg["ld"]["friction"] = float(rng.choice([0.0, 0.0, 0.5, 4.0, 70.0])) if not tiny else 0.0
        cfg["ld"]["kt"] = float(rng.choice([0.7, 3.0])) if cfg["ld"]["friction"] == 0 else 1e-42
        given = rng.random() < 0.7
        cfg["particles"]["mass"] = float(rng.choice([1.0, 0.3, 2.5, 11.0])) if given else None
        mass = cfg["particles"]["mass"] if given else 1.0
        if cfg["potential"]["type"] == "mueller-brown" and rng.random() < 0.5:
            cfg["potential"]["n_dim"] = 2
        res, pot = run_recorded(mon, cfg)
        if res is None or not check_length(mon, cfg, res.rec):
            return
        system = Sys(refcfg, ranges, pot)
        dt, friction = cfg["ld"]["timestep"], cfg["ld"]["friction"]
        c1 = np.exp(-0.5 * friction * dt)
        mon.sig("det", n_dim, cfg["potential"]["type"], bc, dt, friction, given, mass)
        states = res.rec.end_of_step
        for k in range(n_steps):
            a, b = states[k], states[k + 1]
            for i in range(a.n):
                pos, mom = a.pos[i], a.mom[i]
                if not np.all(np.isfinite(pos)) or np.abs(pos).max() > 30:
                    continue
                raw, new, m, hit = c01.ref_step(system, pos, mom, mass, c1, dt)
                edge = False
                for x, y, (lo, hi) in zip(raw, new, ranges):
                    tol = 1e-8 * (hi - lo) + 1e-12 * abs(x)
                    edge |= min(abs(x - lo), abs(x - hi), abs(y - lo), abs(y - hi)) < tol
                if (edge and bc != "none") or np.abs(new).max() > 30:
                    continue
                mon.count("noise-free walker steps")
                mon.count("noise-free boundary hits", int(hit.sum()))
                if n_dim > 1:
                    mon.count(f"noise-free boundary hits in {n_dim} dimensions", int(hit.sum()))
                _, ag = system.abs_energy(new)
                _, ag0 = system.abs_energy(pos)
                ptol = 1e-9 * (1 + np.abs(raw).max() * (1 if bc == "periodic" else 1e-2))
                mtol = 1e-9 * (np.abs(m).max() + np.abs(mom).max() + dt * (ag.max() + ag0.max())
                               + 1e-6) + dt * 1e3 * ag.max() * ptol
                w = dict(step=k + 1, walker=i, input=sim.input_text(cfg), before=(pos, mom))
                ok = mon.check(np.all(np.abs(b.pos[i] - new) <= ptol),
                               "positions follow timestep, potential, mass and boundary condition of the input",
                               got=b.pos[i], want=new, **w)
                ok &= mon.check(np.all(np.abs(b.mom[i] - m) <= mtol),
                                "momenta follow timestep, friction and boundary condition of the input",
                                got=b.mom[i], want=m, **w)
                if not ok:
                    return
    mon.sample(dict(input=sim.input_text(cfg)))


def run_noise(case, mon):
    """Inferred normal numbers with the parameters of the input file"""
    rng = np.random.default_rng(case["seed"])
    for rep in range(3):
        ld_type = "overdamped" if (case["i"] + rep) % 3 == 0 else "bussi-parinello"
        n_steps = int(rng.integers(60, 140))
        cfg, n_dim, ranges = gen.base_config(rng, n_steps, bd=rng.random() < 0.4, ld_type=ld_type, number=20)
        cfg["ld"]["timestep"] = float(rng.choice([5e-4, 1e-3, 2e-3]))
        given = rng.random() < 0.7
        cfg["particles"]["mass"] = float(rng.choice([1.0, 0.3, 2.5, 11.0])) if given else None
        mass = cfg["particles"]["mass"] if given else 1.0
        if ld_type == "bussi-parinello":
            cfg["ld"]["kt"] = float(np.round(rng.uniform(0.2, 3.0), 3))
            cfg["ld"]["friction"] = float(rng.choice([0.3, 2.0, 10.0, 100.0]))
        elif rng.random() < 0.4:  # meaningless for this integrator, must not have an effect
            cfg["ld"]["kt"] = 3.0
            cfg["ld"]["friction"] = 7.0
        if rng.random() < 0.5:
            outputs.full_outputs(rng, cfg, n_dim, ranges, n_steps)
        res, pot = run_recorded(mon, cfg)
        if res is None or not check_length(mon, cfg, res.rec):
            return
        system = Sys(cfg, ranges, pot)
        dt = cfg["ld"]["timestep"]
        bc = system.bc
        mon.sig("noise", ld_type, n_dim, cfg["potential"]["type"], bc, dt, cfg["ld"].get("friction"), given)
        lo = np.array([r[0] for r in ranges])
        hi = np.array([r[1] for r in ranges])
        first, second, old = [], [], []
        for k in range(n_steps):
            a, b = res.rec.end_of_step[k], res.rec.after_ld[k]
            for i in range(a.n):
                pos, mom = a.pos[i], a.mom[i]
                new = b.pos[i]
                if not np.all(np.isfinite(new)) or np.abs(pos).max() > 8:
                    continue
                f0 = system.ref.force(pos)
                if ld_type == "overdamped":
                    reach = np.abs(dt * f0) + 9 * np.sqrt(2 * dt)
                else:
                    reach = (np.abs(mom) + np.abs(dt * f0) + 9 * np.sqrt(mass * cfg["ld"]["kt"])) * dt / mass
                if bc != "none" and np.any((pos - reach < lo) | (pos + reach > hi)):
                    continue  # may have crossed a boundary
                if ld_type == "overdamped":
                    first.append((new - pos - dt * f0) / np.sqrt(2 * dt))
                    old.append(f0 / (np.abs(f0) + 1e-9))
                else:
                    c1 = np.exp(-0.5 * cfg["ld"]["friction"] * dt)
                    c2 = np.sqrt((1 - c1 * c1) * mass * cfg["ld"]["kt"])
                    m2 = (new - pos) * mass / dt
                    first.append((m2 - 0.5 * dt * f0 - c1 * mom) / c2)
                    second.append((b.mom[i] - c1 * (m2 + 0.5 * dt * system.ref.force(new))) / c2)
                    old.append(mom / np.sqrt(mass * cfg["ld"]["kt"]))
        if len(first) < 50:
            continue
        mon.count("noisy walker steps " + ("overdamped" if ld_type == "overdamped" else "underdamped"), len(first))
        z = np.array(first).ravel()
        o = np.array(old).ravel()
        z2 = np.array(second).ravel()
        allz = np.concatenate([z, z2])
        n = len(allz)
        var = float(np.mean(allz**2))
        w = dict(input=sim.input_text(cfg), samples=n, mean=float(allz.mean()), variance=var,
                 largest=float(np.abs(allz).max()))
        ok = mon.check(np.abs(allz).max() < 8, "noise of the run has no outliers", **w)
        ok &= mon.check(abs(var - 1) * np.sqrt(n / 2.0) < 8,
                        "variance of the noise follows temperature, friction, timestep and mass of the input", **w)
        ok &= mon.check(abs(allz.mean()) * np.sqrt(n) < 7, "noise has zero mean", **w)
        if not ok:
            return
        kind = ld_type.split("-")[0]
        mon.pool(f"n {kind} dt {dt}", allz)
        mon.pool(f"n {kind} mass {mass}", allz)
        mon.pool(f"n {kind} bc {bc}", allz)
        mon.pool(f"n {kind} friction {cfg['ld'].get('friction') if kind == 'bussi' else None}", allz)
        mon.pool(f"n {kind} dim {n_dim} {cfg['potential']['type']}", allz)
        mon.pool(f"n {kind} birth-death {'birth-death' in cfg}", allz)
        if kind == "bussi":
            mon.pool("x first*second", z * z2)
            mon.pool("x momentum*first", o * z)
        else:
            mon.pool("x force sign*noise", o * z)
    mon.sample(dict(input=sim.input_text(cfg)))


VARIANTS = {"original": ("original", "orig"), "additive": ("additive", "add"),
            "multiplicative": ("multiplicative", "mult")}


def choose_variant(rng, sec, variant, decoy=True):
    """Ask for the variant in one of the ways the input allows

    :param decoy: allow another variant in the option without precedence
    """
    name = str(rng.choice(VARIANTS[variant]))
    others = [x for v, names in VARIANTS.items() if v != variant for x in names]
    ways = ["approximation", "correction"] + (["both"] if decoy else []) + (["omitted"] * 2 if variant == "original" else [])
    way = str(rng.choice(ways))
    if way == "approximation":
        sec["approximation-variant"] = name
    elif way == "correction":
        sec["correction-variant"] = name
    elif way == "both":
        two = [("approximation-variant", name), ("correction-variant", str(rng.choice(others)))]
        if rng.random() < 0.5:
            two.reverse()
        sec.update(two)
    return way


def rates_from_input(cfg, pos, ranges, variant):
    """Function of the walkers in the slots -> rates, from the input file alone"""
    r = gen.ref_potential(cfg)
    kt = cfg["ld"]["kt"] if cfg["ld"]["type"] != "overdamped" else 1.0
    bw = np.atleast_1d(cfg["birth-death"]["kernel-bandwidth"])
    ene = np.array([r.energy(p) for p in pos])
    corr = np.zeros(len(pos))
    if variant != "original":
        npts = []
        for (lo, hi), h in zip(ranges, bw):
            n = max(501, int(np.ceil((hi - lo) / (0.5 * h))))
            npts.append(n + 1 - n % 2)
        sm = smooth.Smoothed(r.energy, kt, ranges, npts, bw)
        low, high = sm.add_at(pos) if variant == "additive" else sm.mult_at(pos)
        corr = 0.5 * (low + high)
        if np.max(high - low) > 0.04:
            return None
    cache = {}

    def rates(slots):
        if slots not in cache:
            idx = list(slots)
            p = pos[idx]
            base = np.log(ref.kde(p, p, bw))
            if variant == "original":
                base = base + ene[idx] / kt
                base = base - base.mean()
            elif variant == "additive":
                base = base + ene[idx] / kt
                base = base - base.mean() + corr[idx]
            else:
                base = base + corr[idx]
                base = base - base.mean()
            cache[slots] = base
        return cache[slots]

    return rates


def run_bd(case, mon):
    """Frozen walkers: outcome frequencies follow from the birth-death options of the input"""
    rng = np.random.default_rng(case["seed"])
    for attempt in range(20):
        variant = ["original", "additive", "multiplicative"][case["i"] % 3]
        n_dim = 1 if variant != "original" else int(rng.choice([1, 1, 2, 3]))
        cfg, n_dim, ranges = gen.base_config(rng, 1, n_dim=n_dim, bd=False, kind="polynomial")
        n = int(rng.choice([2, 3, 3, 4]))
        mid = [0.5 * (a + b) for a, b in ranges]
        pos = np.array([[m + 0.7 * (b - m) * rng.uniform(-1, 1) for m, (a, b) in zip(mid, ranges)] for _ in range(n)])
        pos = np.round(pos, 3)
        dt = float(rng.choice([1e-13, 3e-14]))
        stride = int(rng.choice([1, 1, 2, 3, 7])) if case["i"] % 8 else 120
        cfg["ld"]["timestep"] = dt
        if cfg["ld"]["type"] != "overdamped":
            cfg["ld"]["kt"] = float(np.round(rng.uniform(0.4, 2.5), 2))
        part = {"number": n, "initial-distribution": "fractions-pos", "fractions": [1] * n}
        for i, p in enumerate(pos):
            part[f"pos{i+1}"] = [float(x) for x in p]
        cfg["particles"] = part
        bw = [float(np.round(rng.uniform(0.2, 0.9), 2)) for _ in range(n_dim)]
        bd = {"stride": stride, "kernel-bandwidth": bw[0] if n_dim == 1 else bw, "seed": int(rng.integers(10**6))}
        recalc = bool(rng.random() < 0.5)
        if recalc or rng.random() < 0.5:
            bd["recalculate-probabilities"] = recalc
        way = choose_variant(rng, bd, variant, n_dim == 1)  # smoothing in 2d or 3d is expensive
        cfg["birth-death"] = bd
        rates = rates_from_input(cfg, pos, ranges, variant)
        if rates is None:
            continue
        start = rates(tuple(range(n)))
        dtf = c07.tune(rng, start)
        if np.max(np.abs(start)) * dtf < 60:
            break
    else:
        mon.count("no suitable ensemble")
        return
    bd["exponential-factor"] = dtf / (dt * stride)
    reps = 1500 if stride < 100 else 200
    tail = int(rng.integers(0, stride))
    cfg["ld"]["n_steps"] = reps * stride + tail
    store = {}

    def probe(stage, action, step):
        if stage == "ld" and "saved" not in store:
            store["ld"] = action
            store["saved"] = [copy.deepcopy(p) for p in action.particles]
        if stage == "bd" and step % stride == 0:
            c07.restore(store["ld"], store["saved"])

    res = sim.must_run(mon, cfg, probe=probe)
    if res is None or not check_length(mon, cfg, res.rec):
        return
    w = dict(input=sim.input_text(cfg), variant=variant, way=way, recalc=recalc)
    saved = np.array([p.pos for p in store["saved"]])
    if not mon.check(np.allclose(saved, pos, atol=1e-4), "walkers start at the given positions", got=saved, **w):
        return
    steps = [s for s, _ in res.rec.bd_events]
    if not mon.check(steps == [stride * (k + 1) for k in range(reps)],
                     "birth-death moves are attempted at every multiple of the stride and at no other step",
                     first=steps[:5], number=len(steps), expected=reps, **w):
        return
    observed = {}
    for _, ev in res.rec.bd_events:
        key = tuple(ev)
        observed[key] = observed.get(key, 0) + 1
    dist = {}
    for key, p in bdmodel.outcomes(n, rates, dtf, recalc).items():
        key = key if key == "rest" else key[0]
        dist[key] = dist.get(key, 0.0) + p
    dist.pop("rest", None)
    mon.count("birth-death executions with known rates", reps)
    mon.count("birth-death events with known rates", sum(len(e) for _, e in res.rec.bd_events))
    mon.sig("bd", variant, way, recalc, n, n_dim, stride, cfg["ld"]["type"])
    p, impossible, dev = bdmodel.compare(observed, dist, reps)
    mon.check(not impossible, "every outcome is possible with the birth-death options of the input",
              impossible=[str(x) for x in impossible[:3]], **w)
    mon.check(p > 1e-9, "frequencies of the outcomes follow stride, bandwidth, variant, factor, recalculation mode "
              "and temperature of the input", p=p, deviations=[str(x) for x in dev], rates=start, **w)
    mon.sample(dict(input=sim.input_text(cfg), p=p))


SECTIONS = ["birth-death", "trajectories", "histogram", "fes", "delta-f", "particle-distribution"]
NEEDS = {"histogram": "trajectories", "fes": "histogram", "delta-f": "fes"}


def legal_sets():
    out = []
    for k in range(len(SECTIONS) + 1):
        for s in itertools.combinations(SECTIONS, k):
            if all(NEEDS.get(x) is None or NEEDS[x] in s for x in s):
                out.append(s)
    return out


def build_sections(rng, present, n_steps):
    cfg, n_dim, ranges = gen.base_config(rng, n_steps, bd="birth-death" in present)
    if "birth-death" in cfg:
        cfg["birth-death"]["exponential-factor"] = 1e4
        cfg["birth-death"]["stride"] = int(rng.choice([1, 2, 3]) if n_steps <= 30 else rng.choice([3, 21, 25, 30]))
        if rng.random() < 0.5:
            cfg["birth-death"]["stats-filename"] = "bdstats"
            cfg["birth-death"]["stats-stride"] = int(rng.choice([1, 2, 5]))
    if "trajectories" in present:
        bare = rng.random() < 0.2
        cfg["trajectories"] = {} if bare else outputs.traj_section(rng, "traj")
    if "histogram" in present:
        cfg["histogram"] = outputs.histo_section(rng, n_dim, ranges, n_steps, "histo")
    if "fes" in present:
        cfg["fes"] = outputs.fes_section(rng, "fes")
    if "delta-f" in present:
        cfg["delta-f"] = outputs.strided(rng, outputs.states(rng, ranges, 2), "deltaf")
    if "particle-distribution" in present:
        cfg["particle-distribution"] = outputs.strided(rng, outputs.states(rng, ranges, 2), "pdist")
    names = list(cfg)
    rng.shuffle(names)
    cfg = {k: cfg[k] for k in names}
    if rng.random() < 0.4:  # unknown sections and options are ignored
        cfg["notes"] = {"stride": 3, "n_steps": 7, "text": "something"}
        cfg["ld"]["comment"] = "unknown"
    return cfg, n_dim, ranges


def check_order(mon, cfg, rec, present, **w):
    """Dynamics first, then birth-death, then outputs with their dependencies; final outputs after the last step"""
    n_steps = cfg["ld"]["n_steps"]
    per_step = {}
    seen_final = False
    ok = True
    for action, method, step in rec.events:
        mon.count("action calls ordered")
        if method == "final_run":
            seen_final = True
            continue
        ok &= mon.check(not seen_final, "no time step follows the final output", action=action, step=step, **w)
        per_step.setdefault(step, []).append(action)
    active = {a for a, _, _ in rec.events} - {"ld"}
    ok &= mon.check(active == set(present), "a section is active if and only if it is present", active=sorted(active),
                    present=sorted(present), **w)
    order = list(per_step)
    ok &= mon.check(order == list(range(1, n_steps + 1)), "time steps are numbered 1 to n_steps in order",
                    got=order[:5] + order[-2:], n_steps=n_steps, **w)
    for step, acts in per_step.items():
        ld_first = acts[:1] == ["ld"] and acts.count("ld") == 1
        bd = [i for i, a in enumerate(acts) if a == "birth-death"]
        good = ld_first and (not bd or bd == [1])
        if not mon.check(good, "within a time step the dynamics come first, then birth-death, then the outputs",
                         step=step, order=acts, **w):
            return False
    return ok


def run_long(case, mon):
    """Very many time steps, counted by the number of random displacements and by the outputs"""
    rng = np.random.default_rng(case["seed"])
    n = case["n_steps"] + int(rng.integers(1000))
    cfg = {"ld": {"type": str(rng.choice(["overdamped", "bussi-parinello"])), "timestep": 0.01, "n_steps": n, "seed": 3,
                  "kt": 1.0, "friction": 5.0},
           "potential": {"type": "polynomial", "n_dim": 1, "coeffs": [0.0, 0.0, 0.5], "min": -4.0, "max": 4.0},
           "particles": {"number": 1, "initial-distribution": "random-global", "seed": 4},
           "trajectories": {"filename": "traj", "stride": 1000, "write-stride": 10000},
           "particle-distribution": {"state1-min": -2.0, "state1-max": 2.0, "filename": "dist"}}
    with sim.fresh_dir():
        sim.write_input(cfg)
        p = sim.run_cli(timeout=280 if n < 10**6 else 650)
        mon.count("executions")
        mon.sig("long", cfg["ld"]["type"], n)
        if not mon.check(p.returncode == 0, "legal input runs to completion", stderr=p.stderr[-800:]):
            return
        steps = sim.table_values(sim.read_table("traj.0")[2])
        dist = sim.table_values(sim.read_table("dist")[2])
    mon.count("runs of more than 131072 steps")
    mon.check(len(dist) == 1 and dist[0][0] == n, "exactly n_steps time steps are performed", n_steps=n, got=dist)
    mon.check(len(steps) == n // 1000 and np.allclose(steps[:, 0], 10.0 * np.arange(1, n // 1000 + 1), rtol=1e-9),
              "exactly n_steps time steps are performed", n_steps=n, lines=len(steps))
    mon.check(len(np.unique(steps[:, 1])) > 0.95 * len(steps) - 2, "walkers move until the end", n_steps=n)


def run_sections(case, mon):
    rng = np.random.default_rng(case["seed"])
    sets = legal_sets()
    for rep in range(4):
        present = sets[(case["i"] * 4 + rep) % len(sets)]
        n_steps = int(rng.choice([1, 3, 10, 25, 30, 60, 90])) if rep else 60
        with sim.fresh_dir():
            cfg, n_dim, ranges = build_sections(rng, present, n_steps)
            res, pot = run_recorded(mon, cfg)
            if res is None or not check_length(mon, cfg, res.rec):
                return
            rec = res.rec
            w = dict(input=sim.input_text(cfg))
            mon.count("section sets")
            mon.sig("sections", present, cfg["ld"]["type"], n_dim)
            if not check_order(mon, cfg, rec, present, **w):
                return
            # the state outputs of a step can see is the one after birth-death
            last = rec.after_bd if "birth-death" in present else rec.after_ld
            for k in range(n_steps):
                if len(last) == n_steps:
                    mon.check(last[k].same(rec.end_of_step[k + 1]), "the outputs of a step see the final state of it",
                              step=k + 1, **w)
            if "birth-death" in present:
                s = cfg["birth-death"]["stride"]
                steps = [x for x, _ in rec.bd_events]
                mon.check(steps == outputs.multiples(s, n_steps), "birth-death moves at multiples of the stride",
                          steps=steps[:6], stride=s, **w)
            for sec in ("trajectories", "particle-distribution", "histogram", "fes", "delta-f"):
                if sec in present and cfg[sec]:
                    before = mon.n_violations
                    outputs.CHECKERS[sec](mon, cfg, rec, n_dim, input=sim.input_text(cfg))
                    if mon.n_violations > before:
                        return
            have = set(outputs.read_tree()) - {"input", "pot.coeffs"}
            want = set(outputs.output_files(cfg, cfg["particles"]["number"]))
            mon.check(want <= have, "a finished run has written all its files", missing=sorted(want - have), **w)
            extra = {f for f in have - want if not f.startswith("fes")}
            mon.check(not extra, "files are written only by sections that are present", extra=sorted(extra), **w)
            rows = 0
            for f in want & have:
                rows += len(sim.read_table(f)[2])
            mon.count("output rows tied to the state after the step", rows)
            if mon.n_violations:
                return
    mon.sample(dict(input=sim.input_text(cfg), events=[str(e) for e in rec.events[:8]]))


def default_pairs(rng, cfg, n_dim):
    """(name, section, option, explicit value of the documented default, a value that must matter)"""
    return [
        ("mass", "particles", "mass", 1.0, 4.0),
        ("factor", "birth-death", "exponential-factor", 1.0, 1e7),
        ("recalculate", "birth-death", "recalculate-probabilities", False, None),
        ("variant", "birth-death", "approximation-variant", "original", None),
        ("old variant", "birth-death", "correction-variant", "original", None),
        ("trajectory stride", "trajectories", "stride", 1, 2),
        ("histogram stride", "histogram", "stride", 1, None),
        ("momentum", "trajectories", "momentum", False, None),
        ("scaling factor", "potential", "scaling-factor", 1.0, 0.3),
        ("n_dim of mueller-brown", "potential", "n_dim", 2, None),
        ("trajectory format", "trajectories", "fmt", "%%14.9f", "%%.3e"),
        ("histogram format", "histogram", "fmt", "%%14.9f", "%%.3e"),
        ("fes format", "fes", "fmt", "%%14.9f", "%%.3e"),
        ("delta-f format", "delta-f", "fmt", "%%14.9f", "%%.3e"),
        ("distribution format", "particle-distribution", "fmt", None, None),
    ]


def run_pair(mon, cfg, n_dim):
    with sim.fresh_dir():
        if "coeffs-file" in cfg["potential"]:
            gen.write_coeffs("pot.coeffs", gen.WOLFE_QUAPP if n_dim == 2 else gen.coeffs3d())
        res = sim.must_run(mon, cfg)
        files = outputs.read_tree()
    files.pop("input", None)
    return res, files


def run_defaults(case, mon):
    rng = np.random.default_rng(case["seed"])
    table = default_pairs(rng, None, 1)
    for rep in range(9):
        name, sec, opt, value, other = table[(case["i"] * 9 + rep) % len(table)]
        if value is None:
            continue
        n_steps = int(rng.integers(20, 60))
        kind = "mueller-brown" if sec == "potential" else None
        with sim.fresh_dir():
            cfg, n_dim, ranges = gen.base_config(rng, n_steps, bd=True, n_dim=2 if kind else None, kind=kind,
                                                 bc="reflective" if kind else None,
                                                 ld_type="bussi-parinello" if name == "mass" else None)
        cfg["birth-death"]["exponential-factor"] = 1e3
        cfg["birth-death"]["stride"] = 2
        cfg["birth-death"].pop("recalculate-probabilities", None)
        if "variant" in name:
            cfg["birth-death"].pop("approximation-variant", None)
        cfg["trajectories"] = {"filename": "traj", "stride": 2}
        cfg["histogram"] = {"min": [r[0] for r in ranges] if n_dim > 1 else ranges[0][0],
                            "max": [r[1] for r in ranges] if n_dim > 1 else ranges[0][1],
                            "bins": [4] * n_dim if n_dim > 1 else 10, "filename": "histo", "stride": 2}
        cfg["fes"] = {"kt": 1.3, "filename": "fes", "stride": 2}
        cfg["delta-f"] = dict(outputs.states(rng, ranges, 2), filename="deltaf", stride=2)
        if sec == "trajectories" and opt == "stride":
            cfg["histogram"].pop("stride")
        cfg[sec].pop(opt, None)
        if name == "scaling factor":
            cfg["ld"]["timestep"] = 1e-4
            cfg["ld"]["n_steps"] = n_steps = 20
        explicit = copy.deepcopy(cfg)
        explicit[sec][opt] = value
        r1, f1 = run_pair(mon, cfg, n_dim)
        r2, f2 = run_pair(mon, explicit, n_dim)
        if r1 is None or r2 is None:
            return
        mon.count("pairs with omitted and explicit default")
        mon.sig("default", name, n_dim, cfg["ld"]["type"])
        diff = sorted(f for f in set(f1) | set(f2) if f1.get(f) != f2.get(f))
        same = len(r1.rec.end_of_step) == len(r2.rec.end_of_step) and all(
            a.same(b) for a, b in zip(r1.rec.end_of_step, r2.rec.end_of_step))
        if not mon.check(same and not diff, "leaving an option out is the same as giving its default", option=opt,
                         section=sec, default=value, files=diff[:4], states_equal=same, input=sim.input_text(cfg)):
            return
        if other is not None:
            changed = copy.deepcopy(cfg)
            changed[sec][opt] = other
            if name == "trajectory stride":
                changed["histogram"]["stride"] = 2
            r3, f3 = run_pair(mon, changed, n_dim)
            if r3 is None:
                return
            events = any(ev for _, ev in r1.rec.bd_events) or any(ev for _, ev in r3.rec.bd_events)
            if name != "factor" or events:
                mon.count("pairs that must differ")
                mon.check(f1 != f3, "giving a value other than the default has an effect", option=opt, section=sec,
                          value=other, input=sim.input_text(changed))
        if mon.n_violations:
            return
    mon.sample(dict(input=sim.input_text(cfg), option=opt))


ENTRY = ("import os, sys, runpy; sys.path.insert(0, {verif!r}); from vlib import boot; boot.install(); "
         "sys.argv = ['bdld_run'] + sys.argv[1:]; runpy.run_path(os.path.join(boot.REPO, 'bin', 'bdld_run'), "
         "run_name='__main__')")


def run_cli(case, mon):
    """Processes of their own: exit status and complete output, for every entry point"""
    rng = np.random.default_rng(case["seed"])
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for rep in range(2):
        n_steps = int(rng.choice([1, 9, 25]))
        with sim.fresh_dir():
            cfg, n_dim, ranges = build_sections(rng, SECTIONS, n_steps)
            if not cfg["trajectories"]:
                cfg["trajectories"] = outputs.traj_section(rng, "traj")
        cfg["potential"] = {"type": "mueller-brown", "scaling-factor": 0.1, "boundary-condition": "reflective"} \
            if n_dim == 2 else cfg["potential"]
        _, expected = run_pair(mon, cfg, n_dim)
        for entry in ("module", "script"):
            with sim.fresh_dir():
                if "coeffs-file" in cfg["potential"]:
                    gen.write_coeffs("pot.coeffs", gen.WOLFE_QUAPP if n_dim == 2 else gen.coeffs3d())
                sim.write_input(cfg)
                if entry == "module":
                    p = sim.run_cli()
                else:
                    p = subprocess.run([sys.executable, "-W", "ignore", "-c", ENTRY.format(verif=verif), "input"],
                                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                       text=True, timeout=200)
                files = outputs.read_tree()
            files.pop("input", None)
            mon.count("processes")
            mon.sig("cli", entry, n_dim)
            w = dict(entry=entry, input=sim.input_text(cfg))
            if not mon.check(p.returncode == 0, "a successful run ends with exit status 0", status=p.returncode,
                             stderr=p.stderr[-800:], **w):
                return
            mon.count("files of processes compared", len(files))
            diff = sorted(f for f in set(files) | set(expected) if files.get(f) != expected.get(f))
            if not mon.check(not diff, "all output of the run is on disk when the process ends", files=diff[:5], **w):
                return
        # a run that cannot do what is asked for must not look successful
        bad = copy.deepcopy(cfg)
        which = int(rng.integers(4))
        if which == 0:
            bad.pop("ld")
        elif which == 1:
            bad["ld"]["timestep"] = "fast"
        elif which == 2:
            bad["trajectories"]["filename"] = "no/such/dir/traj"
        else:
            bad["potential"] = {"type": "unknown", "n_dim": 1}
        for target in (bad, None):
            with sim.fresh_dir():
                if target is not None:
                    sim.write_input(target)
                p = sim.run_cli()
            mon.count("failing runs with status not 0")
            mon.check(p.returncode != 0, "a run that fails does not end with exit status 0", which=which,
                      stdout=p.stdout[-400:])
    mon.sample(dict(input=sim.input_text(cfg), files=sorted(expected)))


def run_case(case, mon):
    dict(det=run_det, noise=run_noise, bd=run_bd, sections=run_sections, defaults=run_defaults,
         cli=run_cli, long=run_long)[case["mode"]](case, mon)


def finalize(mon, tier):
    core.check_normal_pools(mon, "n ")
    core.check_product_pools(mon, "x ")
