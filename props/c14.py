"""C14: the particle distribution counts walkers per state, once per stride"""
import itertools

import numpy as np

from props import c10
from vlib import gen, outputs, ref, sim

RULE = "one signature per (n_steps, stride, write-stride, states, dimension, boundary condition)"
REQUIRED = {
    "program runs": 400,
    "distribution files": 400,
    "distribution lines": 3000,
    "walkers counted in states": 10000,
    "walkers exactly on a border": 100,
    "runs in 2d": 15,
    "runs in 3d": 8,
    "runs of more than 65536 steps": 1,
    "runs with more than nine states": 10,
    "runs with more than 255 walkers": 1,
    "direct region tests": 300,
    "walkers in crowds": 100000,
}
ASSUMPTIONS = []
GRID = list(itertools.product((1, 2, 4, 5, 6, 7, 12, 13), (None, 1, 2, 3, 4, 5, 7), (None, 1, 2, 3, 4, 6)))


def cases(tier, seed):
    rng = np.random.default_rng(seed)
    out = []
    reps = 1 if tier == "quick" else 8
    for r in range(reps):
        idx = rng.permutation(len(GRID))
        combos = [GRID[i] for i in idx]
        out += [dict(mode="enum", combos=combos[i:i + 40], seed=seed * 100483 + i + 7919 * r)
                for i in range(0, len(combos), 40)]
    m = 30 if tier == "quick" else 400
    out += [dict(mode="random", seed=seed * 100493 + i) for i in range(m)]
    out.append(dict(mode="long", seed=seed * 100483 - 1))
    out += [dict(mode="direct", seed=seed * 100501 + i) for i in range(6 if tier == "quick" else 80)]
    out.append(dict(mode="crowd", seed=seed * 100505))
    return out


def run_crowd(rng, mon):
    """A crowd of walkers (more than 2**16) is counted completely"""
    from bdld.actions.particle_distribution import ParticleDistributionAction
    from bdld.particle import Particle
    from vlib import systems

    for n in (70000, 33000):
        pos = rng.normal(size=(n, 1))
        particles = [Particle(list(x)) for x in pos]
        states = [[(-9.0, 9.0)], [(-0.1, 9.0)], [(0.5, 1.0)], [(8.0, 9.0)]]
        with systems.quiet():
            act = ParticleDistributionAction(particles, states, 1, f"crowd{n}", 2)
        for step in range(1, 4):
            act.run(step)
            for i in rng.integers(n, size=50):
                particles[i].pos[0] += 0.01
        act.final_run(3)
        # at most 50 walkers change state between two steps
        _, _, rows = sim.read_table(f"crowd{n}")
        v = sim.table_values(rows).reshape(-1, 5)
        want = [int(ref.inside(pos, [s[0][0]], [s[0][1]]).sum()) for s in states]
        mon.count("walkers in crowds", n)
        mon.check(len(v) == 3 and v[:, 0].tolist() == [1, 2, 3] and np.array_equal(v[0, 1:], want)
                  and np.all(np.abs(v[:, 1:] - want) <= 100), "crowds are counted completely", got=v, want=want, n=n)
        mon.sig("crowd", n)


def run_one(mon, cfg, n_dim):
    with sim.fresh_dir():
        if n_dim > 1 and "coeffs-file" in cfg["potential"]:
            gen.write_coeffs("pot.coeffs", gen.WOLFE_QUAPP if n_dim == 2 else gen.coeffs3d())
        res = sim.must_run(mon, cfg)
        if res is None:
            return None
        mon.count("program runs")
        if n_dim > 1:
            mon.count(f"runs in {n_dim}d")
        outputs.check_pdist(mon, cfg, res.rec, n_dim)
        sec = cfg["particle-distribution"]
        if len(outputs.state_list(sec)) > 9:
            mon.count("runs with more than nine states")
        if res.rec.end_of_step[0].n > 255:
            mon.count("runs with more than 255 walkers")
        mon.sig(cfg["ld"]["n_steps"], sec.get("stride"), sec.get("write-stride"), len(outputs.state_list(sec)), n_dim,
                cfg["potential"].get("boundary-condition"))
        return res


def run_direct(rng, mon):
    from bdld.tools import pos_inside_ranges

    for rep in range(60):
        d = int(rng.choice([1, 2, 3]))
        n = int(rng.choice([0, 1, 5, 30]))
        k = int(rng.integers(1, 5))
        grid = np.round(rng.normal(size=6), 1)
        pos = rng.choice(grid, size=(n, d)) if rng.random() < 0.7 else rng.normal(size=(n, d))
        st = []
        for _ in range(k):
            x = np.sort(rng.choice(grid, size=(2, d)), axis=0)
            st.append([(float(x[0, j]), float(x[1, j])) for j in range(d)])
        p0 = pos.copy()
        got = pos_inside_ranges(pos, st)
        mon.count("direct region tests")
        ok = mon.check(len(got) == k and all(
            np.array_equal(np.asarray(g, dtype=bool) if n else np.zeros(0, dtype=bool),
                           ref.inside(pos, [a for a, _ in s], [b for _, b in s])) for g, s in zip(got, st)),
            "states are closed rectangular regions", n_dim=d, pos=pos[:5], states=st)
        ok &= mon.check(np.array_equal(pos, p0), "positions are not modified")
        if not ok:
            return


def run_case(case, mon):
    rng = np.random.default_rng(case["seed"])
    if case["mode"] == "direct":
        return run_direct(rng, mon)
    if case["mode"] == "crowd":
        return run_crowd(rng, mon)
    if case["mode"] == "long":
        run_one(mon, outputs.long_config(rng, ["particle-distribution"], number=2), 1)
        mon.count("runs of more than 65536 steps")
        return
    if case["mode"] == "enum":
        for n_steps, stride, mult in case["combos"]:
            cfg = c10.enum_config(rng, n_steps, 1, 10, int(rng.integers(1, 12)))
            del cfg["trajectories"]
            if rng.random() < 0.03:
                cfg["particles"]["number"] = int(rng.integers(260, 500))
            if rng.random() < 0.5:  # walkers exactly on borders
                cfg["potential"].update({"boundary-condition": "reflective", "min": -0.4, "max": 0.7})
                opts = {"state1-min": [-0.4], "state1-max": [0.1], "state2-min": [0.1], "state2-max": [0.7]}
            else:
                opts = gen.states_options(rng, [(-2.0, 2.0)], outputs.n_states(rng, 1, 5))
            cfg["particle-distribution"] = {**opts, "filename": "dist"}
            if stride:
                cfg["particle-distribution"]["stride"] = stride
                if mult:
                    cfg["particle-distribution"]["write-stride"] = stride * mult
            elif mult and rng.random() < 0.5:
                cfg["particle-distribution"]["write-stride"] = mult
            run_one(mon, cfg, 1)
            if mon.n_violations:
                return
        return
    for rep in range(4):
        n_steps = int(outputs.pick(rng, [1, 30, 99, 100, 101, 150, 199, 200, 201, int(rng.integers(1, 320))]))
        with sim.fresh_dir():
            cfg, n_dim, ranges = gen.base_config(rng, n_steps, number=int(rng.integers(2, 15)))
        if "birth-death" in cfg:
            cfg["birth-death"]["exponential-factor"] = 1000.0
        sec = outputs.states(rng, ranges, outputs.n_states(rng, 1, 6))
        cfg["particle-distribution"] = outputs.strided(rng, sec, "pd", outputs.FMTS + ["%d"])
        if rng.random() < 0.3:
            cfg["trajectories"] = outputs.traj_section(rng)
        res = run_one(mon, cfg, n_dim)
        if res is None or mon.n_violations:
            return
    mon.sample(dict(section=cfg["particle-distribution"], n_steps=n_steps, n_dim=n_dim))
